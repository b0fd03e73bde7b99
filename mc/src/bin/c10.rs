//! C10: contains(v) is true exactly when evaluating the expression consults v.
use aegir::{buffers::{shapes::*, Buffer, Spec}, ids::{W, X, Y, Z}, ops, ops::*, Contains, Context, Differentiable, Function, Identifier, Node, Read, Write};
#[path = "../names.rs"]
mod names;
use mc_core::engine::*;
use mc_era::{ast::*, Env, N0, V};
use std::cell::Cell;
use std::rc::Rc;

const POINTS: [(f64, f64); 4] = [(0.7, 1.3), (0.0, 1.0), (1.0, 0.0), (-2.0, -1.0)];

fn names(m: u32) -> String { (0..4).filter(|i| m & 1 << i != 0).map(|i| V(i).to_string()).collect::<Vec<_>>().join(",") }

fn one(c: &mut Ctl, n: &dyn N0, what: &dyn Fn() -> (String, String)) {
    let has = (0..4).filter(|i| n.has(V(*i))).fold(0u32, |m, i| m | 1 << i);
    for p in POINTS {
        for form in 0..3u8 {
            // all variables present, all cache slots empty
            let env = || Env::new([Some(p.0), Some(p.1), None, None]).with_form([form; 4]);
            for (route, f) in [("evaluate", (|n, e| { let _ = n.ev(e); }) as fn(&dyn N0, &mut Env)), ("evaluate_spec", |n, e| { let _ = n.sp(e); })] {
                let mut e = env();
                f(n, &mut e);
                c.step(1);
                let reads = e.take_reads();
                c.check(reads == has, || {
                    let (s, d) = what();
                    (format!("contains of {}", s), format!("{}: contains answers true for {{{}}}, {} at x={} y={} (representation {}) consults {{{}}}", d, names(has), route, p.0, p.1, form, names(reads)))
                });
            }
            let mut e = env();
            let _ = n.sh(&mut e);
            let reads = e.take_reads();
            c.check(reads & !has == 0, || {
                let (s, d) = what();
                (format!("contains of {}", s), format!("{}: evaluate_shape consults {{{}}}, contains is true for {{{}}} only", d, names(reads), names(has)))
            });
        }
    }
}

// ------------------------------------------------------------------ typed identifiers and buffers
#[derive(Clone)]
struct Log<B> {
    v: [B; 4],
    slot: [Option<B>; 4],
    log: Rc<Cell<u32>>,
}
impl<B> AsMut<Log<B>> for Log<B> {
    fn as_mut(&mut self) -> &mut Log<B> { self }
}
impl<B> Context for Log<B> {}
macro_rules! reads {
    ($($I:ident $i:expr),*) => { $(
        impl<B: Buffer> Read<$I> for Log<B> {
            type Buffer = B;
            fn read(&self, _: $I) -> Option<B> {
                self.log.set(self.log.get() | 1 << $i);
                if $i == 3 { self.slot[$i].clone() } else { Some(self.v[$i].clone()) }
            }
            fn read_spec(&self, _: $I) -> Option<Spec<B>> {
                self.log.set(self.log.get() | 1 << $i);
                Some(Spec::Raw(self.v[$i].clone()))
            }
            fn read_shape(&self, _: $I) -> Option<ShapeOf<B>> {
                self.log.set(self.log.get() | 1 << $i);
                Some(self.v[$i].shape())
            }
        }
        impl<B: Buffer> Write<$I> for Log<B> {
            fn write(&mut self, _: $I, b: B) { self.slot[$i] = Some(b) }
        }
    )* }
}
reads!(X 0, Y 1, Z 2, W 3);
fn has<N: Contains<X> + Contains<Y> + Contains<Z> + Contains<W>>(n: &N) -> u32 { n.contains(X) as u32 | (n.contains(Y) as u32) << 1 | (n.contains(Z) as u32) << 2 | (n.contains(W) as u32) << 3 }
fn run<B: Buffer, N: Function<Log<B>> + Contains<X> + Contains<Y> + Contains<Z> + Contains<W>>(n: &N, v: &[B; 4]) -> (u32, u32, u32) {
    let go = |f: &dyn Fn(&mut Log<B>)| {
        let mut c = Log { v: v.clone(), slot: [None, None, None, None], log: Rc::new(Cell::new(0)) };
        f(&mut c);
        c.log.get()
    };
    (has(n), go(&|c| { let _ = n.evaluate(c); }), go(&|c| { let _ = n.evaluate_spec(c); }))
}
type Case = (&'static str, &'static str, fn() -> (u32, u32, u32), u32);
macro_rules! typed {
    ($v:expr; $k:literal; $($e:expr => $m:expr;)*) => {{ let v: Vec<Case> = vec![$((stringify!($e), $k, || { let e = $e; let v = $v; run(&e, &v) }, $m)),*]; v }};
}
fn x_() -> aegir::meta::Variable<X> { X.into_var() }
fn y_() -> aegir::meta::Variable<Y> { Y.into_var() }
fn z_() -> aegir::meta::Variable<Z> { Z.into_var() }
fn typed_list() -> Vec<Case> {
    let mut v = typed! { [0.5f64, 2.0, -1.0, 0.0]; "f64";
        x_() => 1; y_() => 2; z_() => 4;
        2.0f64.into_constant() => 0;
        x_().add(y_()) => 3; y_().sub(z_()) => 6; z_().mul(x_()) => 5; x_().div(z_()) => 5; y_().pow(x_()) => 3; x_().dot(y_()) => 3;
        TensorProduct::new(z_(), z_()) => 4;
        x_().mul(0.0f64.into_constant()) => 1; 0.0f64.into_constant().mul(y_()) => 2; x_().pow(0.0f64.into_constant()) => 1;
        x_().cached(W) => 9; x_().add(y_()).cached(W).mul(z_()) => 15;
        x_().adjoint(X) => 1; x_().adjoint(Y) => 3; y_().adjoint(X) => 3; 2.0f64.into_constant().adjoint(Z) => 4;
        x_().mul(y_()).adjoint(X) => 3; x_().mul(y_()).adjoint(Z) => 7; x_().squared().adjoint(Y) => 3;
        x_().sum() => 1; x_().abs() => 1; y_().sigmoid() => 2; z_().ln().neg() => 4; ops::trig::Sin(x_().mul(z_())) => 5; ops::special::Gamma(y_()) => 2;
    };
    v.extend(typed! { [[0.5f64, 2.0], [1.0, 3.0], [0.0, 0.0], [1.0, 1.0]]; "[f64; 2]";
        x_() => 1; y_().sum() => 2;
        x_().add(y_()) => 3; y_().sub(z_()) => 6; z_().mul(x_()) => 5; x_().div(z_()) => 5; x_().dot(y_()) => 3;
        TensorProduct::new(z_(), y_()) => 6; [1.0f64, 2.0].into_constant().dot(x_()) => 1;
        x_().add(y_()).cached(W).mul(z_()) => 15;
        x_().adjoint(X) => 1; x_().adjoint(Y) => 3; [2.0f64, 1.0].into_constant().adjoint(Z) => 4;
        x_().add(y_()).adjoint(X) => 3; x_().add(y_()).adjoint(Z) => 7; x_().dot(y_()).adjoint(X) => 3; ops::Double(x_()).adjoint(Y) => 3;
    });
    v.extend(typed! { [(0.5f64, 2.0), (1.0, 3.0), (0.0, 0.0), (1.0, 1.0)]; "(f64, f64)";
        x_() => 1; y_().sum() => 2; x_().add(y_()) => 3; y_().sub(z_()) => 6; z_().mul(x_()) => 5; x_().div(z_()) => 5;
    });
    v.extend(typed! { [vec![0.5f64, 2.0], vec![1.0, 3.0], vec![0.0, 0.0], vec![1.0, 1.0]]; "Vec<f64>";
        x_() => 1; y_().sum() => 2; x_().add(y_()) => 3; y_().sub(z_()) => 6; z_().mul(x_()) => 5; x_().div(z_()) => 5; x_().cached(W) => 9;
    });
    v
}

fn main() {
    let mut ck = Check::new("C10");
    let th = ck.thorough();
    ck.assume("All variables have a value and all cache slots are empty when the consulted identifiers are recorded; evaluate_shape may consult fewer identifiers (the shape of a power or a sum is known without them).");
    let a = Alphabet::full(0, vec![x(), y(), k(2.0), k(0.0)]);
    ck.suite("expressions", format!("{}; 4 points, 3 representations of the variables, value / lifted / shape evaluation", a.bound(2)), move |c| {
        let t = a.gen(c, 2);
        c.state(&t);
        c.desc(|| format!("{:?}", t));
        let n = t.mk0().unwrap();
        one(c, &*n.0, &|| (t.shape(), format!("{:?}", t)));
    });
    let a = Alphabet::full(0, vec![x(), y(), k(1.0)]);
    ck.suite("cached", format!("{}; every placement of cached nodes around the root and its operands", a.bound(1)), move |c| {
        let t = a.gen(c, 1);
        let v = c.choose(cache_variants(&t));
        let t = with_cache(t, v);
        c.state(&t);
        c.desc(|| format!("{:?}", t));
        let n = t.mk0().unwrap();
        one(c, &*n.0, &|| (t.shape(), format!("{:?}", t)));
    });
    let h = if th { 2 } else { 1 };
    let a = Alphabet::full(1, vec![x(), y(), k(2.0), k(0.0)]);
    ck.suite("derivatives", format!("{}, targets x, y, z", a.bound(2)), move |c| {
        let t = a.gen(c, 2);
        c.desc(|| format!("{:?}", t));
        let n = t.mk1().unwrap();
        // (cached nodes do not occur here: z and w stay unset, z is given a value as a target)
        for v in 0..2 {
            c.state((&t, v));
            let d = n.0.a1(V(v));
            c.check(d.0.has(V(v)), || (format!("contains of the derivative of {}", t.shape()), format!("the derivative of {:?} by {} does not contain {}", t, V(v), V(v))));
            one(c, &*d.0, &|| (format!("the derivative of {}", t.shape()), format!("d/d{} of {:?}", V(v), t)));
        }
    });
    let a = Alphabet::full(2, vec![x(), y(), k(2.0)]);
    ck.suite("second", format!("{}, pairs of targets", a.bound(h)), move |c| {
        let t = a.gen(c, h);
        c.desc(|| format!("{:?}", t));
        let n = t.mk2().unwrap();
        for (u, v) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
            c.state((&t, u, v));
            let d = n.0.a2(V(u)).0.a1(V(v));
            c.check(d.0.has(V(u)) && d.0.has(V(v)), || (format!("contains of the second derivative of {}", t.shape()), format!("the derivative of {:?} by {} and {} does not contain both", t, V(u), V(v))));
            one(c, &*d.0, &|| (format!("the second derivative of {}", t.shape()), format!("d/d{} d/d{} of {:?}", V(v), V(u), t)));
        }
    });
    ck.suite("typed", "typed expressions over scalars, arrays, tuples and vectors with the predefined identifiers, 4 identifiers each", |c| {
        let l = typed_list();
        let (n, k, f, m) = c.pick(&l);
        c.state((n, k));
        c.step(3);
        c.desc(|| format!("{} over {}", n, k));
        let (has, ev, sp) = f();
        c.check(has == *m, || (format!("typed: contains of {} over {}", n, k), format!("{} over {}: contains is true for {:04b}, expected {:04b} (x is bit 0)", n, k, has, m)));
        c.check(ev == *m, || (format!("typed: reads of {} over {}", n, k), format!("{} over {}: evaluate consults {:04b}, expected {:04b}", n, k, ev, m)));
        c.check(sp == *m, || (format!("typed: lifted reads of {} over {}", n, k), format!("{} over {}: evaluate_spec consults {:04b}, expected {:04b}", n, k, sp, m)));
    });
    let l: Vec<names::RowFn> = names::scalars().into_iter().chain(names::arrays()).collect();
    ck.suite("same name", format!("{} expressions over two identifiers that print alike (of two types, and of one type), with their derivatives by both", l.len()), move |c| names::reads(c, &l));
    ck.run()
}
