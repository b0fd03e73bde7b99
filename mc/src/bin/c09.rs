//! C09: a missing variable is reported precisely, and only when it is missing.
use aegir::{
    buffers::{shapes::*, Buffer, Spec},
    errors::{BinaryError, NoError},
    ids::{W, X, Y, Z},
    meta::SourceError,
    ops::{self, TensorProduct},
    Context, Differentiable, Function, Identifier, Node, Read, Write,
};
use mc_core::engine::*;
use mc_era::{
    ast::*,
    dbg::{parse, Dn},
    DErr, Env, Res, What, N0, V,
};

const POINTS: [[f64; 4]; 2] = [[0.7, 1.3, 2.0, -1.0], [0.0, -2.0, 1.0, 0.0]];

fn set(m: u32) -> String { (0..4).filter(|i| m & 1 << i != 0).map(|i| V(i).to_string()).collect::<Vec<_>>().join(",") }
fn fate<T>(c: &mut Ctl, d: &Dn, present: u32, shape: bool, route: &str, r: Res<T>, what: &dyn Fn() -> (String, String)) {
    let missing = d.needs(present, false) & !present;
    let sure = d.needs(present, shape) & !present;
    let bad = |m: String| {
        let (s, t) = what();
        (format!("missing variables in {} by {}", s, route), format!("{} with {{{}}} present by {}: {}", t, set(present), route, m))
    };
    match r {
        Ok(_) => c.check(sure == 0, || bad(format!("succeeds although {{{}}} has no value", set(sure)))),
        Err(e) => {
            let DErr { path, out, what: w } = &e;
            let ok = match w {
                What::Undefined(v) => !out && present & 1 << v.0 == 0 && d.follow(path) == Some(*v),
                _ => false,
            };
            c.check(missing != 0 && ok, || bad(format!("fails with {} (missing and needed: {{{}}})", e, set(missing))));
        },
    }
}
fn one(c: &mut Ctl, n: &dyn N0, slots: bool, targets: u32, what: &dyn Fn() -> (String, String)) {
    let d = parse(&n.debug());
    let vars = if slots { 0b1111 } else { d.idents() | targets };
    let mut present = 0u32;
    // every subset of the identifiers that occur
    loop {
        for p in POINTS {
            for form in [0u8, 1] {
                let env = || Env::new(std::array::from_fn(|i| (present & 1 << i != 0).then_some(p[i]))).with_form([form; 4]);
                c.step(6);
                fate(c, &d, present, false, "evaluate", n.ev(&mut env()), what);
                fate(c, &d, present, false, "evaluate by value", n.ev_val(env()), what);
                fate(c, &d, present, false, "evaluate_spec", n.sp(&mut env()), what);
                fate(c, &d, present, false, "evaluate_spec by value", n.sp_val(env()), what);
                if form == 0 {
                    fate(c, &d, present, true, "evaluate_shape", n.sh(&mut env()), what);
                    fate(c, &d, present, true, "evaluate_shape by value", n.sh_val(env()), what);
                }
            }
        }
        // next subset of `vars`
        present = (present | !vars).wrapping_add(1) & vars;
        if present == 0 {
            break;
        }
    }
}

// ------------------------------------------------------------------ typed identifiers and buffers
#[derive(Clone)]
struct Opt<B>([Option<B>; 4]);
impl<B> AsMut<Opt<B>> for Opt<B> {
    fn as_mut(&mut self) -> &mut Opt<B> { self }
}
impl<B> Context for Opt<B> {}
trait Bit {
    const BIT: u8;
}
macro_rules! reads {
    ($($I:ident $i:expr),*) => { $(
        impl Bit for $I { const BIT: u8 = $i; }
        impl<B: Buffer> Read<$I> for Opt<B> {
            type Buffer = B;
            fn read(&self, _: $I) -> Option<B> { self.0[$i].clone() }
            fn read_spec(&self, _: $I) -> Option<Spec<B>> { self.0[$i].clone().map(Spec::Raw) }
            fn read_shape(&self, _: $I) -> Option<ShapeOf<B>> { self.0[$i].as_ref().map(|b| b.shape()) }
        }
        impl<B: Buffer> Write<$I> for Opt<B> {
            fn write(&mut self, _: $I, b: B) { self.0[$i] = Some(b) }
        }
    )* }
}
reads!(X 0, Y 1, Z 2, W 3);
trait Path {
    fn d(self) -> DErr;
}
impl<I: Bit> Path for SourceError<I> {
    fn d(self) -> DErr { DErr { path: vec![], out: false, what: What::Undefined(V(I::BIT)) } }
}
impl Path for SourceError<()> {
    fn d(self) -> DErr { DErr { path: vec![], out: false, what: What::ConstantUndefined } }
}
impl Path for NoError {
    fn d(self) -> DErr { match self {} }
}
impl<L: Shape, R: Shape> Path for IncompatibleShapes<L, R> {
    fn d(self) -> DErr { DErr { path: vec![], out: true, what: What::Shapes } }
}
impl<L: Path, R: Path, O: Path> Path for BinaryError<L, R, O> {
    fn d(self) -> DErr {
        let pre = |b, mut e: DErr| {
            e.path.insert(0, b);
            e
        };
        match self {
            BinaryError::Left(e) => pre(b'L', e.d()),
            BinaryError::Right(e) => pre(b'R', e.d()),
            BinaryError::Output(e) => e.d(),
        }
    }
}
/// The same structure with the predefined identifiers renamed to the ones of the scalar family.
fn lower(mut d: Dn) -> Dn {
    if let Some(i) = ["X", "Y", "Z", "W"].iter().position(|n| *n == d.name) {
        d.name = mc_era::NAMES[i].into();
    }
    d.kids = d.kids.into_iter().map(lower).collect();
    d
}
type Outcomes = (String, Vec<(u32, &'static str, bool, Res<()>, String)>);
fn run<B, N>(n: &N, v: &[B; 4]) -> Outcomes
where
    B: Buffer,
    N: Function<Opt<B>> + std::fmt::Debug,
    N::Error: Path,
{
    let mut out = vec![];
    for m in 0..16u32 {
        let mut c = Opt(std::array::from_fn(|i| (m & 1 << i != 0).then(|| v[i].clone())));
        let mut add = |route, shape, r: Result<(), N::Error>| {
            let text = r.as_ref().err().map_or(String::new(), |e| e.to_string());
            out.push((m, route, shape, r.map_err(|e| e.d()), text));
        };
        add("evaluate", false, n.evaluate(c.clone()).map(|_| ()));
        add("evaluate_spec", false, n.evaluate_spec(c.clone()).map(|_| ()));
        add("evaluate_shape", true, n.evaluate_shape(&mut c).map(|_| ()));
    }
    (format!("{:?}", n), out)
}
type Case = (&'static str, &'static str, fn() -> Outcomes);
macro_rules! typed {
    ($v:expr; $k:literal; $($e:expr;)*) => {{ let v: Vec<Case> = vec![$((stringify!($e), $k, || { let e = $e; let v = $v; run(&e, &v) })),*]; v }};
}
fn x_() -> aegir::meta::Variable<X> { X.into_var() }
fn y_() -> aegir::meta::Variable<Y> { Y.into_var() }
fn z_() -> aegir::meta::Variable<Z> { Z.into_var() }
fn typed_list() -> Vec<Case> {
    let mut v = typed! { [0.5f64, 2.0, -1.0, 0.0]; "f64";
        x_(); z_(); 2.0f64.into_constant();
        x_().add(y_()); y_().sub(z_()); z_().mul(x_()); x_().div(z_()); y_().pow(x_()); x_().dot(y_()); TensorProduct::new(z_(), z_());
        0.0f64.into_constant().mul(y_()); x_().pow(0.0f64.into_constant());
        x_().cached(W); x_().add(y_()).cached(W).mul(z_()); z_().div(x_().sub(y_())).squared();
        x_().adjoint(X); x_().adjoint(Y); y_().adjoint(X); 2.0f64.into_constant().adjoint(Z);
        x_().mul(y_()).adjoint(X); x_().mul(y_()).adjoint(Z); x_().squared().adjoint(Y); x_().div(y_()).adjoint(Y); x_().ln().adjoint(X);
        x_().sum(); z_().ln().neg(); ops::trig::Sin(x_().mul(z_()));
        x_().mul(y_()).adjoint(X).adjoint(Y);
    };
    v.extend(typed! { [[0.5f64, 2.0], [1.0, 3.0], [0.0, 0.0], [1.0, 1.0]]; "[f64; 2]";
        x_(); y_().sum(); x_().add(y_()); y_().sub(z_()); z_().mul(x_()); x_().div(z_()); x_().dot(y_()); TensorProduct::new(z_(), y_());
        [1.0f64, 2.0].into_constant().dot(x_()); x_().add(y_()).cached(W).mul(z_());
        x_().adjoint(X); x_().adjoint(Y); [2.0f64, 1.0].into_constant().adjoint(Z); x_().add(y_()).adjoint(X); x_().add(y_()).adjoint(Z); x_().dot(y_()).adjoint(X); ops::Double(x_()).adjoint(Y);
    });
    v.extend(typed! { [(0.5f64, 2.0), (1.0, 3.0), (0.0, 0.0), (1.0, 1.0)]; "(f64, f64)";
        x_(); y_().sum(); x_().add(y_()); y_().sub(z_()); z_().mul(x_()); x_().div(z_()); x_().mul(y_()).cached(W);
    });
    v.extend(typed! { [vec![0.5f64, 2.0], vec![1.0, 3.0], vec![0.0, 0.0], vec![1.0, 1.0]]; "Vec<f64>";
        x_(); y_().sum(); x_().add(y_()); y_().sub(z_()); z_().mul(x_()); x_().div(z_()); x_().cached(W); x_().sub(y_()).add(z_());
    });
    v
}

fn main() {
    let mut ck = Check::new("C09");
    let th = ck.thorough();
    ck.assume("What an expression needs is read off its structure (its Debug output): every identifier that occurs, except below a cached node whose slot is filled.  evaluate_shape may succeed without variables below a power or a sum, whose shape does not depend on them.");
    let a = Alphabet::full(0, if th { vec![x(), y(), k(2.0), k(0.0)] } else { vec![x(), y(), k(0.0)] });
    ck.suite("expressions", format!("{}; every subset of the variables present, 2 points, 2 representations, 6 routes", a.bound(2)), move |c| {
        let t = a.gen(c, 2);
        c.state(&t);
        c.desc(|| format!("{:?}", t));
        let n = t.mk0().unwrap();
        one(c, &*n.0, false, 0, &|| (t.shape(), format!("{:?}", t)));
    });
    let a = Alphabet::full(0, vec![x(), y(), Tr::Var(2), k(1.0)]);
    ck.suite("cached", format!("{}; every placement of cached nodes around the root and its operands, every subset of variables and filled slots", a.bound(1)), move |c| {
        let t = a.gen(c, 1);
        if t.vars() & 4 != 0 {
            // z is a variable here: only w is a slot
            let v = c.choose(2);
            let t = if v == 0 { t } else { Tr::Cached(3, Box::new(t)) };
            c.state(&t);
            c.desc(|| format!("{:?}", t));
            let n = t.mk0().unwrap();
            return one(c, &*n.0, true, 0, &|| (t.shape(), format!("{:?}", t)));
        }
        let v = c.choose(cache_variants(&t));
        let t = with_cache(t, v);
        c.state(&t);
        c.desc(|| format!("{:?}", t));
        let n = t.mk0().unwrap();
        one(c, &*n.0, true, 0, &|| (t.shape(), format!("{:?}", t)));
    });
    let a = Alphabet::full(1, vec![x(), y(), k(2.0)]);
    ck.suite("derivatives", format!("{}, targets x, y, z", a.bound(2)), move |c| {
        let t = a.gen(c, 2);
        c.desc(|| format!("{:?}", t));
        let n = t.mk1().unwrap();
        let v = c.choose(3) as u8;
        c.state((&t, v));
        let d = n.0.a1(V(v));
        one(c, &*d.0, false, 1 << v, &|| (format!("the derivative of {}", t.shape()), format!("d/d{} of {:?}", V(v), t)));
    });
    let a = Alphabet::full(2, vec![x(), y(), k(2.0)]);
    ck.suite("second", format!("{}, pairs of targets", a.bound(1)), move |c| {
        let t = a.gen(c, 1);
        c.desc(|| format!("{:?}", t));
        let n = t.mk2().unwrap();
        for (u, v) in [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 1)] {
            c.state((&t, u, v));
            let d = n.0.a2(V(u)).0.a1(V(v));
            one(c, &*d.0, false, 0, &|| (format!("the second derivative of {}", t.shape()), format!("d/d{} d/d{} of {:?}", V(v), V(u), t)));
        }
    });
    ck.suite("typed", "typed expressions over scalars, arrays, tuples and vectors with the predefined identifiers; every subset of 4 identifiers present", |c| {
        let l = typed_list();
        let (n, k, f) = c.pick(&l);
        c.desc(|| format!("{} over {}", n, k));
        let (dbg, outs) = f();
        let d = lower(parse(&dbg));
        for (m, route, shape, r, text) in outs {
            c.step(1);
            c.state((n, k, m));
            // the message names the variable at the end of the path, and no other
            if let Err(DErr { what: What::Undefined(v), .. }) = &r {
                let named: Vec<String> = text.split(|c: char| !c.is_alphanumeric()).map(|w| w.to_lowercase()).filter(|w| mc_era::NAMES.contains(&w.as_str())).collect();
                c.check(named == [v.to_string()], || (format!("the message for {} over {}", n, k), format!("{} over {} with {{{}}} present by {}: {} is missing, the message reads {:?}", n, k, set(m), route, v, text)));
            }
            fate(c, &d, m, shape, route, r, &|| (format!("{} over {}", n, k), format!("{} over {}", n, k)));
        }
    });
    ck.run()
}
