//! C12: cached nodes compute once, return the stored value, and store nothing on error.
use aegir::{
    buffers::Buffer,
    ids::{W, X, Y, Z},
    Context, Differentiable, Function, Identifier, Node, Read, Write,
};
use mc_core::{engine::*, tens::Kind};
use mc_era::{ast::*, DErr, Env, Res, N0, V};
use std::cell::Cell;
use std::rc::Rc;

// ------------------------------------------------------------------ the model
/// Evaluate a tree on the model of a context: cached nodes compute once and store.  The value of
/// an expression without cached nodes, and of an operator on given operand values, is the
/// implementation's own (C04 judges it).
fn model(t: &Tr, s: &mut [Option<f64>; 4], form: [u8; 4], reads: &mut u32) -> Res<f64> {
    if t.all(&mut |k| !matches!(k, Tr::Cached(..))) {
        let mut e = Env::new(*s).with_form(form);
        let r = t.mk0().unwrap().0.ev(&mut e);
        *reads += e.nreads.get();
        return r;
    }
    let pre = |b: u8, mut e: DErr| {
        e.path.insert(0, b);
        e
    };
    match t {
        Tr::Var(_) | Tr::Const(_) | Tr::Adj(_) => unreachable!(),
        Tr::Un(o, k) => {
            let a = model(k, s, form, reads)?;
            Tr::Un(o, Box::new(Tr::Const(a))).mk0().unwrap().0.ev(&mut Env::new([None; 4]))
        },
        Tr::Bi(o, k) => {
            let a = model(&k.0, s, form, reads).map_err(|e| pre(b'L', e))?;
            let b = model(&k.1, s, form, reads).map_err(|e| pre(b'R', e))?;
            Tr::Bi(o, Box::new((Tr::Const(a), Tr::Const(b)))).mk0().unwrap().0.ev(&mut Env::new([None; 4]))
        },
        Tr::Cached(v, k) => {
            *reads += 1;
            if let Some(c) = s[*v as usize] {
                return Ok(c);
            }
            let a = model(k, s, form, reads)?;
            s[*v as usize] = Some(a);
            Ok(a)
        },
    }
}
fn same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
fn same_res(a: &Res<f64>, b: &Res<f64>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => same(*a, *b),
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
fn same_env(a: &[Option<f64>; 4], b: &[Option<f64>; 4]) -> bool {
    a.iter().zip(b).all(|p| match p {
        (None, None) => true,
        (Some(a), Some(b)) => same(*a, *b),
        _ => false,
    })
}
const ROUTES: [&str; 3] = ["evaluate", "evaluate_spec", "evaluate_shape"];
/// One evaluation of `n` (which stands for `t`) on the implementation, judged by the model.
fn eval(c: &mut Ctl, n: &dyn N0, t: &Tr, e: &mut Env, route: usize, what: &dyn Fn() -> String) {
    let before = e.vals;
    let mut s = before;
    let mut reads = 0;
    let want = model(t, &mut s, e.form, &mut reads);
    let (n0, w0) = (e.nreads.get(), e.nwrites.get());
    let got = match route {
        0 => n.ev(e),
        1 => n.sp(e).map(|v| v.unwrap()),
        _ => n.sh(e).map(|_| f64::NAN),
    };
    let (nr, nw) = (e.nreads.get() - n0, e.nwrites.get() - w0);
    c.step(1);
    let sig = |m: &str| format!("{} by {}: {}", t.shape(), ROUTES[route], m);
    let at = |m: String| format!("{} after {} on {:?}: {}", ROUTES[route], what(), before, m);
    if route == 2 {
        // the shape may be found without computing (or storing) the value
        let ok = got.is_ok() || want.is_err();
        c.check(ok, || (sig("shape"), at(format!("{:?} although the value is {:?}", got, want))));
        let legal = (0..4).all(|i| match (before[i], e.vals[i]) {
            (a, b) if a.map(f64::to_bits) == b.map(f64::to_bits) => true,
            (None, Some(b)) => s[i].map_or(false, |m| same(m, b)),
            _ => false,
        });
        c.check(legal, || (sig("slots"), at(format!("the context becomes {:?}, expected at most {:?}", e.vals, s))));
        return;
    }
    c.check(same_res(&got, &want), || (sig("value"), at(format!("{:?}, expected {:?}", got, want))));
    c.check(same_env(&e.vals, &s), || (sig("slots"), at(format!("the context becomes {:?}, expected {:?}", e.vals, s))));
    let filled = (0..4).filter(|i| before[*i].is_none() && s[*i].is_some()).count() as u32;
    c.check(nw == filled, || (sig("writes"), at(format!("{} writes for {} slots", nw, filled))));
    c.check(nr == reads, || (sig("reads"), at(format!("{} reads of the context, {} expected if every inner expression is evaluated at most once", nr, reads))));
}

fn on(s: u8, t: Tr) -> Tr { Tr::Cached(s, Box::new(t)) }
fn pool() -> Vec<Tr> {
    let xy = || b("Mul", x(), y());
    vec![
        on(2, x()),
        on(2, xy()),
        on(3, b("Sub", on(2, xy()), x())),
        b("Add", on(2, x()), on(3, y())),
        b("Mul", on(2, xy()), on(2, xy())),
        u("Square", on(3, u("Ln", x()))),
        on(3, b("Div", y(), on(2, b("Add", x(), k(1.0))))),
        b("Sub", y(), on(2, on(3, u("Exp", y())))),
        on(2, k(0.0)),
        xy(),
    ]
}

// ------------------------------------------------------------------ typed buffers
/// A node that counts how often it is evaluated and fails on demand.
#[derive(Clone)]
struct Probe<B> {
    value: B,
    calls: Rc<Cell<u32>>,
    fails: bool,
}
#[derive(Debug)]
struct Refused;
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("refused") }
}
impl std::error::Error for Refused {}
impl<B> Node for Probe<B> {}
impl<B: Buffer> Function<Slots<B>> for Probe<B> {
    type Value = B;
    type Error = Refused;
    fn evaluate<CR: AsMut<Slots<B>>>(&self, _: CR) -> Result<B, Refused> {
        self.calls.set(self.calls.get() + 1);
        if self.fails { Err(Refused) } else { Ok(self.value.clone()) }
    }
}
#[derive(Clone)]
struct Slots<B> {
    z: Option<B>,
    w: Option<B>,
    writes: u32,
}
impl<B> AsMut<Slots<B>> for Slots<B> {
    fn as_mut(&mut self) -> &mut Self { self }
}
impl<B> Context for Slots<B> {}
impl<B: Buffer> Read<Z> for Slots<B> {
    type Buffer = B;
    fn read(&self, _: Z) -> Option<B> { self.z.clone() }
}
impl<B: Buffer> Read<W> for Slots<B> {
    type Buffer = B;
    fn read(&self, _: W) -> Option<B> { self.w.clone() }
}
impl<B: Buffer> Write<Z> for Slots<B> {
    fn write(&mut self, _: Z, b: B) {
        self.writes += 1;
        self.z = Some(b)
    }
}
impl<B: Buffer> Write<W> for Slots<B> {
    fn write(&mut self, _: W, b: B) {
        self.writes += 1;
        self.w = Some(b)
    }
}
/// Every history of `len` actions on two cached nodes over one context.
fn typed<B: Kind<Field = f64> + PartialEq>(c: &mut Ctl, v1: B, v2: B, len: usize) {
    let name = B::name();
    let p = |v: &B, fails| Probe { value: v.clone(), calls: Rc::new(Cell::new(0)), fails };
    let (a, b, f) = (p(&v1, false), p(&v2, false), p(&v1, true));
    let (na, nb, nf) = (a.clone().cached(Z), b.clone().cached(W), f.clone().cached(Z));
    let mut ctx = Slots { z: None, w: None, writes: 0 };
    let (mut mz, mut mw): (Option<B>, Option<B>) = (None, None);
    let mut h = vec![];
    for _ in 0..len {
        let act = c.choose(8);
        h.push(["a", "a lifted", "b", "b lifted", "failing", "clear z", "clear w", "preset z"][act]);
        let (calls, w0) = (a.calls.get() + b.calls.get() + f.calls.get(), ctx.writes);
        c.step(1);
        let (mut got, mut want, mut ncalls) = (Ok(None), Ok(None), 0);
        match act {
            0 | 1 => {
                got = if act == 0 { na.evaluate(&mut ctx).map(Some) } else { na.evaluate_spec(&mut ctx).map(|s| Some(s.unwrap())) };
                ncalls = mz.is_none() as u32;
                mz.get_or_insert(v1.clone());
                want = Ok(mz.clone());
            },
            2 | 3 => {
                got = if act == 2 { nb.evaluate(&mut ctx).map(Some) } else { nb.evaluate_spec(&mut ctx).map(|s| Some(s.unwrap())) };
                ncalls = mw.is_none() as u32;
                mw.get_or_insert(v2.clone());
                want = Ok(mw.clone());
            },
            4 => {
                got = nf.evaluate(&mut ctx).map(Some);
                ncalls = mz.is_none() as u32;
                want = match &mz {
                    Some(z) => Ok(Some(z.clone())),
                    None => Err(Refused),
                };
            },
            5 => {
                ctx.z = None;
                mz = None
            },
            6 => {
                ctx.w = None;
                mw = None
            },
            _ => {
                ctx.z = Some(v2.clone());
                mz = Some(v2.clone())
            },
        }
        let calls = a.calls.get() + b.calls.get() + f.calls.get() - calls;
        let writes = ctx.writes - w0;
        let ok = match (&got, &want) {
            (Ok(g), Ok(w)) => g.as_ref().map(|b| b.t()) == w.as_ref().map(|b| b.t()),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        let act = *h.last().unwrap();
        let kept = ctx.z.as_ref().map(|b| b.t()) == mz.as_ref().map(|b| b.t()) && ctx.w.as_ref().map(|b| b.t()) == mw.as_ref().map(|b| b.t());
        c.check(ok, || (format!("typed {} value: {}", name, act), format!("{}: {}: got {:?}, expected {:?}", name, h.join("; "), got.as_ref().map(|g| g.as_ref().map(|b| b.t())), want.as_ref().map(|g| g.as_ref().map(|b| b.t())))));
        c.check(kept, || (format!("typed {} slots: {}", name, act), format!("{}: {}: z is {:?}, expected {:?}; w is {:?}, expected {:?}", name, h.join("; "), ctx.z.as_ref().map(|b| b.t()), mz.as_ref().map(|b| b.t()), ctx.w.as_ref().map(|b| b.t()), mw.as_ref().map(|b| b.t()))));
        c.check(calls == ncalls, || (format!("typed {} calls: {}", name, act), format!("{}: {}: the inner expressions ran {} times, expected {}", name, h.join("; "), calls, ncalls)));
        c.check(writes == ncalls * got.is_ok() as u32, || (format!("typed {} writes: {}", name, act), format!("{}: {}: {} writes", name, h.join("; "), writes)));
        c.state((&name, &h));
    }
    c.desc(|| format!("{}: {}", name, h.join("; ")));
}

// ------------------------------------------------------------------ typed derivatives
#[derive(Clone)]
struct Abc<B>([Option<B>; 4]);
impl<B> AsMut<Abc<B>> for Abc<B> {
    fn as_mut(&mut self) -> &mut Self { self }
}
impl<B> Context for Abc<B> {}
macro_rules! reads {
    ($($I:ident $i:expr),*) => { $(
        impl<B: Buffer> Read<$I> for Abc<B> {
            type Buffer = B;
            fn read(&self, _: $I) -> Option<B> { self.0[$i].clone() }
        }
        impl<B: Buffer> Write<$I> for Abc<B> {
            fn write(&mut self, _: $I, b: B) { self.0[$i] = Some(b) }
        }
    )* }
}
reads!(X 0, Y 1, Z 2, W 3);
/// Whether a node can be differentiated is decided at compile time; if it cannot, that is what
/// is reported (method resolution prefers the first impl where it applies).
struct Try<N, T>(N, T);
trait Can<B> {
    fn go(&self, c: &mut Abc<B>) -> Option<String>;
}
impl<B: Buffer, N: Differentiable<T>, T: Identifier> Can<B> for Try<N, T>
where
    N::Adjoint: Function<Abc<B>>,
    <N::Adjoint as Function<Abc<B>>>::Value: std::fmt::Debug,
{
    fn go(&self, c: &mut Abc<B>) -> Option<String> { Some(format!("{:?}", self.0.adjoint(self.1).evaluate(c).map_err(|e| e.to_string()))) }
}
trait Cannot<B> {
    fn go(&self, c: &mut Abc<B>) -> Option<String>;
}
impl<B, N, T> Cannot<B> for &Try<N, T> {
    fn go(&self, _: &mut Abc<B>) -> Option<String> { None }
}
type DCase = (&'static str, &'static str, fn() -> (Option<String>, Option<String>));
macro_rules! deriv {
    ($v:expr; $k:literal; $($e:expr, $t:expr;)*) => {{ let v: Vec<DCase> = vec![$((stringify!($e by $t), $k, || {
        let [p, q, r, s] = $v;
        let c = Abc([Some(p), Some(q), Some(r), Some(s)]);
        let mut e = c.clone();
        e.0[3] = None;
        let inner = (&Try($e, $t)).go(&mut c.clone());
        let cached = (&Try($e.cached(W), $t)).go(&mut e.clone());
        (inner, cached)
    })),*]; v }};
}
fn x_() -> aegir::meta::Variable<X> { X.into_var() }
fn y_() -> aegir::meta::Variable<Y> { Y.into_var() }
fn derivs() -> Vec<DCase> {
    let mut v = deriv! { [0.5f64, 2.0, -1.0, 3.0]; "f64";
        x_(), X; x_(), Y; x_().mul(y_()), X; x_().mul(y_()), Y; x_().mul(y_()), Z; x_().div(y_()).squared(), Y; y_().ln(), Y; x_().pow(y_()), X; 2.0f64.into_constant(), X;
    };
    v.extend(deriv! { [[0.5f64, 2.0], [1.0, 3.0], [0.0, 0.0], [1.0, 1.0]]; "[f64; 2]"; x_(), X; x_().add(y_()), Y; x_().dot(y_()), X; x_().dot(y_()), Y; });
    v
}

fn main() {
    let mut ck = Check::new("C12");
    let th = ck.thorough();
    ck.assume("evaluate_shape is free to find the shape without computing the value: it may or may not fill slots, but only with the value itself.");
    let leaves = || vec![x(), y(), k(0.5)];
    let a = Alphabet::full(0, leaves());
    ck.suite("placements", format!("{}; every placement of cached nodes, every subset of variables and slots, each route twice and followed by each other one", a.bound(1)), move |c| {
        let t = a.gen(c, 1);
        let v = 1 + c.choose(cache_variants(&t) - 1);
        let t = with_cache(t, v);
        c.state(&t);
        let n = t.mk0().unwrap();
        let present = c.choose(16);
        let mut e = Env::new(std::array::from_fn(|i| (present & 1 << i != 0).then_some([0.7, 1.5, 4.0, 9.0][i])));
        let (r1, r2) = (c.choose(3), c.choose(3));
        c.desc(|| format!("{:?} with {:04b} present by {} then {}", t, present, ROUTES[r1], ROUTES[r2]));
        c.state((&t, present, r1, r2));
        eval(c, &*n.0, &t, &mut e, r1, &|| format!("nothing, {:?}", t));
        eval(c, &*n.0, &t, &mut e, r2, &|| format!("{} of {:?}", ROUTES[r1], t));
    });
    let a = Alphabet::full(0, vec![x(), y()]);
    ck.suite("inner", format!("a cached node around {}; slot empty or filled, x or y missing", a.bound(2)), move |c| {
        let t = on(2, a.gen(c, 2));
        c.state(&t);
        let n = t.mk0().unwrap();
        c.desc(|| format!("{:?}", t));
        for present in [0b0011, 0b0111, 0b0010, 0b0101] {
            for form in 0..2u8 {
                let mut e = Env::new(std::array::from_fn(|i| (present & 1 << i != 0).then_some([0.7, 1.5, 4.0, 9.0][i]))).with_form([form; 4]);
                for r in [0, 1, 0] {
                    eval(c, &*n.0, &t, &mut e, r, &|| format!("{:?}", t));
                }
                let mut e = Env::new(std::array::from_fn(|i| (present & 1 << i != 0).then_some([0.7, 1.5, 4.0, 9.0][i]))).with_form([form; 4]);
                eval(c, &*n.0, &t, &mut e, 1, &|| format!("{:?}", t));
            }
        }
    });
    let len = if th { 5 } else { 4 };
    ck.suite("histories", format!("every history of {} actions: evaluating one of 10 expressions by value or lifted, clearing a slot, setting or removing a variable, presetting a slot", len), move |c| {
        let p = pool();
        let mut e = Env::new([Some(0.7), Some(1.5), None, None]);
        let mut h: Vec<String> = vec![];
        let nodes: Vec<_> = p.iter().map(|t| t.mk0().unwrap()).collect();
        for _ in 0..len {
            let a = c.choose(2 * p.len() + 8);
            if a < 2 * p.len() {
                let (i, r) = (a / 2, a % 2);
                eval(c, &*nodes[i].0, &p[i], &mut e, r, &|| format!("{}; {:?}", h.join("; "), p[i]));
                h.push(format!("{} {:?}", ROUTES[r], p[i]));
            } else {
                let (s, v) = [(2, None), (3, None), (0, None), (0, Some(2.0)), (0, Some(-1.0)), (1, None), (1, Some(0.0)), (2, Some(5.0))][a - 2 * p.len()];
                e.vals[s] = v;
                h.push(format!("{} := {:?}", V(s as u8), v));
            }
            c.state(e.key());
        }
        c.desc(|| h.join("; "));
    });
    let a = Alphabet::full(1, vec![x(), y(), k(2.0)]);
    ck.suite("derivatives", format!("a cached node around {}: the derivative along every identifier equals the inner expression's", a.bound(2)), move |c| {
        let inner = a.gen(c, 2);
        c.state(&inner);
        c.desc(|| format!("{:?}", inner));
        let t = on(3, inner.clone());
        let (n, m) = (t.mk1().unwrap(), inner.mk1().unwrap());
        for v in 0..3u8 {
            let (dn, dm) = (n.0.a1(V(v)), m.0.a1(V(v)));
            for p in [(0.7, 1.5), (2.0, 0.5), (-1.0, 0.0)] {
                let base = Env::new([Some(p.0), Some(p.1), Some(9.0), None]);
                let want = dm.0.ev(&mut base.clone());
                let mut filled = base.clone();
                let _ = n.0.ev(&mut filled);
                for (w, e) in [("empty", &base), ("filled", &filled)] {
                    for (r, got) in [("adjoint", dn.0.ev(&mut e.clone())), ("adjoint, lifted", dn.0.sp(&mut e.clone()).map(|s| s.unwrap())), ("evaluate_adjoint", n.0.ev_adj(V(v), &mut e.clone())), ("evaluate_dual", n.0.ev_dual(V(v), &mut e.clone()).map(|d| d.1))] {
                        c.step(1);
                        c.check(same_res(&got, &want), || (format!("derivative of {} by {}", t.shape(), r), format!("{} of {:?} by {} at {:?} (slot {}): {:?}, the inner expression's is {:?}", r, t, V(v), p, w, got, want)));
                    }
                }
            }
        }
    });
    let len = if th { 6 } else { 5 };
    ck.suite("typed", format!("every history of {} actions on cached nodes over 10 buffer kinds, counting evaluations of the inner expression", len), move |c| match c.choose(10) {
        0 => typed::<f64>(c, 1.5, -2.0, len),
        1 => typed::<(f64, f64)>(c, (1.5, 2.5), (0.0, -1.0), len),
        2 => typed::<[f64; 0]>(c, [], [], len),
        3 => typed::<[f64; 3]>(c, [1.0, 2.0, 3.0], [0.0; 3], len),
        4 => typed::<[[f64; 2]; 3]>(c, [[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]], [[0.0; 2]; 3], len),
        5 => typed::<[[[f64; 2]; 1]; 2]>(c, [[[1.0, 2.0]], [[3.0, 4.0]]], [[[0.0; 2]; 1]; 2], len),
        6 => typed::<Vec<f64>>(c, vec![], vec![1.0], len),
        7 => typed::<Vec<f64>>(c, vec![1.0, 2.0], vec![3.0, 4.0], len),
        8 => typed::<[f64; 40]>(c, [1.0; 40], [2.0; 40], len),
        _ => typed::<Vec<f64>>(c, vec![1.0; 40], vec![3.0; 17], len),
    });
    ck.suite("typed derivatives", "derivatives of typed cached nodes along other identifiers than their slot's", |c| {
        let l = derivs();
        let (n, k, f) = c.pick(&l);
        c.desc(|| format!("{} over {}", n, k));
        c.state((n, k));
        c.step(2);
        let (inner, cached) = f();
        if inner.is_none() {
            panic!("HARNESS: {} is not differentiable", n);
        }
        c.check(inner == cached, || (if cached.is_none() { "a cached node cannot be differentiated by an identifier of another type than its slot's".to_string() } else { format!("typed derivative of {} over {}", n, k) }, format!("{} over {}: {:?} cached, {:?} without", n, k, cached, inner)));
    });
    ck.run()
}
