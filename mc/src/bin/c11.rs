//! C11: evaluation is pure and deterministic.
use aegir::{
    buffers::{shapes::*, Buffer, Spec},
    ids::{W, X, Y, Z},
    ops::{self, TensorProduct},
    Context, Differentiable, Function, Identifier, Node, Read, Write,
};
use mc_core::engine::*;
use mc_era::{ast::*, Env, N0, N1, Res, V};
use std::{rc::Rc, sync::OnceLock};

const POINTS: [[f64; 4]; 3] = [[0.7, 1.3, 2.0, -1.0], [0.0, -2.0, 1.0, 0.0], [-1.0, 0.5, 0.25, 3.0]];

/// The sign of a NaN is not specified (it depends on the order operands are compiled to).
fn bits(v: f64) -> u64 { if v.is_nan() { f64::NAN.to_bits() } else { v.to_bits() } }
/// A result down to the last bit.
#[derive(Clone, PartialEq, Debug)]
enum R {
    Val(u64),
    Pair(u64, u64),
    Spec(u8, u64),
    Shape,
    Err(mc_era::DErr),
}
fn val(r: Res<f64>) -> R { r.map(|v| R::Val(bits(v))).unwrap_or_else(R::Err) }
fn pair(r: Res<(f64, f64)>) -> R { r.map(|v| R::Pair(bits(v.0), bits(v.1))).unwrap_or_else(R::Err) }
fn spec(r: Res<Spec<f64>>) -> R {
    r.map(|s| match s {
        Spec::Raw(v) => R::Spec(0, bits(v)),
        Spec::Full(_, v) => R::Spec(1, bits(v)),
        Spec::Diagonal(_, v) => R::Spec(2, bits(v)),
        o => R::Spec(3, bits(o.unwrap())),
    })
    .unwrap_or_else(R::Err)
}
fn shape(r: Res<S0>) -> R { r.map(|_| R::Shape).unwrap_or_else(R::Err) }
/// value up to the representation (what a filled slot may change)
fn plain(r: &R) -> R {
    match r {
        R::Spec(_, v) => R::Val(*v),
        o => o.clone(),
    }
}
const ROUTES: [&str; 3] = ["evaluate", "evaluate_spec", "evaluate_shape"];
fn go(n: &dyn N0, route: usize, e: &mut Env) -> R {
    match route {
        0 => val(n.ev(e)),
        1 => spec(n.sp(e)),
        _ => shape(n.sh(e)),
    }
}
fn go_val(n: &dyn N0, route: usize, e: Env) -> R {
    match route {
        0 => val(n.ev_val(e)),
        1 => spec(n.sp_val(e)),
        _ => shape(n.sh_val(e)),
    }
}
const DROUTES: [&str; 2] = ["evaluate_adjoint", "evaluate_dual"];
fn go_d(n: &dyn N1, route: usize, t: V, e: &mut Env) -> R {
    match route {
        0 => val(n.ev_adj(t, e)),
        _ => pair(n.ev_dual(t, e)),
    }
}
fn go_d_val(n: &dyn N1, route: usize, t: V, e: Env) -> R {
    match route {
        0 => val(n.ev_adj_val(t, e)),
        _ => pair(n.ev_dual_val(t, e)),
    }
}
type Key = ([Option<u64>; 4], [u8; 4]);
/// Which slots a run may have filled: only empty slots of cached nodes.
fn legal(before: &Key, after: &Key, slots: u32) -> bool { before.1 == after.1 && (0..4).all(|i| before.0[i] == after.0[i] || (slots & 1 << i != 0 && before.0[i].is_none())) }
fn slots(t: &Tr) -> u32 {
    match t {
        Tr::Cached(v, k) => 1 << v | slots(k),
        Tr::Un(_, k) => slots(k),
        Tr::Bi(_, k) => slots(&k.0) | slots(&k.1),
        _ => 0,
    }
}
/// Run everything twice on one context and once on an equal one.
fn pure(c: &mut Ctl, env: &dyn Fn() -> Env, slots: u32, run: &mut dyn FnMut(&mut Env) -> R, by_value: &mut dyn FnMut(Env) -> R, what: &dyn Fn() -> (String, String)) {
    let mut e = env();
    let before = e.key();
    let r1 = run(&mut e);
    let mid = e.key();
    let r2 = run(&mut e);
    let after = e.key();
    let mut f = env();
    let r3 = run(&mut f);
    let r4 = by_value(env());
    c.step(4);
    let bad = |m: String| {
        let (s, d) = what();
        (s, format!("{}: {}", d, m))
    };
    c.check(legal(&before, &mid, slots), || bad(format!("changed the context from {:?} to {:?}", before, mid)));
    c.check(mid == after, || bad(format!("a second evaluation changed the context from {:?} to {:?}", mid, after)));
    c.check(slots != 0 || e.nwrites.get() == 0, || bad("writes to the context".into()));
    c.check(if slots == 0 { r1 == r2 } else { plain(&r1) == plain(&r2) }, || bad(format!("first {:?}, then {:?}", r1, r2)));
    c.check(r1 == r3 && f.key() == mid, || bad(format!("{:?} on one context and {:?} on an equal one", r1, r3)));
    c.check(r1 == r4, || bad(format!("{:?} through a mutable reference and {:?} by value", r1, r4)));
}
fn all_routes(c: &mut Ctl, n: &dyn N0, sl: u32, idents: u32, what: &dyn Fn() -> (String, String)) {
    for p in POINTS {
        for form in [0u8, 1, 2] {
            for missing in [0u32, 1, 2] {
                // nothing, x or y missing
                if missing & !idents != 0 || (missing != 0 && form != 0) {
                    continue;
                }
                for fill in 0..4u32 {
                    if (fill << 2) & !sl != 0 {
                        continue;
                    }
                    let env = || Env::new(std::array::from_fn(|i| (if i < 2 { missing & 1 << i == 0 } else { sl & 1 << i == 0 || fill << 2 & 1 << i != 0 }).then_some(p[i]))).with_form([form; 4]);
                    for r in 0..3 {
                        pure(c, &env, sl, &mut |e| go(n, r, e), &mut |e| go_val(n, r, e), &|| {
                            let (s, d) = what();
                            (format!("{} of {}", ROUTES[r], s), format!("{} of {} at {:?} (representation {}, missing {:02b}, slots {:02b})", ROUTES[r], d, p, form, missing, fill))
                        });
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ typed
#[derive(Clone, PartialEq, Debug)]
struct Opt<B>([Option<B>; 4]);
impl<B> AsMut<Opt<B>> for Opt<B> {
    fn as_mut(&mut self) -> &mut Opt<B> { self }
}
impl<B> Context for Opt<B> {}
macro_rules! reads {
    ($($I:ident $i:expr),*) => { $(
        impl<B: Buffer> Read<$I> for Opt<B> {
            type Buffer = B;
            fn read(&self, _: $I) -> Option<B> { self.0[$i].clone() }
        }
        impl<B: Buffer> Write<$I> for Opt<B> {
            fn write(&mut self, _: $I, b: B) { self.0[$i] = Some(b) }
        }
    )* }
}
reads!(X 0, Y 1, Z 2, W 3);
/// (what went wrong)
fn run<B, N>(n: &N, v: &[B; 4], slot: bool) -> Vec<String>
where
    B: Buffer + PartialEq + std::fmt::Debug,
    N: Function<Opt<B>>,
    N::Value: std::fmt::Debug,
    <N::Value as Buffer>::Field: std::fmt::Debug,
    ShapeOf<N::Value>: std::fmt::Debug,
{
    let mut bad = vec![];
    for missing in 0..4u32 {
        let start = Opt(std::array::from_fn(|i| (missing & 1 << i == 0 && (i < 3 || !slot)).then(|| v[i].clone())));
        let ev = |c: &mut Opt<B>| format!("{:?}", n.evaluate(c).map_err(|e| e.to_string()));
        let sp = |c: &mut Opt<B>| format!("{:?}", n.evaluate_spec(c).map_err(|e| e.to_string()));
        let sh = |c: &mut Opt<B>| format!("{:?}", n.evaluate_shape(c).map_err(|e| e.to_string()));
        let vals = [format!("{:?}", n.evaluate(start.clone()).map_err(|e| e.to_string())), format!("{:?}", n.evaluate_spec(start.clone()).map_err(|e| e.to_string())), format!("{:?}", n.evaluate_shape(start.clone()).map_err(|e| e.to_string()))];
        let routes: [&dyn Fn(&mut Opt<B>) -> String; 3] = [&ev, &sp, &sh];
        // every ordered pair of routes on one context
        for a in 0..3 {
            for b in 0..3 {
                let mut c = start.clone();
                let ra = routes[a](&mut c);
                let mut mid = c.clone();
                let rb = routes[b](&mut c);
                if ra != vals[a] {
                    bad.push(format!("{}: {} through a mutable reference, {} by value", ROUTES[a], ra, vals[a]));
                }
                if rb != vals[b] && !slot {
                    bad.push(format!("{} after {}: {}, otherwise {}", ROUTES[b], ROUTES[a], rb, vals[b]));
                }
                if mid.0[3].is_none() && slot {
                    mid.0[3] = c.0[3].clone(); // filled only now
                }
                if c != mid {
                    bad.push(format!("{} after {} changes the context", ROUTES[b], ROUTES[a]));
                }
                mid.0[3] = start.0[3].clone();
                if mid != start {
                    bad.push(format!("{} changes the context: {:?} becomes {:?}", ROUTES[a], start, mid));
                }
            }
        }
    }
    bad.dedup();
    bad
}
type Case = (&'static str, &'static str, fn() -> Vec<String>);
macro_rules! typed {
    ($v:expr; $k:literal; $s:literal; $($e:expr;)*) => {{ let v: Vec<Case> = vec![$((stringify!($e), $k, || { let e = $e; let v = $v; run(&e, &v, $s) })),*]; v }};
}
fn x_() -> aegir::meta::Variable<X> { X.into_var() }
fn y_() -> aegir::meta::Variable<Y> { Y.into_var() }
fn z_() -> aegir::meta::Variable<Z> { Z.into_var() }
fn typed_list() -> Vec<Case> {
    let mut v = typed! { [0.5f64, 2.0, -1.0, 0.25]; "f64"; false;
        x_(); z_(); 2.0f64.into_constant(); x_().add(y_()); y_().sub(z_()); z_().mul(x_()); x_().div(z_()); y_().pow(x_()); x_().dot(y_()); TensorProduct::new(z_(), z_());
        x_().adjoint(X); x_().adjoint(Y); 2.0f64.into_constant().adjoint(X); x_().mul(y_()).adjoint(X); x_().squared().adjoint(Y); x_().sum(); z_().ln().neg(); ops::trig::Sin(x_().mul(z_())); ops::special::Gamma(y_());
    };
    v.extend(typed! { [0.5f64, 2.0, -1.0, 0.25]; "f64"; true; x_().cached(W); x_().add(y_()).cached(W).mul(z_()); x_().mul(x_()).cached(W).squared(); });
    v.extend(typed! { [[0.5f64, 2.0], [1.0, 3.0], [0.0, 0.0], [1.0, 1.0]]; "[f64; 2]"; false;
        x_(); y_().sum(); x_().add(y_()); y_().sub(z_()); z_().mul(x_()); x_().div(y_()); x_().dot(y_()); TensorProduct::new(z_(), y_());
        x_().adjoint(X); x_().adjoint(Y); [2.0f64, 1.0].into_constant().adjoint(Z); x_().add(y_()).adjoint(X); x_().dot(y_()).adjoint(X); ops::Double(x_()).adjoint(Y);
    });
    v.extend(typed! { [[0.5f64, 2.0], [1.0, 3.0], [0.0, 0.0], [1.0, 1.0]]; "[f64; 2]"; true; x_().add(y_()).cached(W).mul(z_()); x_().mul(y_()).cached(W).sum(); });
    v.extend(typed! { [[[0.5f64, 2.0], [1.0, 3.0]], [[0.0, 0.0], [1.0, 1.0]], [[2.0, 3.0], [4.0, 5.0]], [[0.0, 0.0], [1.0, 1.0]]]; "[[f64; 2]; 2]"; false; x_(); x_().add(y_()); x_().dot(y_()).sub(z_()); x_().sum(); });
    v.extend(typed! { [(0.5f64, 2.0), (1.0, 3.0), (0.0, 0.0), (1.0, 1.0)]; "(f64, f64)"; false; x_(); y_().sum(); x_().add(y_()); y_().sub(z_()); z_().mul(x_()); x_().div(y_()); });
    v.extend(typed! { [(0.5f64, 2.0), (1.0, 3.0), (0.0, 0.0), (1.0, 1.0)]; "(f64, f64)"; true; x_().mul(y_()).cached(W); });
    v.extend(typed! { [vec![0.5f64, 2.0], vec![1.0, 3.0], vec![0.0, 0.0], vec![1.0, 1.0]]; "Vec<f64>"; false; x_(); y_().sum(); x_().add(y_()); y_().sub(z_()); z_().mul(x_()); x_().div(y_()); });
    v.extend(typed! { [vec![0.5f64, 2.0], vec![1.0, 3.0], vec![0.0, 0.0], vec![1.0, 1.0]]; "Vec<f64>"; true; x_().cached(W); x_().sub(y_()).cached(W).add(z_()); });
    v
}

// ------------------------------------------------------------------ histories
fn pool() -> Vec<Tr> {
    let on = |s: u8, t: Tr| Tr::Cached(s, Box::new(t));
    let xy = || b("Mul", x(), y());
    vec![
        x(), b("Sub", x(), y()), u("Ln", x()), b("Power", x(), k(2.0)), u("Sigmoid", xy()), b("Add", Tr::Var(2), k(1.0)), k(3.0), u("Sum", y()),
        on(3, xy()), b("Sub", on(3, xy()), x()), u("Square", on(3, xy())), b("Div", y(), u("Exp", on(3, xy()))),
    ]
}

// ------------------------------------------------------------------ hidden state
/// One evaluation, self-contained: its result must not depend on what ran before in the process.
struct Probe {
    group: String,
    name: String,
    go: Box<dyn Fn() -> String + Send + Sync>,
}
const ARGS: [f64; 14] = [0.5, 0.5000000000000001, 0.5000000001, 0.75, -0.5, -0.5000000001, 0.0, -0.0, 2.0, 2.0000000001, 2.5, 3.0, 3.5, 1e300];
const PAIRS: [(f64, f64); 12] = [(0.5000000001, 2.0), (0.5, 2.0000000001), (0.5, 2.0), (2.0, 0.5), (0.5, 2.0000000000000004), (0.0, 2.0), (2.0, 0.0), (2.0, 2.0), (-2.0, 3.0), (3.0, -2.0), (1.25, 1.25), (2.5, 0.0)];
const LENS: [&[f64]; 6] = [&[], &[3.0], &[0.5, 2.0], &[2.0, 0.5], &[1.0, 0.0, 4.0], &[0.25, 0.25, 0.25, 0.25]];
fn ds<T: std::fmt::Debug, E: std::fmt::Display>(r: Result<T, E>) -> String { format!("{:?}", r.map_err(|e| e.to_string())) }
macro_rules! arrays {
    ($out:ident, $kind:literal, $pts:expr; $($e:expr;)*) => { $(
        for (pi, p) in $pts.into_iter().enumerate() {
            let q = p.clone();
            $out.push(Probe { group: format!("{} over {}", stringify!($e), $kind), name: format!("evaluate_spec at #{}", pi), go: Box::new(move || ds($e.evaluate_spec(Opt(q.clone().map(Some))))) });
            $out.push(Probe { group: format!("{} over {}", stringify!($e), $kind), name: format!("evaluate at #{}", pi), go: Box::new(move || ds($e.evaluate(Opt(p.clone().map(Some))))) });
        }
    )* }
}
fn probes() -> Vec<Probe> {
    let mut v = vec![];
    for o in mc_era::ops::UN.iter() {
        for a in ARGS {
            for route in 0..2 {
                v.push(Probe { group: o.name.into(), name: format!("{} at {:?}", ROUTES[route], a), go: Box::new(move || format!("{:?}", go(&*u(o.name, x()).mk0().unwrap().0, route, &mut Env::xy(a, 1.0).with_form([route as u8; 4])))) });
            }
            if o.level > 0 {
                v.push(Probe { group: o.name.into(), name: format!("derivative at {:?}", a), go: Box::new(move || format!("{:?}", go_d(&*u(o.name, x()).mk1().unwrap().0, 1, V(0), &mut Env::xy(a, 1.0)))) });
                v.push(Probe { group: o.name.into(), name: format!("derivative node at {:?}", a), go: Box::new(move || format!("{:?}", go(&*u(o.name, x()).mk1().unwrap().0.a1(V(0)).0, 0, &mut Env::xy(a, 1.0)))) });
            }
        }
    }
    for o in mc_era::ops::BI.iter() {
        for (a, d) in PAIRS {
            for form in 0..3u8 {
                v.push(Probe { group: o.name.into(), name: format!("evaluate_spec at {:?}, {:?} (representation {})", a, d, form), go: Box::new(move || format!("{:?}", go(&*b(o.name, x(), y()).mk0().unwrap().0, 1, &mut Env::xy(a, d).with_form([form; 4])))) });
            }
            v.push(Probe { group: o.name.into(), name: format!("evaluate at {:?}, {:?}", a, d), go: Box::new(move || format!("{:?}", go(&*b(o.name, x(), y()).mk0().unwrap().0, 0, &mut Env::xy(a, d)))) });
            v.push(Probe { group: o.name.into(), name: format!("derivative at {:?}, {:?}", a, d), go: Box::new(move || format!("{:?}", go_d(&*b(o.name, x(), y()).mk1().unwrap().0, 1, V(1), &mut Env::xy(a, d)))) });
        }
    }
    // run-time sized: every operator on every pair of lengths
    for (li, l) in LENS.iter().enumerate() {
        for (ri, r) in LENS.iter().enumerate() {
            let at = move || Opt([Some(l.to_vec()), Some(r.to_vec()), None, None]);
            macro_rules! vecs {
                ($($n:literal $e:expr;)*) => { $(
                    v.push(Probe { group: format!("{} over Vec", $n), name: format!("at lengths #{}, #{}", li, ri), go: Box::new(move || ds($e.evaluate(at())) + &ds($e.evaluate_spec(at())) + &ds($e.evaluate_shape(at()))) });
                )* }
            }
            vecs! { "Add" x_().add(y_()); "Sub" x_().sub(y_()); "Mul" x_().mul(y_()); "Div" x_().div(y_()); "Sum" x_().add(y_()).sum(); }
        }
    }
    let m2 = [[[[0.5f64, 2.0], [1.0, 3.0]], [[2.0, 0.0], [1.0, 1.0]], [[2.0, 3.0], [4.0, 5.0]], [[0.0; 2]; 2]], [[[2.0, 0.5], [3.0, 1.0]], [[0.0, 2.0], [1.0, -1.0]], [[0.0; 2]; 2], [[1.0; 2]; 2]]];
    arrays! { v, "[[f64; 2]; 2]", m2.clone(); x_().add(y_()); x_().mul(y_()); x_().dot(y_()); x_().dot(z_()).sub(y_()); x_().sum(); }
    let a2 = [[[0.5f64, 2.0], [1.0, 3.0], [0.0, 0.0], [1.0, 1.0]], [[2.0, 0.5], [3.0, 1.0], [1.0, 0.0], [1.0, 1.0]], [[0.5, 0.5], [-1.0, 3.0], [0.0, 2.0], [1.0, 1.0]]];
    arrays! { v, "[f64; 2]", a2.clone(); x_().add(y_()); x_().mul(y_()); x_().div(y_()); x_().dot(y_()); x_().sum(); TensorProduct::new(x_(), y_()); x_().adjoint(X); x_().add(y_()).adjoint(Y); x_().dot(y_()).adjoint(X); ops::Double(x_()); ops::Square(y_()); }
    let a3 = [[[0.5f64, 2.0, 1.0], [1.0, 3.0, 4.0], [0.0, 0.0, 0.0], [1.0, 1.0, 1.0]], [[2.0, 0.5, 1.0], [3.0, 1.0, 4.0], [1.0, 0.0, 0.0], [1.0, 1.0, 1.0]]];
    arrays! { v, "[f64; 3]", a3.clone(); x_().add(y_()); x_().dot(y_()); x_().sum(); TensorProduct::new(x_(), y_()); x_().adjoint(X); }
    let t2 = [[(0.5f64, 2.0), (1.0, 3.0), (0.0, 0.0), (1.0, 1.0)], [(2.0f64, 0.5), (3.0, 1.0), (1.0, 0.0), (1.0, 1.0)]];
    arrays! { v, "(f64, f64)", t2.clone(); x_().add(y_()); x_().mul(y_()); x_().div(y_()); x_().sum(); }
    let f32s = [[0.5f32, 2.0, 1.0, 3.0], [0.50000006, 2.0, 1.0, 3.0], [0.0, -2.0, 1.0, 3.0]];
    arrays! { v, "f32", f32s.clone(); x_().add(y_()); x_().mul(y_()); x_().pow(y_()); ops::Sigmoid(x_()); ops::special::Gamma(x_()); ops::trig::Sin(x_()); }
    v.sort_by(|p, q| p.group.cmp(&q.group));
    v
}
static PROBES: OnceLock<Vec<Probe>> = OnceLock::new();
/// What a probe yields in a process of its own.
static ALONE: OnceLock<Vec<OnceLock<String>>> = OnceLock::new();
fn ps() -> &'static [Probe] { PROBES.get_or_init(probes) }
fn alone(i: usize) -> &'static str {
    ALONE.get_or_init(|| ps().iter().map(|_| OnceLock::new()).collect())[i].get_or_init(|| {
        let o = std::process::Command::new(std::env::current_exe().expect("HARNESS: own path")).env("MC_PROBE", i.to_string()).output().expect("HARNESS: a process for one probe");
        String::from_utf8_lossy(&o.stdout).into_owned()
    })
}
fn ran(p: &Probe) -> String { guarded(|| (p.go)()).unwrap_or_else(|e| format!("panic: {}", e.lines().next().unwrap_or(""))) }

fn main() {
    if let Ok(i) = std::env::var("MC_PROBE") {
        quiet_panics();
        print!("{}", ran(&ps()[i.parse::<usize>().expect("HARNESS: probe")]));
        return;
    }
    let mut ck = Check::new("C11");
    let th = ck.thorough();
    ck.assume("Expressions that store different inner values in one cache slot are excluded from the histories (the slot is theirs to keep apart).");
    let a = Alphabet::full(0, if th { vec![x(), y(), k(2.0), k(0.0)] } else { vec![x(), y(), k(0.0)] });
    ck.suite("expressions", format!("{}; 3 points, 3 representations, missing variables, 3 routes, each repeated on the same context, on an equal one, and by value", a.bound(2)), move |c| {
        let t = a.gen(c, 2);
        c.state(&t);
        c.desc(|| format!("{:?}", t));
        let n = t.mk0().unwrap();
        all_routes(c, &*n.0, 0, t.vars(), &|| (t.shape(), format!("{:?}", t)));
    });
    let a = Alphabet::full(0, vec![x(), y(), k(1.0)]);
    ck.suite("cached", format!("{}; every placement of cached nodes, every subset of filled slots", a.bound(1)), move |c| {
        let t = a.gen(c, 1);
        let v = c.choose(cache_variants(&t));
        let t = with_cache(t, v);
        c.state(&t);
        c.desc(|| format!("{:?}", t));
        let n = t.mk0().unwrap();
        all_routes(c, &*n.0, slots(&t), t.vars(), &|| (t.shape(), format!("{:?}", t)));
    });
    let a = Alphabet::full(1, vec![x(), y(), k(2.0)]);
    let a1 = a.clone();
    ck.suite("derivatives", format!("{}, targets x, y: the derivative node by 3 routes, evaluate_adjoint and evaluate_dual", a.bound(2)), move |c| {
        let t = a.gen(c, 2);
        c.desc(|| format!("{:?}", t));
        let n = t.mk1().unwrap();
        for v in 0..2u8 {
            c.state((&t, v));
            let d = n.0.a1(V(v));
            if th {
                all_routes(c, &*d.0, 0, t.vars() | 1 << v, &|| (format!("the derivative of {}", t.shape()), format!("d/d{} of {:?}", V(v), t)));
            }
            for p in POINTS {
                for form in [0u8, 1] {
                    let env = || Env::new([Some(p[0]), Some(p[1]), None, None]).with_form([form; 4]);
                    for r in 0..2 {
                        pure(c, &env, 0, &mut |e| go_d(&*n.0, r, V(v), e), &mut |e| go_d_val(&*n.0, r, V(v), e), &|| {
                            (format!("{} of {}", DROUTES[r], t.shape()), format!("{} by {} of {:?} at {:?} (representation {})", DROUTES[r], V(v), t, p, form))
                        });
                    }
                }
            }
        }
    });
    ck.suite("derivative nodes", format!("{}, targets x, y: all routes", a1.bound(1)), move |c| {
        let t = a1.gen(c, 1);
        c.desc(|| format!("{:?}", t));
        let n = t.mk1().unwrap();
        for v in 0..2u8 {
            c.state((&t, v));
            let d = n.0.a1(V(v));
            all_routes(c, &*d.0, 0, t.vars() | 1 << v, &|| (format!("the derivative of {}", t.shape()), format!("d/d{} of {:?}", V(v), t)));
        }
    });
    let len = if th { 4 } else { 3 };
    ck.suite("histories", format!("every sequence of {} evaluations of 12 expressions and 4 derivatives by 3 routes on one context, from 6 contexts: every result equals the one on a fresh context", len), move |c| {
        let p = pool();
        let mut nodes: Vec<(String, Rc<dyn N0>, u32)> = p.iter().map(|t| (format!("{:?}", t), t.mk0().unwrap().0 as Rc<dyn N0>, slots(t))).collect();
        for (i, v) in [(1, 0), (3, 0), (4, 1), (8, 0)] {
            if i == 8 {
                let t = b("Mul", b("Sub", x(), y()), x());
                nodes.push((format!("d/d{} of {:?}", V(v), t), t.mk1().unwrap().0.a1(V(v)).0, 0));
                continue;
            }
            nodes.push((format!("d/d{} of {:?}", V(v), p[i]), p[i].mk1().unwrap().0.a1(V(v)).0, 0));
        }
        let env0 = match c.choose(6) {
            0 => Env::new([Some(0.7), Some(1.3), Some(2.0), None]),
            1 => Env::new([Some(-1.0), Some(0.5), None, None]),
            2 => Env::new([Some(2.0), None, Some(1.0), None]),
            3 => Env::new([Some(2.0), Some(3.0), Some(1.0), Some(6.0)]),
            4 => Env::new([Some(0.0), Some(1.0), Some(1.0), None]).with_form([1; 4]),
            _ => Env::new([None, Some(1.0), None, None]),
        };
        let mut e = env0.clone();
        let mut h = vec![];
        for _ in 0..len {
            let i = c.choose(nodes.len());
            let r = c.choose(3);
            h.push(format!("{} of {}", ROUTES[r], nodes[i].0));
            let before = e.key();
            let got = go(&*nodes[i].1, r, &mut e);
            let want = go(&*nodes[i].1, r, &mut env0.clone());
            c.step(2);
            c.state((&h, before));
            let same = if nodes[i].2 == 0 { got == want } else { plain(&got) == plain(&want) };
            let bad = || (format!("history: {} of {}", ROUTES[r], nodes[i].0), format!("{} on {:?}: {:?}, on a fresh context {:?}", h.join("; "), env0.key(), got, want));
            c.check(same, bad);
            c.check(legal(&before, &e.key(), nodes[i].2), || (format!("history: context after {} of {}", ROUTES[r], nodes[i].0), format!("{}: the context goes from {:?} to {:?}", h.join("; "), before, e.key())));
        }
        c.desc(|| h.join("; "));
    });
    let n = ps().len();
    ck.suite("hidden state: pairs", format!("all ordered pairs of {} self-contained evaluations (every operator and its derivative at 14 points, and over vectors of 6 contents, matrices, tuples, f32): each yields what it yields in a process of its own", n), move |c| {
        let i = c.choose(n);
        let p = ps();
        let mut h = vec![i];
        c.desc(|| format!("{} {}, then every other evaluation", p[i].group, p[i].name));
        for j in 0..n {
            h = vec![i, j];
            for &k in &h {
                let got = ran(&p[k]);
                c.step(1);
                c.check(got == alone(k), || (format!("hidden state: {}", p[k].group), format!("{} {} then {} {}: the evaluation of {} yields {}, in a process of its own {}", p[i].group, p[i].name, p[j].group, p[j].name, p[k].group, got, alone(k))));
            }
            c.state((i, j));
        }
        let _ = h;
    });
    let gs: Vec<(usize, usize)> = {
        let p = ps();
        let mut v: Vec<(usize, usize)> = vec![];
        for i in 0..n {
            match v.last_mut() {
                Some(g) if p[g.0].group == p[i].group => g.1 = i + 1,
                _ => v.push((i, i + 1)),
            }
        }
        v
    };
    ck.suite("hidden state: triples", format!("all sequences of 3 of these evaluations of one and the same operator ({} operators)", gs.len()), move |c| {
        let (lo, hi) = *c.pick(&gs);
        let i = lo + c.choose(hi - lo);
        let p = ps();
        c.desc(|| format!("{} {}, then every two others", p[i].group, p[i].name));
        for j in lo..hi {
            for k in lo..hi {
                for m in [i, j, k] {
                    let got = ran(&p[m]);
                    c.step(1);
                    c.check(got == alone(m), || (format!("hidden state: {}", p[m].group), format!("{}: {}, then {}, then {}: {} yields {}, in a process of its own {}", p[m].group, p[i].name, p[j].name, p[k].name, p[m].name, got, alone(m))));
                }
                c.state((i, j, k));
            }
        }
    });
    ck.suite("typed", "typed expressions over scalars, arrays, matrices, tuples and vectors: every ordered pair of routes on one context, by reference and by value, every subset of x, y missing", |c| {
        let l = typed_list();
        let (n, k, f) = c.pick(&l);
        c.desc(|| format!("{} over {}", n, k));
        c.state((n, k));
        c.step(4 * 21);
        let bad = f();
        c.check(bad.is_empty(), || (format!("{} over {}", n, k), bad.join("; ")));
    });
    ck.run()
}
