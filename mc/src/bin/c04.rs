//! C04: evaluation computes the operator's mathematical value, with broadcasting.
use aegir::{
    buffers::{shapes::*, Buffer, Class, FieldOf, Scalar, Spec, ZipMap},
    ids::{X, Y},
    meta::{Constant, Variable},
    ops::{self, special, trig},
    Context, Function, Identifier, Node, Read,
};
use mc_core::{cart, engine::*, tens::*};
use mc_era::{ast::*, refr, Env, Res, V};
use num_traits::Zero;
use std::fmt::Debug;

const POINTS: [(f64, f64); 14] = [(0.7, -1.3), (2.0, 0.5), (-1.0, 3.0), (0.0, 1.0), (1.0, -1.0), (-2.5, 0.0), (0.3, 0.45), (1.75, 1.25), (-0.2, -0.6), (3.0, 2.0), (0.0, 0.0), (1.0, 2.0), (5.0, -3.0), (-7.25, 11.5)];

fn judge(t: &Tr, got: &Res<f64>, p: (f64, f64)) -> Option<Result<(), String>> {
    let r = refr::value(t, &[p.0, p.1]);
    if !r.ok || !r.sharp() {
        return None;
    }
    Some(match got {
        Ok(g) if r.agrees(*g) => Ok(()),
        o => Err(format!("{:?} at x={} y={} is {:?}, expected {} (+- {:e})", t, p.0, p.1, o, r.v, r.tol())),
    })
}
fn env(p: (f64, f64), form: u8) -> Env { Env::new([Some(p.0), Some(p.1), None, None]).with_form([form; 4]) }
fn blame(t: &Tr, p: (f64, f64)) -> Option<String> {
    let kids: Vec<&Tr> = match t {
        Tr::Un(_, k) | Tr::Cached(_, k) => vec![k],
        Tr::Bi(_, k) => vec![&k.0, &k.1],
        _ => vec![],
    };
    for k in kids {
        if let Some(s) = blame(k, p) {
            return Some(s);
        }
    }
    let got = guarded(|| t.mk0().unwrap().0.ev(&mut env(p, 0))).ok()?;
    matches!(judge(t, &got, p), Some(Err(_))).then(|| t.shape())
}
fn body(c: &mut Ctl, t: &Tr) {
    let n = t.mk0().unwrap();
    c.state(t);
    c.desc(|| format!("{:?}", t));
    let mut hit = false;
    for p in POINTS {
        for form in 0..3 {
            let got = n.0.ev(&mut env(p, form));
            c.step(1);
            match judge(t, &got, p) {
                None => c.skipped(),
                Some(Ok(())) => {
                    hit = true;
                    c.validated()
                },
                Some(Err(d)) => {
                    c.validated();
                    c.fail(blame(t, p).unwrap_or_else(|| format!("{} (representation {})", t.shape(), form)), format!("{} (representation {})", d, form));
                },
            }
        }
    }
    if hit {
        c.count("expressions with a point inside the domain", 1);
    }
}

// ------------------------------------------------------------------ buffers
#[derive(Clone)]
struct Two<A, B>(A, B);
impl<A, B> AsMut<Two<A, B>> for Two<A, B> {
    fn as_mut(&mut self) -> &mut Two<A, B> { self }
}
impl<A, B> Context for Two<A, B> {}
impl<A: Buffer, B> Read<X> for Two<A, B> {
    type Buffer = A;
    fn read(&self, _: X) -> Option<A> { Some(self.0.clone()) }
}
impl<A, B: Buffer> Read<Y> for Two<A, B> {
    type Buffer = B;
    fn read(&self, _: Y) -> Option<B> { Some(self.1.clone()) }
}
fn x_() -> Variable<X> { X.into_var() }
fn y_() -> Variable<Y> { Y.into_var() }

/// Entries: all different, of both signs, zero included; the contents of two operands differ.
trait Fld: Scalar + El<F = Self> + Kind<Field = Self> + PartialEq + Debug + 'static {
    fn lab(k: usize) -> Self;
    fn small() -> Vec<Self>;
    fn divides(self, by: Self) -> bool;
    fn same(self, o: Self) -> bool;
}
macro_rules! floats { ($($t:ident)*) => { $(impl Fld for $t {
    fn lab(k: usize) -> $t { [1.5, -2.0, 0.0, 3.25, -0.5, 7.0, 0.125, -11.0, 1.0, 2.0, -1.0][k % 11] * (1 + k / 11) as $t }
    fn small() -> Vec<$t> { vec![0.0, 1.0, -2.5] }
    fn divides(self, _: $t) -> bool { true }
    fn same(self, o: $t) -> bool { self == o || (self.is_nan() && o.is_nan()) }
})* } }
floats!(f64 f32);
macro_rules! ints { ($($t:ident $s:literal)*) => { $(impl Fld for $t {
    fn lab(k: usize) -> $t { ($s as i64 + (k * 7 % 10) as i64) as $t }
    fn small() -> Vec<$t> { vec![0, 1, 3] }
    fn divides(self, by: $t) -> bool { by != 0 }
    fn same(self, o: $t) -> bool { self == o }
})* } }
ints!(i32 -3 i64 -5 u8 0 usize 0);

fn fill<B: Kind>(c: &mut Ctl, dims: &[usize], side: usize) -> T<B::Field>
where
    B::Field: Fld,
{
    let n: usize = dims.iter().product();
    let al = B::Field::small();
    // every content over the alphabet where that is feasible
    if n <= 4 && c.flag() {
        return T::build(dims, |_| *c.pick(&al));
    }
    let s = c.choose(5);
    let v = B::Field::lab(1 + 2 * side);
    T::build(dims, |ix| match s {
        // one value everywhere, or on the diagonal only: the contents with a lifted representation
        3 => v,
        4 => if is_diag(ix) { v } else { B::Field::zero() },
        2 => B::Field::lab(lin(dims, ix) * (3 - side) + side + 4),
        _ => B::Field::lab(lin(dims, ix) * (1 + side) + 3 * side + 5 * s),
    })
}
/// Every representation with these contents.
fn reps<B: Kind>(b: &B, t: &T<B::Field>) -> Vec<(&'static str, Spec<B>)>
where
    B::Field: Fld,
{
    let mut l = vec![("raw", Spec::Raw(b.clone()))];
    if let Some(&v) = t.data.first() {
        if t.data.iter().all(|x| x.same(v)) {
            l.push(("full", Spec::Full(b.shape(), v)));
        }
        if *t == T::build(&t.dims, |ix| if is_diag(ix) { v } else { B::Field::zero() }) {
            l.push(("diagonal", Spec::Diagonal(b.shape(), v)));
        }
    }
    l
}
type Run<F> = Result<Result<T<F>, String>, String>;
fn judge_t<F: Fld>(c: &mut Ctl, sig: impl Fn(&str) -> String, detail: &dyn Fn() -> String, want: &T<F>, got: Vec<(&'static str, Run<F>)>) {
    for (way, g) in got {
        c.step(1);
        let ok = matches!(&g, Ok(Ok(t)) if t.dims == want.dims && t.data.iter().zip(&want.data).all(|(a, b)| a.same(*b)));
        c.check(ok, || (sig(way), format!("{} by {}: {}, expected {}", detail(), way, short(&format!("{:?}", g)), short(&format!("{:?}", want.data)))));
    }
}
fn short(g: &str) -> String { g.chars().take(200).collect() }
macro_rules! eval { ($ctx:expr, $op:expr) => {{
    let (op, ctx) = ($op, &$ctx);
    guarded(move || op.evaluate(ctx.clone()).map(|r| r.t()).map_err(|e| format!("{:?}", e)))
}} }
macro_rules! lifted { ($ctx:expr, $op:expr) => {{
    let (op, ctx) = ($op, &$ctx);
    guarded(move || op.evaluate_spec(ctx.clone()).map(|r| r.unwrap().t()).map_err(|e| format!("{:?}", e)))
}} }

/// Add, Mul, Div (and Sub where the field has negation) of two kinds.
macro_rules! bin_fn { ($name:ident, [$($bound:tt)*], $ops:ident [$($op:ident $m:ident $sym:tt),*]) => {
fn $name<A, B, OV, OS, OC, F>(c: &mut Ctl, da: &[usize], db: &[usize])
where
    F: Fld $($bound)*,
    A: Kind<Field = F> + ZipMap<B, Output<F> = OV>,
    A::Shape: Broadcast<B::Shape, Shape = OV::Shape>,
    B: Kind<Field = F> + ZipMap<A, Output<F> = OV>,
    B::Shape: Broadcast<A::Shape, Shape = OV::Shape>,
    OS: Shape,
    OC: Class<OS, Buffer<F> = OV>,
    OV: Kind<Field = F, Class = OC, Shape = OS>,
{
    let (ta, tb) = (fill::<A>(c, da, 0), fill::<B>(c, db, 1));
    let kinds = format!("{} and {} <{}>", A::name(), B::name(), std::any::type_name::<F>());
    c.state((&kinds, format!("{:?} {:?}", ta.data, tb.data), da, db));
    c.desc(|| format!("{}: {:?} and {:?}", kinds, ta.data, tb.data));
    let (a, b) = (A::of(&ta), B::of(&tb));
    let ctx = Two(a.clone(), b.clone());
    $( {
        let partial = stringify!($op) == "Div";
        let fits = guarded(|| ta.zip(&tb, |x, y| (!partial || x.divides(y)).then(|| x $sym y))).ok().flatten();
        if let Some(want) = fits.filter(|t| t.data.iter().all(|x| x.is_some())).map(|t| t.map(|x| x.unwrap())) {
            let n = stringify!($op);
            judge_t(c, |w| format!("{} of {} by {}", n, kinds, w), &|| format!("{} of {} and {} ({})", n, short(&format!("{:?}", ta.data)), short(&format!("{:?}", tb.data)), kinds), &want, vec![
                ("evaluate", eval!(ctx, ops::$op(x_(), y_()))),
                ("evaluate_spec", lifted!(ctx, ops::$op(x_(), y_()))),
                ("constant on the left", eval!(ctx, ops::$op(Constant(a.clone()), y_()))),
                ("constant on the right", eval!(ctx, ops::$op(x_(), Constant(b.clone())))),
                ("the builder method", eval!(ctx, x_().$m(y_()))),
            ]);
            for (ra, fa) in reps(&a, &ta) {
                for (rb, fb) in reps(&b, &tb) {
                    judge_t(c, |w| format!("{} of {} ({} and {}) by {}", n, kinds, ra, rb, w), &|| format!("{} of {} and {} ({}, {} and {})", n, short(&format!("{:?}", ta.data)), short(&format!("{:?}", tb.data)), kinds, ra, rb), &want, vec![
                        ("evaluate on constants", eval!(ctx, ops::$op(Constant(fa.clone()), Constant(fb.clone())))),
                        ("evaluate_spec on constants", lifted!(ctx, ops::$op(Constant(fa.clone()), Constant(fb.clone())))),
                        ("evaluate, constant on the left", eval!(ctx, ops::$op(Constant(fa.clone()), y_()))),
                        ("evaluate, constant on the right", eval!(ctx, ops::$op(x_(), Constant(fb.clone())))),
                    ]);
                }
            }
        } else {
            c.skipped();
        }
    } )*
}
} }
bin_fn!(bin_pos, [], ops [Add add +, Mul mul *, Div div /]);
bin_fn!(bin_sub, [+ std::ops::Neg<Output = F>], ops [Sub sub -]);

/// Sum over every representation with these contents, alone and as an operand.
fn sums<A: Kind<Field = f64>>(c: &mut Ctl, a: &A, ta: &T<f64>) {
    let ctx = Two(a.clone(), 1.0f64);
    let sum = ta.data.iter().fold(0.0, |s, v| s + v);
    let (want, next) = (T::scalar(sum), T::scalar(sum + 1.0));
    let detail = || format!("Sum of {} ({})", short(&format!("{:?}", ta.data)), A::name());
    judge_t(c, |w| format!("Sum of {} by {}", A::name(), w), &detail, &want, vec![("evaluate", eval!(ctx, ops::Sum(x_()))), ("evaluate_spec", lifted!(ctx, ops::Sum(x_()))), ("the builder method", eval!(ctx, x_().sum()))]);
    judge_t(c, |w| format!("one more than the Sum of {} by {}", A::name(), w), &detail, &next, vec![("evaluate", eval!(ctx, ops::AddOne(ops::Sum(x_())))), ("evaluate (addition)", eval!(ctx, ops::Add(ops::Sum(x_()), y_())))]);
    for (r, f) in reps(a, ta) {
        judge_t(c, |w| format!("Sum of {} ({}) by {}", A::name(), r, w), &detail, &want, vec![("evaluate on a constant", eval!(ctx, ops::Sum(Constant(f.clone())))), ("evaluate_spec on a constant", lifted!(ctx, ops::Sum(Constant(f.clone()))))]);
        judge_t(c, |w| format!("one more than the Sum of {} ({}) by {}", A::name(), r, w), &detail, &next, vec![("evaluate (addition) on a constant", eval!(ctx, ops::Add(ops::Sum(Constant(f.clone())), y_())))]);
    }
}
fn long_sum<A: Kind<Field = f64>>(c: &mut Ctl, dims: &[usize]) {
    let ta = fill::<A>(c, dims, 0);
    c.state((A::name(), dims, format!("{:?}", ta.data.iter().take(9).collect::<Vec<_>>())));
    c.desc(|| format!("{} {:?}", A::name(), dims));
    sums(c, &A::of(&ta), &ta)
}

macro_rules! unary_fn { ([$($op:path),* $(,)?]) => {
/// Unary operators: entry by entry what the operator does to a scalar, in place and order.
fn unary<A>(c: &mut Ctl, dims: &[usize])
where
    A: Kind<Field = f64>,
{
    let ta = fill::<A>(c, dims, 0);
    c.state((A::name(), dims, format!("{:?}", ta.data)));
    c.desc(|| format!("{} {:?}", A::name(), ta.data));
    let a = A::of(&ta);
    let ctx = Two(a.clone(), 0.0f64);
    $( {
        let want: Result<Vec<f64>, String> = guarded(|| ta.data.iter().map(|v| $op(x_()).evaluate(Two(*v, 0.0f64)).unwrap()).collect());
        let n = stringify!($op);
        if let Ok(w) = want {
            let want = T { dims: dims.to_vec(), data: w };
            judge_t(c, |w| format!("{} of {} by {}", n, A::name(), w), &|| format!("{} of {} ({})", n, short(&format!("{:?}", ta.data)), A::name()), &want, vec![
                ("evaluate", eval!(ctx, $op(x_()))),
                ("evaluate_spec", lifted!(ctx, $op(x_()))),
                ("constant operand", eval!(ctx, $op(Constant(a.clone())))),
            ]);
            for (r, f) in reps(&a, &ta).into_iter().skip(1) {
                judge_t(c, |w| format!("{} of {} ({}) by {}", n, A::name(), r, w), &|| format!("{} of {} ({}, {})", n, short(&format!("{:?}", ta.data)), A::name(), r), &want, vec![("evaluate on a constant", eval!(ctx, $op(Constant(f.clone())))), ("evaluate_spec on a constant", lifted!(ctx, $op(Constant(f.clone()))))]);
            }
        } else {
            c.skipped();
        }
    } )*
    sums(c, &a, &ta);
}
} }
unary_fn!([
    ops::SubOne, ops::OneSub, ops::AddOne, ops::Square, ops::Double, ops::Negate, ops::Dirac, ops::Sign, ops::Abs, ops::Ln, ops::XLnX, ops::Exp, ops::Rabbit, ops::Sigmoid,
    special::Gamma, special::DiGamma, special::LogGamma, special::Erf, special::Factorial::factorial, special::Erfc::erfc,
    trig::Cos, trig::Cosh, trig::ArcCos, trig::ArcCosh, trig::Sin, trig::Sinh, trig::ArcSin, trig::ArcSinh, trig::Tan, trig::Tanh, trig::ArcTan, trig::ArcTanh,
]);

// ------------------------------------------------------------------ extreme magnitudes, integer fields
/// The operators with a definition in elementary operations, up to a few rounding units.
macro_rules! ref_fn { ($name:ident, $t:ident) => {
fn $name(op: &str, x: $t) -> Option<$t> {
    Some(match op {
        "Negate" => -x,
        "Square" => x * x,
        "Double" => x + x,
        "AddOne" => x + 1.0,
        "SubOne" => x - 1.0,
        "OneSub" => 1.0 - x,
        "Rabbit" => x * (1.0 - x),
        "Abs" => x.abs(),
        "Sign" => if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 },
        "Dirac" => if x == 0.0 { $t::INFINITY } else { 0.0 },
        "Sum" => x,
        "Ln" if x > 0.0 => x.ln(),
        "XLnX" => if x > 0.0 { x * x.ln() } else { 0.0 },
        "Exp" if x.abs() < 80.0 => x.exp(),
        "Exp" if x > 800.0 => $t::INFINITY,
        "Exp" if x < -800.0 => 0.0,
        "Sigmoid" if x.abs() < 80.0 => if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { x.exp() / (1.0 + x.exp()) },
        "Sigmoid" if x > 800.0 => 1.0,
        "Sigmoid" if x < -800.0 => 0.0,
        "Sin" if x.abs() < 1e3 => x.sin(),
        "Cos" if x.abs() < 1e3 => x.cos(),
        "Tan" if x.abs() < 1e3 => x.tan(),
        "ArcTan" => x.atan(),
        "ArcSin" if x.abs() < 1.0 => x.asin(),
        "ArcCos" if x.abs() < 1.0 => x.acos(),
        "Sinh" if x.abs() < 40.0 => x.sinh(),
        "Cosh" if x.abs() < 40.0 => x.cosh(),
        "Tanh" if x.abs() < 40.0 || x.abs() > 800.0 => x.tanh(),
        _ => return None,
    })
}
} }
ref_fn!(ref64, f64);
ref_fn!(ref32, f32);
/// Both signs, every order of magnitude.
fn scales64() -> Vec<f64> {
    let mut v: Vec<f64> = vec![0.0, 1.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1.0 - 1e-15, 1.0 + 1e-15, 0.999, 1.001, 1.5, 2.0, 7.0, 88.0, 700.0, 745.0, 4.5e15, 9.1e15, 3e18, 1.8e19];
    v.extend((1..=16).flat_map(|k| [2.5 * 10f64.powi(19 * k - 1), 3.75 * 10f64.powi(-19 * k + 1), 1.25 * 10f64.powi(k), 6.5 * 10f64.powi(-k)]));
    v.iter().flat_map(|x| [*x, -*x]).collect()
}
fn scales32() -> Vec<f32> {
    let mut v: Vec<f32> = vec![0.0, 1.0, f32::MAX, f32::MIN_POSITIVE, 1e-45, 0.9999999, 1.0000001, 1.5, 2.0, 7.0, 1e7, 1.7e7, 5e9];
    v.extend((1..=12).flat_map(|k| [2.5 * 10f32.powi(3 * k), 3.75 * 10f32.powi(-3 * k)]));
    v.iter().flat_map(|x| [*x, -*x]).collect()
}
fn near64(g: f64, w: f64) -> bool { g == w || g.is_nan() && w.is_nan() || (g - w).abs() <= 1e-13 * w.abs() + 1e-322 }
fn near32(g: f32, w: f32) -> bool { g == w || g.is_nan() && w.is_nan() || (g - w).abs() <= 1e-5 * w.abs() + 1e-44 }
macro_rules! extremes_fn { ($name:ident, $t:ident, $rf:ident, $near:ident, $scales:ident) => {
/// One operator over all these values: as scalars, as one array, as one vector.
fn $name(c: &mut Ctl) {
    let l = $scales();
    let i = c.choose(27);
    let mut n = 0;
    macro_rules! each { ($d:literal $o:path) => {
        if n == i {
            let node = || $o(x_());
            let dense: Vec<$t> = node().evaluate(Two(l.clone(), 0.0f64)).unwrap();
            let arr: Vec<$t> = l.chunks(2).flat_map(|p| node().evaluate(Two([p[0], p[1]], 0.0f64)).unwrap()).collect();
            for (k, x) in l.iter().enumerate() {
                let w = match $rf($d, *x) {
                    Some(w) => w,
                    None => { c.skipped(); continue },
                };
                c.state(($d, x.to_bits()));
                let ways = [
                    ("a scalar", node().evaluate(Two(*x, 0.0f64)).unwrap()), ("a vector", dense[k]), ("an array", arr[k]), ("a lifted constant", $o(Constant(Spec::<$t>::Full(S0, *x))).evaluate_spec(Two(*x, 0.0f64)).unwrap().unwrap()),
                    ("a lifted scalar", node().evaluate_spec(Two(*x, 0.0f64)).unwrap().unwrap()), ("a lifted vector", $o(Constant(Spec::<Vec<$t>>::Full(SDynamic([3]), *x))).evaluate_spec(Two(*x, 0.0f64)).unwrap().unwrap()[1]),
                ];
                for (how, g) in ways {
                    c.step(1);
                    c.check($near(g, w), || (format!("{} of {} <{}>, extreme values", $d, how, stringify!($t)), format!("{}({:?}) as {}: {:?}, expected {:?}", $d, x, how, g, w)));
                }
            }
            return;
        }
        n += 1;
    } }
    each!("Negate" ops::Negate); each!("Square" ops::Square); each!("Double" ops::Double); each!("AddOne" ops::AddOne); each!("SubOne" ops::SubOne); each!("OneSub" ops::OneSub);
    each!("Rabbit" ops::Rabbit); each!("Abs" ops::Abs); each!("Sign" ops::Sign); each!("Dirac" ops::Dirac); each!("Ln" ops::Ln); each!("XLnX" ops::XLnX); each!("Exp" ops::Exp);
    each!("Sigmoid" ops::Sigmoid); each!("Sin" trig::Sin); each!("Cos" trig::Cos); each!("Tan" trig::Tan); each!("ArcTan" trig::ArcTan); each!("ArcSin" trig::ArcSin); each!("ArcCos" trig::ArcCos);
    each!("Sinh" trig::Sinh); each!("Cosh" trig::Cosh); each!("Tanh" trig::Tanh);
    // binary operators: every pair
    let op = ["Add", "Sub", "Mul", "Div"][i - n];
    for x in &l {
        let (lv, rv) = (vec![*x; l.len()], l.clone());
        c.state((op, x.to_bits()));
        for (k, y) in l.iter().enumerate() {
            macro_rules! ways { ($O:ident) => { [
                ("scalars", ops::$O(x_(), y_()).evaluate(Two(*x, *y)).unwrap()),
                ("lifted scalars", ops::$O(x_(), y_()).evaluate_spec(Two(*x, *y)).unwrap().unwrap()),
                ("lifted constants", ops::$O(Constant(Spec::<$t>::Full(S0, *x)), Constant(Spec::<$t>::Full(S0, *y))).evaluate(Two(*x, *y)).unwrap()),
                ("a lifted array and a scalar", ops::$O(Constant(Spec::<[$t; 2]>::Full(S1, *x)), y_()).evaluate(Two(*x, *y)).unwrap()[1]),
                ("a scalar and a lifted array", ops::$O(x_(), Constant(Spec::<[$t; 2]>::Full(S1, *y))).evaluate(Two(*x, *y)).unwrap()[1]),
                ("arrays", ops::$O(x_(), y_()).evaluate(Two([*x, *y], [*y, *x])).unwrap()[0]),
                ("vectors", if k % 16 == 0 { ops::$O(x_(), y_()).evaluate(Two(lv.clone(), rv.clone())).unwrap()[k] } else { ops::$O(x_(), y_()).evaluate(Two(vec![*x; 2], *y)).unwrap()[1] }),
            ] } }
            let (w, got) = match op {
                "Add" => (x + y, ways!(Add)),
                "Sub" => (x - y, ways!(Sub)),
                "Mul" => (x * y, ways!(Mul)),
                _ => (x / y, ways!(Div)),
            };
            for (how, g) in got {
                c.step(1);
                c.check(g == w || g.is_nan() && w.is_nan(), || (format!("{} of {} <{}>, extreme values", op, how, stringify!($t)), format!("{} of {:?} and {:?} as {}: {:?}, expected {:?}", op, x, y, how, g, w)));
            }
        }
    }
}
} }
extremes_fn!(extremes64, f64, ref64, near64, scales64);
extremes_fn!(extremes32, f32, ref32, near32, scales32);

/// Powers, against the platform's library (the one linked for the special functions has its own).
fn pow(x: f64, y: f64) -> f64 {
    extern "C" {
        fn dlopen(p: *const i8, f: i32) -> *mut u8;
        fn dlsym(h: *mut u8, n: *const i8) -> *mut u8;
    }
    static POW: std::sync::OnceLock<extern "C" fn(f64, f64) -> f64> = std::sync::OnceLock::new();
    POW.get_or_init(|| unsafe {
        let h = dlopen(b"libm.so.6\0".as_ptr() as _, 2);
        assert!(!h.is_null(), "HARNESS: libm.so.6 does not load");
        let p = dlsym(h, b"pow\0".as_ptr() as _);
        assert!(!p.is_null(), "HARNESS: no pow in libm.so.6");
        std::mem::transmute(p)
    })(x, y)
}
macro_rules! powers_fn { ($name:ident, $t:ident, $scales:ident, $single:literal) => {
fn $name(c: &mut Ctl) {
    let x: $t = *c.pick(&$scales());
    let exps: Vec<$t> = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 7.0, 8.0, 10.0, 14.0, 33.0, 64.0, 130.0, 301.0, 0.5, 1.5, 0.1, 0.25, 1.0 / 3.0, 2.9, 1e-3, 1e-6, 12.75].iter().flat_map(|y: &$t| [*y, -*y]).collect();
    c.desc(|| format!("powers of {:?}", x));
    for y in exps {
        if x < 0.0 && y.fract() != 0.0 || x == 0.0 && y < 0.0 {
            c.skipped();
            continue;
        }
        let w = pow(x as f64, y as f64);
        c.state((x.to_bits(), y.to_bits()));
        let ok = |g: $t| {
            let (g, max) = (g as f64, $t::MAX as f64);
            if w.abs() >= max * (1.0 - 1e-5) {
                g.abs() >= max * (1.0 - 1e-4) && g.signum() == w.signum()
            } else {
                // (what is below the smallest normal number may be flushed to zero)
                (g - w).abs() <= 64.0 * $t::EPSILON as f64 * w.abs() * (1.0 + w.abs().ln().abs().min(750.0) * if $single { 1.0 } else { 0.1 }) + $t::MIN_POSITIVE as f64
            }
        };
        let got = [
            ("scalars", ops::Power(x_(), y_()).evaluate(Two(x, y)).unwrap()),
            ("lifted scalars", ops::Power(x_(), y_()).evaluate_spec(Two(x, y)).unwrap().unwrap()),
            ("lifted constants", ops::Power(Constant(Spec::<$t>::Full(S0, x)), Constant(Spec::<$t>::Full(S0, y))).evaluate(Two(x, y)).unwrap()),
            ("a builder and a constant", x_().pow(y.into_constant()).evaluate(Two(x, y)).unwrap()),
        ];
        for (how, g) in got {
            c.step(1);
            // the library's powers with integral exponents, where the result or its inverse leaves the
            // range: the largest value, its inverse, infinity
            let out = w.abs() <= $t::MIN_POSITIVE as f64 || w.abs() >= $t::MAX as f64;
            let limit = g.abs() >= $t::MAX / 8.0 || (g.abs() * ($t::MAX / 4.0) - 0.25).abs() < 1e-3;
            let known = if $single { y.fract() == 0.0 && out && limit } else { x == $t::MAX && y.fract() != 0.0 && (g == 0.0 || g.is_infinite()) };
            c.check(ok(g), || (if known { "powers at the limits of the range".into() } else { format!("Power of {} <{}>, extreme values", how, stringify!($t)) }, format!("{:?} to the {:?} as {}: {:?}, expected {:?}", x, y, how, g, w)));
        }
    }
}
} }
powers_fn!(powers64, f64, scales64, false);
powers_fn!(powers32, f32, scales32, true);

/// The unary operators that are defined over integers.
fn integers(c: &mut Ctl) {
    macro_rules! field { ($t:ident $vals:expr) => {{
        let v: Vec<$t> = $vals;
        let op = *c.pick(&["Double", "AddOne", "SubOne", "OneSub", "Rabbit", "Sum"]);
        let want = |x: $t| -> Option<$t> { match op { "Double" => x.checked_add(x), "AddOne" => x.checked_add(1), "SubOne" => x.checked_sub(1), "OneSub" => (1 as $t).checked_sub(x), "Rabbit" => (1 as $t).checked_sub(x).and_then(|y| y.checked_mul(x)), _ => Some(x) } };
        let ok: Vec<$t> = v.into_iter().filter(|x| want(*x).is_some()).collect();
        c.desc(|| format!("{} over {}", op, stringify!($t)));
        macro_rules! run { ($b:expr) => {{
            let b = || $b;
            let cx = || Two(b(), 0.0f64);
            match op {
                "Double" => ops::Double(x_()).evaluate(cx()).unwrap().t().data,
                "AddOne" => ops::AddOne(x_()).evaluate(cx()).unwrap().t().data,
                "SubOne" => ops::SubOne(x_()).evaluate_spec(cx()).unwrap().unwrap().t().data,
                "OneSub" => ops::OneSub(x_()).evaluate(cx()).unwrap().t().data,
                "Rabbit" => ops::Rabbit(x_()).evaluate_spec(cx()).unwrap().unwrap().t().data,
                _ => vec![],
            }
        }} }
        for x in &ok {
            c.state((stringify!($t), op, *x as i128));
            c.step(3);
            let w = want(*x).unwrap();
            let got = if op == "Sum" {
                vec![vec![ops::Sum(x_()).evaluate(Two(*x, 0.0f64)).unwrap()], vec![ops::Sum(x_()).evaluate(Two([[*x, 0 as $t], [0 as $t, 0 as $t]], 0.0f64)).unwrap()], vec![ops::Sum(x_()).evaluate_spec(Two(vec![0 as $t, *x], 0.0f64)).unwrap().unwrap()]]
            } else {
                vec![run!(*x), run!([[*x, *x], [*x, *x], [*x, *x]]), run!(vec![*x; 3])]
            };
            for g in got {
                c.check(!g.is_empty() && g.iter().all(|v| *v == w), || (format!("{} over {}", op, stringify!($t)), format!("{} of {}: {:?}, expected {}", op, x, g, w)));
            }
        }
    }} }
    match c.choose(6) {
        0 => field!(i32 (-50..=50).chain([i32::MAX, i32::MIN, i32::MAX / 2, i32::MIN / 2, 46341, -46340]).collect()),
        1 => field!(i64 (-50..=50).chain([i64::MAX, i64::MIN, i64::MAX / 2, i64::MIN / 2]).collect()),
        2 => field!(u8 (0..=255).collect()),
        3 => field!(usize (0..=300).chain([usize::MAX, usize::MAX / 2]).collect()),
        4 => field!(i8 (-128..=127).collect()),
        _ => field!(u16 (0..=65535).collect()),
    }
}

/// Larger expressions over a buffer x and a scalar y, entry by entry.
type Ex<A> = (&'static str, fn(&Two<A, f64>) -> Run<f64>, fn(f64, f64) -> f64);
macro_rules! exprs { ($name:ident, $A:ty, $d:expr) => {
fn $name(c: &mut Ctl) {
    let dims: Vec<usize> = $d.to_vec();
    let l: Vec<Ex<$A>> = exprs!(@l
        x_().add(y_()).mul(x_()) => |x, y| (x + y) * x;
        x_().sub(y_()).div(x_().add(3.0f64.into_constant())) => |x, y| (x - y) / (x + 3.0);
        y_().sub(x_()).sub(x_()) => |x, y| (y - x) - x;
        y_().sub(x_().sub(y_())) => |x, y| y - (x - y);
        y_().div(x_()).div(y_()) => |x, y| (y / x) / y;
        y_().div(x_().div(y_())) => |x, y| y / (x / y);
        x_().mul(y_().squared()).sub(x_().squared().mul(y_())) => |x, y| x * y.powf(2.0) - x.powf(2.0) * y;
        ops::OneSub(x_().mul(y_())) => |x, y| 1.0 - x * y;
        ops::SubOne(ops::Double(x_())).add(y_().neg()) => |x, y| (2.0 * x - 1.0) + (-y);
        x_().abs().sub(y_().mul(ops::AddOne(x_()))) => |x, y| x.abs() - y * (x + 1.0);
        x_().add(y_()).sub(x_().sub(y_()).neg()).mul(y_()) => |x, y| ((x + y) - (-(x - y))) * y;
        0.0f64.into_constant().sub(x_()).mul(1.0f64.into_constant().div(y_())) => |x, y| (0.0 - x) * (1.0 / y);
    );
    let (n, f, g) = *c.pick(&l);
    let y: f64 = *c.pick(&[2.0, -0.5, 0.0, 1.0]);
    let ta = T::build(&dims, |ix| f64::lab(lin(&dims, ix) + 1));
    c.state((n, y.to_bits(), stringify!($A)));
    c.desc(|| format!("{} over {} y={}", n, stringify!($A), y));
    let ctx = Two(<$A as Kind>::of(&ta), y);
    let want = ta.map(|x| g(x, y));
    judge_t(c, |_| format!("{} over {}", n, stringify!($A)), &|| format!("{} at x={:?} y={}", n, ta.data, y), &want, vec![("evaluate", f(&ctx))]);
}
};
    (@l $($e:expr => $g:expr;)*) => { vec![$((stringify!($e), |c| eval!(*c, $e), $g)),*] };
}
type A1 = [f64; 3];
type A2 = [[f64; 3]; 2];
type A3 = [[[f64; 2]; 3]; 2];
exprs!(ex0, f64, [0; 0]);
exprs!(ex1, A1, [3]);
exprs!(ex2, A2, [2, 3]);
exprs!(ex3, A3, [2, 3, 2]);
exprs!(exv, Vec<f64>, [5]);

type Case = Box<dyn Fn(&mut Ctl) + Send + Sync>;
fn main() {
    let mut ck = Check::new("C04");
    let th = ck.thorough();
    ck.assume("Scalar expressions are compared with an independent evaluation in interval-like arithmetic wherever that is well conditioned; accuracy over the whole floating point range is C21's.");
    let _ = std::marker::PhantomData::<FieldOf<f64>>;
    let a = Alphabet::full(0, if th { vec![x(), y(), k(2.0), k(0.0), k(-1.5)] } else { vec![x(), y(), k(2.0)] });
    ck.suite("expressions", format!("{}; {} points, 3 representations of the variables", a.bound(2), POINTS.len()), move |c| {
        let t = a.gen(c, 2);
        body(c, &t)
    });
    let a = Alphabet::of(if th { vec![x(), y(), k(2.0)] } else { vec![x(), y()] }, if th { &["Negate", "Square", "Exp", "OneSub"] } else { &["Negate"] }, if th { &["Add", "Sub", "Mul", "Div", "Power"] } else { &["Sub", "Mul", "Div", "Power"] });
    ck.suite("deeper", format!("{}; {} points, 3 representations", a.bound(3), POINTS.len()), move |c| {
        let t = a.gen(c, 3);
        body(c, &t)
    });
    let _ = V(0);
    // ---- broadcasting over every class, rank and size
    let mut l: Vec<Case> = vec![];
    macro_rules! uns { ($F:ty, $A:ty, $B:ty, $da:expr, $db:expr) => { l.push(Box::new(|c| bin_pos::<$A, $B, _, _, _, $F>(c, &$da, &$db))); } }
    macro_rules! all { ($F:ty, $A:ty, $B:ty, $da:expr, $db:expr) => { uns!($F, $A, $B, $da, $db); l.push(Box::new(|c| bin_sub::<$A, $B, _, _, _, $F>(c, &$da, &$db))); } }
    macro_rules! kind { ($m:ident, $F:ty, $A:ty, $d:expr) => { $m!($F, $A, $A, $d, $d); $m!($F, $A, $F, $d, []); $m!($F, $F, $A, [], $d); } }
    all!(f64, f64, f64, [], []);
    all!(f32, f32, f32, [], []);
    all!(i32, i32, i32, [], []);
    uns!(u8, u8, u8, [], []);
    all!(f64, (f64, f64), (f64, f64), [2], [2]);
    all!(f32, (f32, f32), (f32, f32), [2], [2]);
    all!(i64, (i64, i64), (i64, i64), [2], [2]);
    macro_rules! r1 { ($($n:literal)*) => { $( kind!(all, f64, [f64; $n], [$n]); )* } }
    r1!(0 1 2 3 4 5 6 7 8 9 15 16 17 31 32 33 63 64 65 100 127 128 129 255 256 257);
    kind!(all, f32, [f32; 3], [3]);
    all!(i64, i64, i64, [], []);
    all!(i32, (i32, i32), (i32, i32), [2], [2]);
    uns!(u8, (u8, u8), (u8, u8), [2], [2]);
    kind!(all, f32, [[f32; 3]; 2], [2, 3]);
    kind!(all, i32, [[i32; 2]; 2], [2, 2]);
    kind!(all, i32, [[[i32; 2]; 2]; 2], [2, 2, 2]);
    kind!(all, i64, [i64; 17], [17]);
    kind!(all, i32, Vec<i32>, [9]);
    kind!(all, i32, [i32; 3], [3]);
    kind!(uns, u8, [u8; 4], [4]);
    kind!(uns, usize, [usize; 2], [2]);
    macro_rules! r2 { ($l:tt; $b:literal, $a:literal) => { kind!(all, f64, [[f64; $b]; $a], [$a, $b]); } }
    cart!(r2!(()) [0 1 2 3 5] [0 1 2 3 4]);
    kind!(all, f64, [[f64; 17]; 16], [16, 17]);
    kind!(all, f64, [[f64; 2]; 65], [65, 2]);
    kind!(all, f64, [[f64; 65]; 2], [2, 65]);
    kind!(all, i64, [[i64; 2]; 3], [3, 2]);
    macro_rules! r3 { ($l:tt; $c:literal, $b:literal, $a:literal) => { kind!(all, f64, [[[f64; $c]; $b]; $a], [$a, $b, $c]); } }
    cart!(r3!(()) [0 1 2 3] [1 2 3] [1 2 3]);
    macro_rules! r4 { ($l:tt; $d:literal, $c:literal, $b:literal, $a:literal) => { kind!(all, f64, [[[[f64; $d]; $c]; $b]; $a], [$a, $b, $c, $d]); } }
    cart!(r4!(()) [1 2] [1 3] [2] [1 2]);
    macro_rules! r5 { ($l:tt; $e:literal, $d:literal, $c:literal, $b:literal, $a:literal) => { kind!(all, f64, [[[[[f64; $e]; $d]; $c]; $b]; $a], [$a, $b, $c, $d, $e]); } }
    cart!(r5!(()) [1 2] [2] [1 2] [1] [2]);
    macro_rules! vecs { ($($n:literal)*) => { $( kind!(all, f64, Vec<f64>, [$n]); )* } }
    vecs!(0 1 2 3 4 5 6 7 8 9 15 16 17 31 32 33 63 64 65 100 127 128 129 255 256 257);
    kind!(all, f32, Vec<f32>, [3]);
    kind!(all, i64, Vec<i64>, [3]);
    kind!(uns, u8, Vec<u8>, [2]);
    let n = l.len();
    ck.suite("broadcast", format!("Add, Sub, Mul, Div over {} operand kind pairs (scalars, tuples, arrays of rank 1 to 5, vectors; buffer with buffer, buffer with scalar, scalar with buffer; sizes 0 to 257); all contents over 3 values up to 4 entries, labelled entries beyond; 5 entry points", n), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    let mut l: Vec<Case> = vec![];
    macro_rules! un { ($($A:ty, $d:expr;)*) => { $( l.push(Box::new(|c| unary::<$A>(c, &$d))); )* } }
    un!(f64, []; (f64, f64), [2]; [f64; 0], [0]; [f64; 1], [1]; [f64; 2], [2]; [f64; 3], [3]; [f64; 16], [16]; [f64; 33], [33]; [f64; 65], [65]; [f64; 129], [129]; [f64; 257], [257];
        [[f64; 0]; 3], [3, 0]; [[f64; 2]; 2], [2, 2]; [[f64; 3]; 2], [2, 3]; [[f64; 1]; 3], [3, 1]; [[f64; 17]; 16], [16, 17]; [[[f64; 3]; 2]; 2], [2, 2, 3]; [[[f64; 1]; 1]; 1], [1, 1, 1];
        [[[[f64; 2]; 1]; 2]; 3], [3, 2, 1, 2]; [[[[[f64; 2]; 2]; 2]; 1]; 2], [2, 1, 2, 2, 2]; Vec<f64>, [0]; Vec<f64>, [1]; Vec<f64>, [2]; Vec<f64>, [4]; Vec<f64>, [17]; Vec<f64>, [64]; Vec<f64>, [129]; Vec<f64>, [257];);
    let n = l.len();
    ck.suite("unary", format!("33 operators over {} kinds: entry by entry the operator's value on the scalar (whose value the suite `expressions` decides)", n), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    let mut l: Vec<Case> = vec![];
    macro_rules! long { ($($A:ty, $d:expr;)*) => { $( l.push(Box::new(|c| long_sum::<$A>(c, &$d))); )* } }
    long!([f64; 255], [255]; [f64; 256], [256]; [f64; 300], [300]; [f64; 1025], [1025]; [[f64; 128]; 2], [2, 128]; [[f64; 17]; 31], [31, 17]; [[f64; 0]; 300], [300, 0]; [[[f64; 8]; 8]; 8], [8, 8, 8]; [[[[f64; 4]; 5]; 4]; 5], [5, 4, 5, 4];
        Vec<f64>, [255]; Vec<f64>, [256]; Vec<f64>, [300]; Vec<f64>, [1000]; Vec<f64>, [4097]; Vec<f64>, [32769]; Vec<f64>, [65535]; Vec<f64>, [65536]; Vec<f64>, [65537]; Vec<f64>, [70001];);
    let n = l.len();
    ck.suite("long sums", format!("Sum, alone and as an operand, over {} kinds of 255 to 70001 entries: 5 contents, every representation", n), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    ck.suite("extremes", "23 unary operators (with definitions in elementary operations; the rest: C21) and every pair of operands of Add, Sub, Mul, Div over values of every order of magnitude, both signs, f64 (166 values) and f32 (74): as scalars, arrays, vectors, lifted", |c| if c.flag() { extremes32(c) } else { extremes64(c) });
    ck.suite("powers", "166 f64 and 74 f32 bases of every order of magnitude to 46 exponents, both signs; 4 entry points", |c| if c.flag() { powers32(c) } else { powers64(c) });
    ck.suite("integers", "Double, AddOne, SubOne, OneSub, Rabbit, Sum over i32, i64, usize (small values and the limits), all of i8, u8, u16, wherever the result is representable; scalars, matrices, vectors", integers);
    ck.suite("composed", "12 larger expressions of a buffer x and a scalar y over f64, [_; 3], [[_; 3]; 2], [[[_; 2]; 3]; 2], Vec", |c| {
        let k = c.choose(5);
        [ex0, ex1, ex2, ex3, exv][k](c)
    });
    ck.run()
}
