//! C06: lifted (Full / Diagonal) representations never change a result.
//!
//! The check is inductive over expressions: every operator maps lifted operands denoting dense
//! buffers a, b to a lifted result denoting op(a, b), for every pair of representations.  The
//! intermediate results of any larger expression are again one of these representations.
use aegir::buffers::{self, shapes::*, Buffer, Class, Contract, Scalar, Spec, ZipMap};
use aegir::ids::{X, Y};
use aegir::meta::Constant;
use aegir::{ops, Context, Function, Identifier, Read};
use mc_core::{con, contraction_cases, engine::*, mat_vec_nonsquare, tens::*};
use num_traits::FromPrimitive;
use std::fmt::Debug;

// ------------------------------------------------------------------ fields
trait Fld: Scalar + FromPrimitive + El<F = Self> + Kind<Field = Self> + PartialEq + Debug + Send + Sync + 'static {
    /// the values lifted representations take
    fn alphabet() -> Vec<Self>;
    fn lab(k: usize) -> Self;
    fn w(self) -> Wide;
    fn near(self, w: Wide) -> bool;
    /// can the dense computation reach this value at all?
    fn fits(w: Wide) -> bool;
}
/// reference arithmetic: exact integers or floating point
#[derive(Copy, Clone, Debug, PartialEq)]
enum Wide {
    I(i128),
    /// value, sum of magnitudes
    R(f64, f64),
    No,
}
impl Wide {
    fn add(self, o: Wide) -> Wide {
        match (self, o) {
            (Wide::I(a), Wide::I(b)) => Wide::I(a + b),
            (Wide::R(a, x), Wide::R(b, y)) => Wide::R(a + b, x + y),
            _ => Wide::No,
        }
    }
    fn sub(self, o: Wide) -> Wide {
        match (self, o) {
            (Wide::I(a), Wide::I(b)) => Wide::I(a - b),
            (Wide::R(a, x), Wide::R(b, y)) => Wide::R(a - b, x + y),
            _ => Wide::No,
        }
    }
    fn mul(self, o: Wide) -> Wide {
        match (self, o) {
            (Wide::I(a), Wide::I(b)) => Wide::I(a * b),
            (Wide::R(a, _), Wide::R(b, _)) => Wide::R(a * b, (a * b).abs()),
            _ => Wide::No,
        }
    }
    fn div(self, o: Wide) -> Wide {
        match (self, o) {
            (Wide::I(_), Wide::I(0)) => Wide::No,
            (Wide::I(a), Wide::I(b)) => Wide::I(a / b),
            (Wide::R(a, _), Wide::R(b, _)) => Wide::R(a / b, (a / b).abs()),
            _ => Wide::No,
        }
    }
}
macro_rules! ints { ($($t:ty, [$($v:expr),*];)*) => { $(impl Fld for $t {
    fn alphabet() -> Vec<$t> { vec![$($v),*] }
    fn lab(k: usize) -> $t { (k * 5 % 7 % 4) as $t }
    fn w(self) -> Wide { Wide::I(self as i128) }
    fn near(self, w: Wide) -> bool { w == Wide::I(self as i128) }
    fn fits(w: Wide) -> bool { matches!(w, Wide::I(x) if x >= <$t>::MIN as i128 && x <= <$t>::MAX as i128) }
})* } }
ints!(u8, [0, 1, 2, 3]; i8, [0, 1, 2, 3, -1, -2]; i32, [0, 1, 2, -3, -1]; i64, [0, 1, 2, -3, -1]; usize, [0, 1, 2, 3];);
macro_rules! floats { ($($t:ident, $eps:expr, [$($v:expr),*];)*) => { $(impl Fld for $t {
    fn alphabet() -> Vec<$t> { vec![$($v),*] }
    fn lab(k: usize) -> $t { (k * 5 % 7) as $t - 2.0 }
    fn w(self) -> Wide { Wide::R(self as f64, (self as f64).abs()) }
    fn near(self, w: Wide) -> bool { matches!(w, Wide::R(x, m) if self == x as $t || (self as f64 - x).abs() <= $eps * m) }
    fn fits(w: Wide) -> bool { matches!(w, Wide::R(x, m) if m <= $t::MAX as f64 && m.is_finite() && (x == 0.0 || x.abs() >= $t::MIN_POSITIVE as f64)) }
})* } }
floats!(f64, 1e-13, [0.0, 1.0, 2.0, -1.5, f64::MAX / 2.0, 1e-290, -0.0, -1.0, 0.5]; f32, 1e-5, [0.0, 1.0, 2.0, -1.5, f32::MAX / 2.0, 1e-32, -1.0];);

// ------------------------------------------------------------------ representations
/// a lifted operand and the dense tensor it denotes
fn form<B: Kind>(c: &mut Ctl, shape: B::Shape, side: usize) -> (Spec<B>, T<B::Field>, String)
where
    B::Field: Fld,
    B::Shape: ShV,
{
    let dims = shape.dims();
    let al = B::Field::alphabet();
    let zero = B::Field::zero();
    let k = c.choose(2 * al.len() + 7);
    if k < al.len() {
        return (Spec::Full(shape, al[k]), T::build(&dims, |_| al[k]), format!("Full({:?})", al[k]));
    }
    if k < 2 * al.len() {
        let v = al[k - al.len()];
        return (Spec::Diagonal(shape, v), T::build(&dims, |ix| if is_diag(ix) { v } else { zero }), format!("Diagonal({:?})", v));
    }
    let p = k - 2 * al.len();
    let t = T::build(&dims, |ix| {
        let l = lin(&dims, ix);
        match p {
            0 => B::Field::lab(l + 3 * side + 1),
            1 => zero,
            2 => B::Field::one(),
            3 => if is_diag(ix) { B::Field::one() } else { zero },
            4 => if is_diag(ix) { B::Field::lab(l + side) } else { zero },
            5 => if is_diag(ix) { zero } else { al[2] },
            _ => if l == 0 { zero } else { al[2] },
        }
    });
    (Spec::Raw(B::of(&t)), t, ["Raw(labels)", "Raw(zeroes)", "Raw(ones)", "Raw(identity)", "Raw(diagonal)", "Raw(zero diagonal)", "Raw(mostly 2)"][p].to_string())
}
use num_traits::{One, Zero};

/// A context whose variables are lifted.
#[derive(Clone)]
struct L<A: Buffer, B: Buffer>(Spec<A>, Spec<B>);
impl<A: Buffer, B: Buffer> AsMut<L<A, B>> for L<A, B> {
    fn as_mut(&mut self) -> &mut Self { self }
}
impl<A: Buffer, B: Buffer> Context for L<A, B> {}
impl<A: Buffer, B: Buffer> Read<X> for L<A, B> {
    type Buffer = A;
    fn read(&self, _: X) -> Option<A> { Some(self.0.clone().unwrap()) }
    fn read_spec(&self, _: X) -> Option<Spec<A>> { Some(self.0.clone()) }
}
impl<A: Buffer, B: Buffer> Read<Y> for L<A, B> {
    type Buffer = B;
    fn read(&self, _: Y) -> Option<B> { Some(self.1.clone().unwrap()) }
    fn read_spec(&self, _: Y) -> Option<Spec<B>> { Some(self.1.clone()) }
}

fn short(g: &str) -> String { g.chars().take(160).collect() }

/// All the ways of evaluating one operator node.
macro_rules! routes {
    ($ctx:ty, $op:expr, $c:expr) => { {
        let op = $op;
        let ctx = $c;
        [
            ("evaluate", guarded(|| Function::<$ctx>::evaluate(&op, ctx.clone()).map(|r| (r.shape().dims(), r.t())).map_err(|_| "error".to_string()))),
            ("evaluate_spec", guarded(|| Function::<$ctx>::evaluate_spec(&op, ctx.clone()).map(|r| (r.shape().dims(), r.unwrap().t())).map_err(|_| "error".to_string()))),
        ]
    } }
}

fn judge<F: Fld>(c: &mut Ctl, name: &str, forms: &str, want: Option<T<Wide>>, got: Vec<(&'static str, Result<Result<(Vec<usize>, T<F>), String>, String>)>) {
    for (r, g) in got {
        c.step(1);
        let want = match &want {
            None => continue,
            Some(w) => w,
        };
        if want.data.iter().any(|w| !F::fits(*w)) {
            c.skipped();
            continue;
        }
        let ok = match &g {
            Ok(Ok((sh, t))) => t.dims == want.dims && *sh == want.dims && t.data.iter().zip(&want.data).all(|(a, w)| a.near(*w)),
            _ => false,
        };
        c.check(ok, || {
            let s = match &g {
                Ok(Ok((sh, t))) => format!("shape {:?}, {:?} {:?}", sh, t.dims, t.data),
                Ok(Err(e)) => format!("error {}", e),
                Err(p) => format!("panic: {}", p),
            };
            (format!("{} of {} by {}", name, forms.split('(').next().unwrap_or("") , r), format!("{} {} by {}: got {}, expected {:?}", name, forms, r, short(&s), want.data.iter().take(16).collect::<Vec<_>>()))
        });
    }
}

type Case = Box<dyn Fn(&mut Ctl) + Send + Sync>;

/// The operators that broadcast, on one pair of kinds.
macro_rules! bin_fn { ($name:ident, [$($bound:tt)*], $zip:expr, [$($op:ident $rf:ident),*]) => {
fn $name<A, B, OV, OS, OC, F>(c: &mut Ctl, sa: A::Shape, sb: B::Shape)
where
    F: Fld + Sgn $($bound)*,
    A: Kind<Field = F> + ZipMap<B, Output<F> = OV>,
    A::Shape: Broadcast<B::Shape, Shape = OV::Shape> + ShV,
    B: Kind<Field = F> + ZipMap<A, Output<F> = OV>,
    B::Shape: Broadcast<A::Shape, Shape = OV::Shape> + ShV,
    OS: Shape + ShV,
    OC: Class<OS, Buffer<F> = OV>,
    OV: Kind<Field = F, Class = OC, Shape = OS>,
{
    let ((xa, ta, na), (xb, tb, nb)) = (form::<A>(c, sa, 0), form::<B>(c, sb, 1));
    let forms = format!("{} and {}", na, nb);
    let kinds = format!("{} and {} <{}>", A::name(), B::name(), std::any::type_name::<F>());
    c.state((&forms, &kinds, stringify!($name), &ta.dims));
    c.desc(|| format!("{} {}", kinds, forms));
    let (wa, wb) = (ta.map(|x| x.w()), tb.map(|x| x.w()));
    let ctx = L(xa.clone(), xb.clone());
    let cls = format!("{} and {}", na.split('(').next().unwrap(), nb.split('(').next().unwrap());
    $( {
        let want = wa.zip(&wb, Wide::$rf).unwrap();
        let mut got: Vec<_> = routes!(L<A, B>, ops::$op(X.into_var(), Y.into_var()), &ctx).into_iter().collect();
        got.extend(routes!(L<A, B>, ops::$op(Constant(xa.clone()), Constant(xb.clone())), &ctx));
        judge::<F>(c, &format!("{} {} {}", stringify!($op), kinds, cls), &forms, Some(want), got);
    } )*
    if !$zip {
        return;
    }
    // the representation-level zip, with a function that moves zero and is not symmetric
    let want = wa.zip(&wb, |x, y| x.add(x).sub(y).add(F::one().w())).unwrap();
    let f = |x: F, y: F| { let d = x + x; if d.w().sub(y.w()).ge0() || F::signed() { d - y + F::one() } else { F::zero() } };
    if want.data.iter().all(|w| F::fits(*w)) && want.data.iter().all(|w| F::signed() || w.sub(F::one().w()).ge0()) && wa.data.iter().all(|w| F::fits(w.add(*w))) {
        let g = guarded(|| xa.clone().zip_map(&xb, f).map(|r| (r.shape().dims(), r.unwrap().t())).map_err(|_| "error".to_string()));
        judge::<F>(c, &format!("Spec::zip_map {} {}", kinds, cls), &forms, Some(want), vec![("zip_map", g)]);
    }
}
} }
bin_fn!(bin_pos, [], true, [Add add, Mul mul, Div div]);
bin_fn!(bin_sub, [+ std::ops::Neg<Output = F>], false, [Sub sub]);
trait Sgn {
    fn signed() -> bool;
}
macro_rules! sgn { ($($t:ty, $b:expr;)*) => { $(impl Sgn for $t { fn signed() -> bool { $b } })* } }
sgn!(u8, false; usize, false; i8, true; i32, true; i64, true; f32, true; f64, true;);
impl Wide {
    fn ge0(self) -> bool { matches!(self, Wide::I(x) if x >= 0) || matches!(self, Wide::R(..)) }
}

/// Functions that fix, move, forget, separate and discontinue at 0 and 1.
const MAPS: [(&str, fn(f64) -> f64); 16] = [
    ("x", |x| x),
    ("3 - x", |x| 3.0 - x),
    ("x + 1", |x| x + 1.0),
    ("x - 1", |x| x - 1.0),
    ("1 - x", |x| 1.0 - x),
    ("2 x", |x| 2.0 * x),
    ("-x", |x| -x),
    ("x x", |x| x * x),
    ("x (x - 1)", |x| x * (x - 1.0)),
    ("0", |_| 0.0),
    ("1", |_| 1.0),
    ("7", |_| 7.0),
    ("1 / x", |x| 1.0 / x),
    ("x == 0", |x| (x == 0.0) as u8 as f64),
    ("x != 1", |x| (x != 1.0) as u8 as f64),
    ("x < 0", |x| (x < 0.0) as u8 as f64),
];
const ZIPS: [(&str, fn(f64, f64) -> f64); 14] = [
    ("x", |x, _| x),
    ("y", |_, y| y),
    ("x + y", |x, y| x + y),
    ("x - y", |x, y| x - y),
    ("y - x", |x, y| y - x),
    ("x y", |x, y| x * y),
    ("x y + 1", |x, y| x * y + 1.0),
    ("x + y - 1", |x, y| x + y - 1.0),
    ("x (1 - y)", |x, y| x * (1.0 - y)),
    ("x > y", |x, y| (x > y) as u8 as f64),
    ("x == y", |x, y| (x == y) as u8 as f64),
    ("max", |x, y| if x > y { x } else { y }),
    ("0", |_, _| 0.0),
    ("4", |_, _| 4.0),
];
/// The representation-level zips, over f64.
fn zips<A, B, OV, OS, OC>(c: &mut Ctl, sa: A::Shape, sb: B::Shape)
where
    A: Kind<Field = f64> + ZipMap<B, Output<f64> = OV>,
    A::Shape: Broadcast<B::Shape, Shape = OV::Shape> + ShV,
    B: Kind<Field = f64> + ZipMap<A, Output<f64> = OV>,
    B::Shape: Broadcast<A::Shape, Shape = OV::Shape> + ShV,
    OS: Shape + ShV,
    OC: Class<OS, Buffer<f64> = OV>,
    OV: Kind<Field = f64, Class = OC, Shape = OS>,
{
    let ((xa, ta, na), (xb, tb, nb)) = (form::<A>(c, sa, 0), form::<B>(c, sb, 1));
    let forms = format!("{} and {}", na, nb);
    let kinds = format!("{} and {}", A::name(), B::name());
    c.state((&forms, &kinds, &ta.dims));
    c.desc(|| format!("{} {}", kinds, forms));
    let cls = format!("{} and {}", na.split('(').next().unwrap(), nb.split('(').next().unwrap());
    for (n, f) in ZIPS {
        let want = ta.zip(&tb, f).unwrap();
        let g = guarded(|| xa.clone().zip_map(&xb, f).map(|m| (m.shape().dims(), m.unwrap().t())).map_err(|_| "error".to_string()));
        c.step(1);
        let ok = matches!(&g, Ok(Ok((sh, t))) if *sh == want.dims && t.dims == want.dims && t.data.iter().zip(&want.data).all(|(a, b)| same(*a, *b)));
        c.check(ok, || (format!("Spec::zip_map({}) of {} {}", n, kinds, cls), format!("{}: got {}, expected {:?}", forms, short(&format!("{:?}", g)), short(&format!("{:?}", want.data)))));
    }
}

/// Unary operators: the dense result is defined by the operator on a dense scalar.
fn same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
macro_rules! unary_fn { ([$($op:path),* $(,)?]) => {
fn unary<A>(c: &mut Ctl, s: A::Shape)
where
    A: Kind<Field = f64>,
    A::Shape: ShV,
    <A::Class as Class<A::Shape>>::Buffer<f64>: Kind<Field = f64>,
    ShapeOf<<A::Class as Class<A::Shape>>::Buffer<f64>>: ShV,
{
    let (xa, ta, na) = form::<A>(c, s, 0);
    let kind = A::name();
    c.state((&na, &kind, &ta.dims));
    c.desc(|| format!("{} {}", kind, na));
    let cls = na.split('(').next().unwrap();
    let ctx = L(xa.clone(), Spec::Raw(0.0f64));
    $( {
        // element by element, on dense scalars
        let el = |x: f64| -> Result<f64, String> { guarded(|| Function::<L<f64, f64>>::evaluate(&$op(X.into_var()), L(Spec::Raw(x), Spec::Raw(0.0))).unwrap()) };
        let want: Result<Vec<f64>, String> = ta.data.iter().map(|x| el(*x)).collect();
        let mut got: Vec<_> = routes!(L<A, f64>, $op(X.into_var()), &ctx).into_iter().collect();
        got.extend(routes!(L<A, f64>, $op(Constant(xa.clone())), &ctx));
        for (r, g) in got {
            c.step(1);
            let ok = match (&g, &want) {
                (Ok(Ok((sh, t))), Ok(w)) => *sh == ta.dims && t.dims == ta.dims && t.data.iter().zip(w).all(|(a, b)| same(*a, *b)),
                (Err(_), Err(_)) => true,
                _ => false,
            };
            c.check(ok, || (format!("{} of {} {} by {}", stringify!($op), kind, cls, r), format!("{}: got {}, expected {:?}", na, short(&format!("{:?}", g)), want)));
        }
    } )*
    // representation-level map
    for (n, f) in MAPS {
        let want = ta.map(f);
        let g = guarded(|| { let m = xa.clone().map(f); (m.shape().dims(), m.unwrap().t()) });
        c.step(1);
        let ok = matches!(&g, Ok((sh, t)) if *sh == ta.dims && t.dims == ta.dims && t.data.iter().zip(&want.data).all(|(a, b)| same(*a, *b)));
        c.check(ok, || (format!("Spec::map({}) of {} {}", n, kind, cls), format!("{}: got {}, expected {:?}", na, short(&format!("{:?}", g)), short(&format!("{:?}", want.data)))));
    }
    let g = guarded(|| Ok((xa.shape().dims(), xa.clone().unwrap().t())));
    judge::<f64>(c, &format!("Spec::unwrap of {} {}", kind, cls), &na, Some(ta.map(|x| x.w())), vec![("unwrap", g)]);
}
} }
unary_fn!([
    ops::SubOne, ops::OneSub, ops::AddOne, ops::Square, ops::Double, ops::Negate, ops::Dirac, ops::Sign, ops::Abs, ops::Ln, ops::XLnX, ops::Exp, ops::Rabbit, ops::Sigmoid,
    ops::special::Gamma, ops::special::DiGamma, ops::special::LogGamma, ops::special::Erf,
    ops::trig::Cos, ops::trig::Cosh, ops::trig::ArcCos, ops::trig::ArcCosh, ops::trig::Sin, ops::trig::Sinh, ops::trig::ArcSin, ops::trig::ArcSinh, ops::trig::Tan, ops::trig::Tanh, ops::trig::ArcTan, ops::trig::ArcTanh,
]);
// exact sums for every field
fn sum<A, F>(c: &mut Ctl, s: A::Shape)
where
    F: Fld,
    A: Kind<Field = F>,
    A::Shape: ShV,
{
    let (xa, ta, na) = form::<A>(c, s, 0);
    c.state((&na, A::name(), &ta.dims, std::any::type_name::<F>()));
    c.desc(|| format!("sum of {} {}", A::name(), na));
    let ctx = L(xa.clone(), Spec::Raw(0.0f64));
    // the dense sum must be computable: no partial sum out of range
    let mut acc = F::zero().w();
    let mut parts = true;
    for x in &ta.data {
        acc = acc.add(x.w());
        parts &= F::fits(acc);
    }
    if !parts {
        return c.skipped();
    }
    let mut got: Vec<_> = routes!(L<A, f64>, ops::Sum(X.into_var()), &ctx).into_iter().collect();
    got.extend(routes!(L<A, f64>, ops::Sum(Constant(xa.clone())), &ctx));
    judge::<F>(c, &format!("Sum of {} <{}> {}", A::name(), std::any::type_name::<F>(), na.split('(').next().unwrap()), &na, Some(T::scalar(acc)), got);
}

fn contraction<const AX: usize, A, B, F>(c: &mut Ctl, sa: A::Shape, sb: B::Shape)
where
    F: Fld,
    A: Kind<Field = F> + Contract<B, AX>,
    B: Kind<Field = F>,
    A::Output: Kind<Field = F>,
    A::Shape: ShV,
    B::Shape: ShV,
    ShapeOf<A::Output>: ShV,
{
    let (da, db) = (sa.dims(), sb.dims());
    let ((xa, ta, na), (xb, tb, nb)) = (form::<A>(c, sa, 0), form::<B>(c, sb, 1));
    let forms = format!("{} and {}", na, nb);
    let name = format!("contract<{}> {:?} {:?} <{}> {} and {}", AX, da, db, std::any::type_name::<F>(), na.split('(').next().unwrap(), nb.split('(').next().unwrap());
    c.state((&name, &forms));
    c.desc(|| format!("{} {}", name, forms));
    let nonsquare = AX == 1 && da.len() == 2 && db.len() == 1 && da[0] != da[1];
    let (wa, wb) = (ta.map(|x| x.w()), tb.map(|x| x.w()));
    let z = F::zero().w();
    let want = if nonsquare { con::mat_vec_by_type(&wa, &wb, z, Wide::add, Wide::mul) } else { con::contract(AX, &wa, &wb, z, Wide::add, Wide::mul) };
    // an empty sum of products that would themselves overflow says nothing about the entries
    let top = |x: &Spec<A>| match x { Spec::Full(_, f) | Spec::Diagonal(_, f) => *f, _ => F::one() };
    let top_b = |x: &Spec<B>| match x { Spec::Full(_, f) | Spec::Diagonal(_, f) => *f, _ => F::one() };
    if !F::fits(top(&xa).w().mul(top_b(&xb).w())) {
        return c.skipped();
    }
    let dense = || guarded(|| Contract::<B, AX>::contract(A::of(&ta), B::of(&tb)).map(|r| r.t()).map_err(|e| format!("{:?}", e)));
    let ctx = L(xa.clone(), xb.clone());
    let mut got = vec![("contract_spec", guarded(|| buffers::contract_spec::<AX, A, B>(xa.clone(), xb.clone()).map(|r| (r.shape().dims(), r.unwrap().t())).map_err(|e| format!("{:?}", e))))];
    let op: ops::Contract<AX, _, _> = ops::Contract(X.into_var(), Y.into_var());
    got.extend(routes!(L<A, B>, op, &ctx));
    let op: ops::Contract<AX, _, _> = ops::Contract(Constant(xa.clone()), Constant(xb.clone()));
    got.extend(routes!(L<A, B>, op, &ctx));
    if nonsquare {
        // the dense product itself is the recorded finding K01 of C05: lifting must not change it
        let d = dense();
        got.retain(|(_, g)| match (g, &d) {
            (Err(_), Err(_)) => false,
            (Ok(Ok((sh, t))), Ok(Ok(d))) => !(t == d && *sh == d.dims),
            _ => true,
        });
        c.step(1);
    }
    judge::<F>(c, &name, &forms, Some(want), got);
}

// powers: scalars only
fn power<F>(c: &mut Ctl, al: &[F])
where
    F: Fld + num_traits::Pow<F, Output = F> + Into<f64>,
{
    let (b, e) = (*c.pick(al), *c.pick(al));
    let (fb, fe) = (c.choose(3), c.choose(3));
    let mk = |v: F, k: usize| match k {
        0 => Spec::Raw(v),
        1 => Spec::Full(S0, v),
        _ => Spec::Diagonal(S0, v),
    };
    let (xa, xb) = (mk(b, fb), mk(e, fe));
    let names = ["Raw", "Full", "Diagonal"];
    let what = format!("Power of {} and {}", names[fb], names[fe]);
    c.state((&what, format!("{:?}^{:?}", b, e)));
    c.desc(|| format!("{} {:?}^{:?}", what, b, e));
    // the dense value: the operator's definition
    let want = b.pow(e);
    let ctx = L(xa.clone(), xb.clone());
    let mut got: Vec<_> = routes!(L<F, F>, ops::Power(X.into_var(), Y.into_var()), &ctx).into_iter().collect();
    got.extend(routes!(L<F, F>, ops::Power(Constant(xa.clone()), Constant(xb.clone())), &ctx));
    for (r, g) in got {
        c.step(1);
        let ok = match &g {
            Ok(Ok((sh, t))) => sh.is_empty() && (t.data[0] == want || same(t.data[0].into(), want.into())),
            _ => false,
        };
        c.check(ok, || (format!("{} by {}", what, r), format!("{:?}^{:?}: got {}, expected {:?}", b, e, short(&format!("{:?}", g)), want)));
    }
}

fn main() {
    let mut k = Check::new("C06");
    let th = k.thorough();
    k.assume("finite entries; executions whose dense result leaves the field's range are outside the domain");
    k.assume("inductive over expressions: every operator is checked on every representation of its operands, and every intermediate result is again one of the representations");
    // ---- broadcasting operators
    let mut l: Vec<Case> = vec![];
    macro_rules! ops_uns { ($l:ident, $F:ty, $A:ty, $B:ty, $sa:expr, $sb:expr) => { $l.push(Box::new(|c| bin_pos::<$A, $B, _, _, _, $F>(c, $sa, $sb))); } }
    macro_rules! ops_all { ($l:ident, $F:ty, $A:ty, $B:ty, $sa:expr, $sb:expr) => { ops_uns!($l, $F, $A, $B, $sa, $sb); $l.push(Box::new(|c| bin_sub::<$A, $B, _, _, _, $F>(c, $sa, $sb))); } }
    macro_rules! kind { ($m:ident, $F:ty, $A:ty, $s:expr) => { $m!(l, $F, $A, $A, $s, $s); $m!(l, $F, $A, $F, $s, S0); $m!(l, $F, $F, $A, S0, $s); } }
    ops_all!(l, f64, f64, f64, S0, S0);
    ops_all!(l, f32, f32, f32, S0, S0);
    ops_all!(l, i32, i32, i32, S0, S0);
    ops_all!(l, i64, i64, i64, S0, S0);
    ops_uns!(l, u8, u8, u8, S0, S0);
    ops_all!(l, f64, (f64, f64), (f64, f64), S1, S1);
    ops_all!(l, i32, (i32, i32), (i32, i32), S1, S1);
    ops_all!(l, f32, (f32, f32), (f32, f32), S1, S1);
    macro_rules! r1 { ($F:ty; $($n:literal)*) => { $( kind!(ops_all, $F, [$F; $n], S1); )* } }
    r1!(f64; 0 1 2 3 4 5 7 8 9 16 17 33 64 100 129);
    r1!(i64; 1 3);
    r1!(f32; 2 5);
    kind!(ops_uns, u8, [u8; 3], S1);
    macro_rules! r2 { ($F:ty; $($a:literal $b:literal),*) => { $( kind!(ops_all, $F, [[$F; $b]; $a], S2); )* } }
    r2!(f64; 0 1, 1 0, 1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 4 2, 2 5, 7 3, 9 16);
    r2!(i32; 2 2, 3 2);
    macro_rules! r3 { ($($a:literal $b:literal $c:literal),*) => { $( kind!(ops_all, f64, [[[f64; $c]; $b]; $a], S3); )* } }
    r3!(1 1 1, 2 2 2, 1 2 3, 3 2 1, 2 3 4, 3 3 3);
    kind!(ops_all, f64, [[[[f64; 2]; 2]; 2]; 2], S4);
    kind!(ops_all, f64, [[[[f64; 1]; 3]; 2]; 2], S4);
    kind!(ops_all, f64, [[[[[f64; 2]; 1]; 2]; 2]; 2], S5);
    kind!(ops_all, f64, [[[[[f64; 2]; 2]; 2]; 2]; 2], S5);
    // run-time sizes
    macro_rules! vecs { ($($n:literal)*) => { $( kind!(ops_all, f64, Vec<f64>, SDynamic([$n])); )* } }
    vecs!(0 1 2 3 4 7 8 9 16 17 33 64 100 129 257);
    kind!(ops_all, i64, Vec<i64>, SDynamic([3]));
    let n = l.len();
    k.suite("broadcast", format!("{} operand kind pairs x every pair of representations (Full, Diagonal over the field's alphabet, 7 dense contents) x Add, Sub, Mul, Div, Spec::zip_map", n), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    // ---- representation-level zips
    let mut l: Vec<Case> = vec![];
    macro_rules! zip { ($l:ident, $F:ty, $A:ty, $B:ty, $sa:expr, $sb:expr) => { $l.push(Box::new(|c| zips::<$A, $B, _, _, _>(c, $sa, $sb))); } }
    macro_rules! kind { ($m:ident, $F:ty, $A:ty, $s:expr) => { $m!(l, $F, $A, $A, $s, $s); $m!(l, $F, $A, $F, $s, S0); $m!(l, $F, $F, $A, S0, $s); } }
    zip!(l, f64, f64, f64, S0, S0);
    zip!(l, f64, (f64, f64), (f64, f64), S1, S1);
    kind!(zip, f64, [f64; 0], S1);
    kind!(zip, f64, [f64; 1], S1);
    kind!(zip, f64, [f64; 3], S1);
    kind!(zip, f64, [f64; 33], S1);
    kind!(zip, f64, [[f64; 1]; 1], S2);
    kind!(zip, f64, [[f64; 2]; 2], S2);
    kind!(zip, f64, [[f64; 3]; 2], S2);
    kind!(zip, f64, [[[f64; 2]; 2]; 2], S3);
    kind!(zip, f64, [[[[f64; 1]; 3]; 2]; 2], S4);
    kind!(zip, f64, Vec<f64>, SDynamic([1]));
    kind!(zip, f64, Vec<f64>, SDynamic([4]));
    let n = l.len();
    k.suite("zip_map", format!("Spec::zip_map with {} functions over {} kind pairs x every pair of representations", ZIPS.len(), n), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    // ---- unary operators
    let mut l: Vec<Case> = vec![];
    macro_rules! un { ($A:ty, $s:expr) => { l.push(Box::new(|c| unary::<$A>(c, $s))); } }
    un!(f64, S0);
    un!((f64, f64), S1);
    un!([f64; 0], S1);
    un!([f64; 1], S1);
    un!([f64; 3], S1);
    un!([f64; 33], S1);
    un!([[f64; 2]; 2], S2);
    un!([[f64; 3]; 2], S2);
    un!([[f64; 1]; 3], S2);
    un!([[f64; 9]; 9], S2);
    un!([[[f64; 2]; 2]; 2], S3);
    un!([[[[f64; 2]; 1]; 2]; 3], S4);
    un!([[[[[f64; 2]; 2]; 2]; 1]; 2], S5);
    un!(Vec<f64>, SDynamic([0]));
    un!(Vec<f64>, SDynamic([1]));
    un!(Vec<f64>, SDynamic([4]));
    un!(Vec<f64>, SDynamic([40]));
    let n = l.len();
    k.suite("unary", format!("30 element-wise operators, Sum, Spec::map with 16 functions, Spec::unwrap on {} kinds x every representation", n), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    // ---- sums
    let mut l: Vec<Case> = vec![];
    macro_rules! sum_case { ($l:ident, $F:ty, $A:ty, $s:expr) => { $l.push(Box::new(|c| sum::<$A, $F>(c, $s))); } }
    macro_rules! sums { ($($F:ty),*) => { $(
        sum_case!(l, $F, $F, S0); sum_case!(l, $F, ($F, $F), S1); sum_case!(l, $F, [$F; 0], S1); sum_case!(l, $F, [$F; 3], S1); sum_case!(l, $F, [$F; 40], S1); sum_case!(l, $F, [$F; 128], S1);
        sum_case!(l, $F, [$F; 300], S1); sum_case!(l, $F, [[$F; 3]; 2], S2); sum_case!(l, $F, [[$F; 16]; 16], S2); sum_case!(l, $F, [[[$F; 3]; 2]; 2], S3); sum_case!(l, $F, Vec<$F>, SDynamic([200])); sum_case!(l, $F, Vec<$F>, SDynamic([0]));
    )* } }
    sums!(f64, f32, i64, i32, u8, i8, usize);
    let n = l.len();
    k.suite("sum", format!("Sum over {} (kind, field) pairs x every representation", n), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    // ---- contractions
    macro_rules! cons { ($F:ty) => { {
        let mut l: Vec<Case> = vec![];
        macro_rules! one { ($ax:literal, $A:ty, $B:ty, $sa:expr, $sb:expr) => { l.push(Box::new(|c| contraction::<$ax, $A, $B, $F>(c, $sa, $sb))); } }
        contraction_cases!(one, $F);
        mat_vec_nonsquare!(one, $F);
        one!(1, [$F; 300], [$F; 300], S1, S1);
        one!(1, [[$F; 300]; 1], [[$F; 1]; 300], S2, S2);
        one!(1, [$F; 129], [$F; 129], S1, S1);
        let n = l.len();
        k.suite(concat!("contract ", stringify!($F)), format!("{} operand shape pairs x every pair of representations", n), move |c| {
            let i = c.choose(l.len());
            l[i](c)
        });
    } } }
    cons!(f64);
    cons!(i64);
    if th { cons!(f32); }
    cons!(u8);
    // ---- powers
    k.suite("power", "every pair of 12 floating point values x every pair of representations", |c| {
        power::<f64>(c, &[0.0, -0.0, 1.0, 2.0, -1.0, -2.0, 3.0, 0.5, -0.5, -1.5, 1e-3, 40.0])
    });
    k.suite("power f32", "as above over f32", |c| power::<f32>(c, &[0.0, 1.0, 2.0, -1.0, -2.0, 3.0, 0.5, -0.5]));
    k.run()
}
