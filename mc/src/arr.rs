//! Expressions over array, tuple and scalar buffers of mixed rank, of arbitrary form, over the
//! real operator types; operands are erased per buffer type ("sort").  A `world!` fixes the types
//! of the variables x and y, the sorts, and which operator is typed on which sorts; differentiation
//! is by x, so a sort comes with the type of its derivative.
#![allow(dead_code, unreachable_patterns)]
use aegir::{
    buffers::{
        shapes::{ShapeOf, Shaped},
        Buffer, Spec,
    },
    ids::{X, Y},
    AegirResult, Context, Differentiable, Function, Node, Read,
};
pub use mc_core::{con, engine::*, tens::*};
use mc_era::refr::{self, Mg, Rf};
use mc_era::vecs::{IntoV, VErr, VRes};
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------ contexts
#[derive(Clone, Debug)]
pub struct Two<A: Buffer, B: Buffer> {
    pub x: A,
    pub y: B,
    pub form: [u8; 2],
}
impl<A: Buffer, B: Buffer> AsMut<Two<A, B>> for Two<A, B> {
    fn as_mut(&mut self) -> &mut Self { self }
}
impl<A: Buffer, B: Buffer> Context for Two<A, B> {}
fn lift<A: Kind<Field = f64>>(a: &A, form: u8) -> Spec<A> {
    let v = a.t().data.first().copied().unwrap_or(0.0);
    match form {
        0 => Spec::Raw(a.clone()),
        1 => Spec::Full(a.shape(), v),
        _ => Spec::Diagonal(a.shape(), v),
    }
}
impl<A: Kind<Field = f64>, B: Kind<Field = f64>> Read<X> for Two<A, B> {
    type Buffer = A;
    fn read(&self, _: X) -> Option<A> { Some(self.x.clone()) }
    fn read_spec(&self, _: X) -> Option<Spec<A>> { Some(lift(&self.x, self.form[0])) }
}
impl<A: Kind<Field = f64>, B: Kind<Field = f64>> Read<Y> for Two<A, B> {
    type Buffer = B;
    fn read(&self, _: Y) -> Option<B> { Some(self.y.clone()) }
    fn read_spec(&self, _: Y) -> Option<Spec<B>> { Some(lift(&self.y, self.form[1])) }
}
/// The entries of a variable or constant: all different, or what its representation says.
pub fn entries(dims: &[usize], seed: usize, form: u8, zero: bool) -> T<f64> {
    const P: [f64; 13] = [0.3, 0.8, 0.55, 0.2, 0.7, 0.45, 0.9, 0.35, 0.6, 0.25, 0.75, 0.4, 0.65];
    let c = if zero { 0.0 } else { P[seed % 13] };
    T::build(dims, |ix| match form {
        0 => P[(lin(dims, ix) * (seed + 1) + seed) % 13] + 0.01 * lin(dims, ix) as f64,
        1 => c,
        _ => if is_diag(ix) { c } else { 0.0 },
    })
}

// ------------------------------------------------------------------ erasure
pub trait NF<C: Context, B: Buffer> {
    fn ev(&self, e: &mut C) -> VRes<B>;
    fn sp(&self, e: &mut C) -> VRes<Spec<B>>;
    fn sh(&self, e: &mut C) -> VRes<ShapeOf<B>>;
}
impl<C: Context, B: Buffer, N: Function<C, Value = B>> NF<C, B> for N
where N::Error: IntoV
{
    fn ev(&self, e: &mut C) -> VRes<B> { self.evaluate(e).map_err(IntoV::v) }
    fn sp(&self, e: &mut C) -> VRes<Spec<B>> { self.evaluate_spec(e).map_err(IntoV::v) }
    fn sh(&self, e: &mut C) -> VRes<ShapeOf<B>> { self.evaluate_shape(e).map_err(IntoV::v) }
}
pub struct F<C, B>(pub Rc<dyn NF<C, B>>);
pub trait ND<C: Context, B: Buffer, DX: Buffer>: NF<C, B> {
    fn ax(&self) -> F<C, DX>;
}
impl<C: Context + 'static, B: Buffer, DX: Buffer, N: NF<C, B> + Differentiable<X>> ND<C, B, DX> for N
where N::Adjoint: NF<C, DX> + 'static
{
    fn ax(&self) -> F<C, DX> { F(Rc::new(self.adjoint(X))) }
}
pub struct D<C, B, DX>(pub Rc<dyn ND<C, B, DX>>);
impl<C: Context, B: Buffer, DX: Buffer> D<C, B, DX> {
    pub fn new(n: impl ND<C, B, DX> + 'static) -> Self { D(Rc::new(n)) }
}
impl<C, B, DX> Clone for D<C, B, DX> {
    fn clone(&self) -> Self { D(self.0.clone()) }
}
impl<C, B> Node for F<C, B> {}
impl<C, B, DX> Node for D<C, B, DX> {}
impl<C: Context, B: Buffer> Function<C> for F<C, B> {
    type Value = B;
    type Error = VErr;
    fn evaluate<CR: AsMut<C>>(&self, mut c: CR) -> AegirResult<Self, C> { self.0.ev(c.as_mut()) }
    fn evaluate_spec<CR: AsMut<C>>(&self, mut c: CR) -> VRes<Spec<B>> { self.0.sp(c.as_mut()) }
    fn evaluate_shape<CR: AsMut<C>>(&self, mut c: CR) -> VRes<ShapeOf<B>> { self.0.sh(c.as_mut()) }
}
impl<C: Context, B: Buffer, DX: Buffer> Function<C> for D<C, B, DX> {
    type Value = B;
    type Error = VErr;
    fn evaluate<CR: AsMut<C>>(&self, mut c: CR) -> AegirResult<Self, C> { self.0.ev(c.as_mut()) }
    fn evaluate_spec<CR: AsMut<C>>(&self, mut c: CR) -> VRes<Spec<B>> { self.0.sp(c.as_mut()) }
    fn evaluate_shape<CR: AsMut<C>>(&self, mut c: CR) -> VRes<ShapeOf<B>> { self.0.sh(c.as_mut()) }
}
impl<C: Context, B: Buffer, DX: Buffer> Differentiable<X> for D<C, B, DX> {
    type Adjoint = F<C, DX>;
    fn adjoint(&self, _: X) -> F<C, DX> { self.0.ax() }
}

// ------------------------------------------------------------------ expressions
pub const LIN: [&str; 5] = ["Negate", "Double", "AddOne", "SubOne", "OneSub"];
pub const NON: [&str; 13] = ["Square", "Exp", "Sigmoid", "Abs", "Sin", "Cos", "Ln", "XLnX", "Rabbit", "Sign", "Gamma", "LogGamma", "Factorial"];
pub const BI: [&str; 5] = ["Add", "Sub", "Mul", "Div", "Power"];
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum At {
    X,
    Y,
    /// the constant of a sort
    K(u8),
    Lin(u8, Arc<At>),
    Non(u8, Arc<At>),
    Bi(u8, Arc<At>, Arc<At>),
    Con(u8, Arc<At>, Arc<At>),
    Sum(Arc<At>),
}
impl At {
    pub fn text(&self, w: &dyn World) -> String {
        match self {
            At::X => "x".into(),
            At::Y => "y".into(),
            At::K(s) => format!("const{:?}", w.dims(*s)),
            At::Lin(o, t) => format!("{}({})", LIN[*o as usize], t.text(w)),
            At::Non(o, t) => format!("{}({})", NON[*o as usize], t.text(w)),
            At::Bi(o, l, r) => format!("{}({}, {})", BI[*o as usize], l.text(w), r.text(w)),
            At::Con(a, l, r) => format!("Contract<{}>({}, {})", a, l.text(w), r.text(w)),
            At::Sum(t) => format!("Sum({})", t.text(w)),
        }
    }
    pub fn name(&self) -> String {
        match self {
            At::X => "x".into(),
            At::Y => "y".into(),
            At::K(_) => "constant".into(),
            At::Lin(o, _) => LIN[*o as usize].into(),
            At::Non(o, _) => NON[*o as usize].into(),
            At::Bi(o, ..) => BI[*o as usize].into(),
            At::Con(a, ..) => format!("Contract<{}>", a),
            At::Sum(_) => "Sum".into(),
        }
    }
}

/// Forward-mode reference: value, derivative by every entry of x, and what the implementation's
/// recorded defects make of the derivative (None: it panics).
#[derive(Clone, Debug)]
pub struct Rv {
    pub val: T<Mg>,
    pub tan: Vec<T<Mg>>,
    pub alt: Option<Vec<T<Mg>>>,
    /// a recorded defect is involved
    pub site: bool,
}
fn m(x: f64) -> Mg { Mg::k(x) }
fn madd(a: Mg, b: Mg) -> Mg { a.add(b) }
fn mmul(a: Mg, b: Mg) -> Mg { a.mul(b) }
fn z(a: &T<Mg>, b: &T<Mg>, f: impl Fn(Mg, Mg) -> Mg) -> T<Mg> { a.zip(b, f).expect("HARNESS: zip") }
/// derivatives by every entry of the target, as one tensor value ++ target
pub fn join(tan: &[T<Mg>], target: &[usize], dims: &[usize]) -> T<Mg> {
    let r = dims.len();
    let mut d = dims.to_vec();
    d.extend(target);
    T::build(&d, |ix| tan[lin(target, &ix[r..])].at(&ix[..r]))
}
fn split(t: &T<Mg>, target: &[usize]) -> Vec<T<Mg>> {
    let r = t.dims.len() - target.len();
    rows(target).iter().map(|j| T::build(&t.dims[..r], |i| t.at(&[i, j].concat()))).collect()
}
pub fn eval(t: &At, w: &dyn World, x: &T<f64>, y: &T<f64>) -> Rv {
    let n = x.data.len();
    let up = |t: &T<f64>| t.map(m);
    let con = |val: T<Mg>| {
        let zero = vec![val.map(|_| m(0.0)); n];
        Rv { val, tan: zero.clone(), alt: Some(zero), site: false }
    };
    let go = |a: &At| eval(a, w, x, y);
    match t {
        At::X => {
            let tan: Vec<T<Mg>> = rows(&x.dims).iter().map(|j| T::build(&x.dims, |i| m((i == &j[..]) as u8 as f64))).collect();
            Rv { val: up(x), alt: Some(tan.clone()), tan, site: false }
        },
        At::Y => con(up(y)),
        At::K(s) => con(up(&konst(*s, w))),
        At::Lin(..) | At::Non(..) => {
            let (name, a) = match t {
                At::Lin(o, a) => (LIN[*o as usize], a),
                At::Non(o, a) => (NON[*o as usize], a),
                _ => unreachable!(),
            };
            let a = go(a);
            let tree = mc_era::ast::u(name, mc_era::ast::x());
            let f = a.val.map(|v| refr::eval(&tree, &[refr::D { v, d: m(1.0) }]));
            let mul = |ts: &Vec<T<Mg>>| ts.iter().map(|t| f.zip(t, |f, t| f.d.mul(t)).unwrap()).collect::<Vec<_>>();
            Rv { val: f.map(|f| f.v), tan: mul(&a.tan), alt: a.alt.as_ref().map(mul), site: a.site }
        },
        At::Bi(o, l, r) => {
            let (a, b) = (go(l), go(r));
            let val = z(&a.val, &b.val, |p, q| match o {
                0 => p.add(q),
                1 => p.sub(q),
                2 => p.mul(q),
                3 => p.div(q),
                _ => power(p, q).0,
            });
            let one = |da: &T<Mg>, db: &T<Mg>| match o {
                0 => z(da, db, madd),
                1 => z(da, db, |p, q| p.sub(q)),
                2 => z(&z(da, &b.val, mmul), &z(&a.val, db, mmul), madd),
                3 => {
                    let num = z(&z(da, &b.val, mmul), &z(&a.val, db, mmul), |p, q| p.sub(q));
                    z(&num, &b.val.map(|q| q.mul(q)), |p, q| p.div(q))
                },
                _ => {
                    let (_, da_, db_) = power(a.val.data[0], b.val.data[0]);
                    T::scalar(da_.mul(da.data[0]).add(db_.mul(db.data[0])))
                },
            };
            let all = |p: &Vec<T<Mg>>, q: &Vec<T<Mg>>| p.iter().zip(q).map(|(p, q)| one(p, q)).collect::<Vec<_>>();
            let alt = match (&a.alt, &b.alt) {
                (Some(p), Some(q)) => Some(all(p, q)),
                _ => None,
            };
            Rv { tan: all(&a.tan, &b.tan), alt, site: a.site || b.site, val }
        },
        At::Con(ax, l, r) => {
            let (a, b) = (go(l), go(r));
            let c = |p: &T<Mg>, q: &T<Mg>| con::contract(*ax as usize, p, q, m(0.0), madd, mmul);
            let val = c(&a.val, &b.val);
            let tan: Vec<T<Mg>> = a.tan.iter().zip(&b.tan).map(|(da, db)| z(&c(da, &b.val), &c(&a.val, db), madd)).collect();
            let (ra, rb, tr) = (a.val.dims.len(), b.val.dims.len(), x.dims.len());
            // d(l . r) is implemented as l . dr + dl . r with the axes of dl as they are: the
            // target axes of dl end up where the axes of l should be
            let wrong = tr == 1 && ((*ax == 1 && ra == 1 && rb == 1) || (*ax == 0 && ra == 0 && rb == 1));
            if !wrong {
                let alt = match (&a.alt, &b.alt) {
                    (Some(p), Some(q)) => Some(p.iter().zip(q).map(|(da, db)| z(&c(da, &b.val), &c(&a.val, db), madd)).collect()),
                    _ => None,
                };
                return Rv { val, tan, alt, site: a.site || b.site };
            }
            let alt = match (&a.alt, &b.alt) {
                (Some(p), Some(q)) => {
                    let (dl, dr) = (join(p, &x.dims, &a.val.dims), join(q, &x.dims, &b.val.dims));
                    let right = if *ax == 1 {
                        // [[F; M]; N] . [F; N] -> [F; M]
                        let (n, k) = (dl.dims[0], dl.dims[1]);
                        if dl.data.iter().all(|v| v.v == 0.0) {
                            Some(T::build(&[k], |_| m(0.0)))
                        } else if k > n {
                            None
                        } else {
                            Some(T::build(&[k], |i| (0..k).fold(m(0.0), |s, j| s.add(dl.at(&[i[0], j]).mul(b.val.at(&[j]))))))
                        }
                    } else {
                        Some(con::contract(0, &dl, &b.val, m(0.0), madd, mmul))
                    };
                    let left = con::contract(*ax as usize, &a.val, &dr, m(0.0), madd, mmul);
                    right.map(|r| split(&z(&left, &r, madd), &x.dims))
                },
                _ => None,
            };
            Rv { val, tan, alt, site: true }
        },
        At::Sum(a) => {
            let a = go(a);
            let s = |t: &T<Mg>| T::scalar(t.data.iter().copied().fold(m(0.0), madd));
            Rv { val: s(&a.val), tan: a.tan.iter().map(s).collect(), alt: a.alt.as_ref().map(|v| v.iter().map(s).collect()), site: a.site }
        },
    }
}
/// value and both partial derivatives
fn power(p: Mg, q: Mg) -> (Mg, Mg, Mg) {
    let t = mc_era::ast::b("Power", mc_era::ast::x(), mc_era::ast::y());
    let at = |dp: f64, dq: f64| refr::eval(&t, &[refr::D { v: p, d: m(dp) }, refr::D { v: q, d: m(dq) }]);
    let (a, b) = (at(1.0, 0.0), at(0.0, 1.0));
    (a.v, a.d, b.d)
}
pub fn konst(s: u8, w: &dyn World) -> T<f64> { entries(&w.dims(s), 5 + 2 * s as usize, 0, false) }

/// What the real nodes answer, flattened.
#[derive(Clone, Debug)]
pub struct Got {
    pub ev: VRes<T<f64>>,
    /// dims of the lifted value, dims of its dense form, data of its dense form
    pub sp: VRes<(Vec<usize>, T<f64>)>,
    pub sh: VRes<Vec<usize>>,
}
pub fn ask<C: Context + Clone, B: Kind<Field = f64>>(n: &dyn NF<C, B>, c: &C) -> Got
where B::Shape: ShV {
    Got {
        ev: n.ev(&mut c.clone()).map(|b| b.t()),
        sp: n.sp(&mut c.clone()).map(|s| {
            let d = s.shape().dims();
            (d, s.unwrap().t())
        }),
        sh: n.sh(&mut c.clone()).map(|s| s.dims()),
    }
}

pub trait World: Sync {
    fn name(&self) -> String;
    fn sorts(&self) -> usize;
    fn dims(&self, s: u8) -> Vec<usize>;
    /// sort (if the variable can be differentiated) and dimensions
    fn x(&self) -> (Option<u8>, Vec<usize>);
    fn y(&self) -> (Option<u8>, Vec<usize>);
    fn lin(&self, s: u8) -> bool;
    fn non(&self, s: u8) -> bool;
    /// 0: Add/Sub, 1: Mul/Div, 2: Power
    fn bi(&self, k: u8, l: u8, r: u8) -> Option<u8>;
    fn con(&self, axes: u8, l: u8, r: u8) -> Option<u8>;
    /// build the node and ask for (its value, its derivative by x); panics are Err
    fn run(&self, t: &At, form: [u8; 2], zero: bool) -> (Result<Got, String>, Result<Got, String>);
}
/// All well-typed expressions: leaves, and everything built from them.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Typed {
    pub t: At,
    pub s: u8,
}
pub fn leaves(w: &dyn World) -> Vec<Typed> {
    let mut v = vec![];
    v.extend(w.x().0.map(|s| Typed { t: At::X, s }));
    v.extend(w.y().0.map(|s| Typed { t: At::Y, s }));
    for s in 0..w.sorts() as u8 {
        v.push(Typed { t: At::K(s), s });
    }
    v
}
pub fn grow(w: &dyn World, a: &[Typed], b: &[Typed], nlin: usize, nnon: usize) -> Vec<Typed> {
    let mut v = vec![];
    for t in a {
        let k = Arc::new(t.t.clone());
        if w.lin(t.s) {
            (0..nlin as u8).for_each(|o| v.push(Typed { t: At::Lin(o, k.clone()), s: t.s }));
        }
        if w.non(t.s) {
            (0..nnon as u8).for_each(|o| v.push(Typed { t: At::Non(o, k.clone()), s: t.s }));
        }
    }
    let pair = |l: &Typed, r: &Typed, v: &mut Vec<Typed>| {
        for o in 0..5u8 {
            if let Some(s) = w.bi([0, 0, 1, 1, 2][o as usize], l.s, r.s) {
                v.push(Typed { t: At::Bi(o, Arc::new(l.t.clone()), Arc::new(r.t.clone())), s });
            }
        }
        for ax in 0..2u8 {
            if let Some(s) = w.con(ax, l.s, r.s) {
                v.push(Typed { t: At::Con(ax, Arc::new(l.t.clone()), Arc::new(r.t.clone())), s });
            }
        }
    };
    for l in a {
        for r in b {
            pair(l, r, &mut v);
            pair(r, l, &mut v);
        }
    }
    v
}
pub fn dedup(v: Vec<Typed>) -> Vec<Typed> {
    let mut seen = std::collections::BTreeSet::new();
    v.into_iter().filter(|t| seen.insert(t.clone())).collect()
}

#[macro_export]
macro_rules! world {
    (
        $W:ident: $A:ty, $B:ty;
        sorts { $($S:ident: $T:ty => $DT:ty;)* }
        x { $($xs:ident)? } y { $($ys:ident)? }
        lin { $($ls:ident)* }
        non { $($ns:ident)* }
        add { $(($al:ident $ar:ident $ao:ident))* }
        mul { $(($ml:ident $mr:ident $mo:ident))* }
        pow { $($ps:ident)* }
        con { $(($ax:literal $cl:ident $cr:ident $co:ident))* }
    ) => {
        #[allow(non_snake_case, non_camel_case_types)]
        pub mod $W {
            #![allow(unused_imports)]
            use super::arr::{self, *};
            use aegir::{buffers::Buffer, ids::{X, Y}, meta::Constant, ops::{self, special, trig}, Identifier};
            type C = Two<$A, $B>;
            #[derive(Copy, Clone, PartialEq, Eq)]
            enum Sort { $($S),* }
            const SORTS: &[Sort] = &[$(Sort::$S),*];
            enum Any { $($S(arr::D<C, $T, $DT>)),* }
            pub struct W;
            fn mk(t: &At) -> Any {
                match t {
                    $(At::X => Any::$xs(D::new(X.into_var())),)?
                    $(At::Y => Any::$ys(D::new(Y.into_var())),)?
                    #[allow(unreachable_patterns)]
                    At::X | At::Y => panic!("HARNESS: leaf"),
                    At::K(s) => match SORTS[*s as usize] {
                        $(Sort::$S => Any::$S(D::new(Constant(<$T as Kind>::of(&konst(*s, &W))))),)*
                    },
                    At::Lin(o, a) => match mk(a) {
                        $(Any::$ls(n) => Any::$ls(match o {
                            0 => D::new(ops::Negate(n)),
                            1 => D::new(ops::Double(n)),
                            2 => D::new(ops::AddOne(n)),
                            3 => D::new(ops::SubOne(n)),
                            _ => D::new(ops::OneSub(n)),
                        }),)*
                        #[allow(unreachable_patterns)]
                        _ => panic!("HARNESS: sort"),
                    },
                    At::Non(o, a) => match mk(a) {
                        $(Any::$ns(n) => Any::$ns(match o {
                            0 => D::new(ops::Square(n)),
                            1 => D::new(ops::Exp(n)),
                            2 => D::new(ops::Sigmoid(n)),
                            3 => D::new(ops::Abs(n)),
                            4 => D::new(trig::Sin(n)),
                            5 => D::new(trig::Cos(n)),
                            6 => D::new(ops::Ln(n)),
                            7 => D::new(ops::XLnX(n)),
                            8 => D::new(ops::Rabbit(n)),
                            9 => D::new(ops::Sign(n)),
                            10 => D::new(special::Gamma(n)),
                            11 => D::new(special::LogGamma(n)),
                            _ => D::new(special::Factorial::factorial(n)),
                        }),)*
                        #[allow(unreachable_patterns)]
                        _ => panic!("HARNESS: sort"),
                    },
                    At::Bi(o, l, r) => match (*o, mk(l), mk(r)) {
                        $((0, Any::$al(l), Any::$ar(r)) => Any::$ao(D::new(ops::Add(l, r))),
                        (1, Any::$al(l), Any::$ar(r)) => Any::$ao(D::new(ops::Sub(l, r))),)*
                        $((2, Any::$ml(l), Any::$mr(r)) => Any::$mo(D::new(ops::Mul(l, r))),
                        (3, Any::$ml(l), Any::$mr(r)) => Any::$mo(D::new(ops::Div(l, r))),)*
                        $((4, Any::$ps(l), Any::$ps(r)) => Any::$ps(D::new(ops::Power(l, r))),)*
                        _ => panic!("HARNESS: sort"),
                    },
                    At::Con(ax, l, r) => match (*ax, mk(l), mk(r)) {
                        $(($ax, Any::$cl(l), Any::$cr(r)) => Any::$co(D::new(ops::Contract::<$ax, _, _>(l, r))),)*
                        _ => panic!("HARNESS: sort"),
                    },
                    At::Sum(_) => panic!("HARNESS: inner sum"),
                }
            }
            impl World for W {
                fn name(&self) -> String { format!("x: {}, y: {}", stringify!($A), stringify!($B)) }
                fn sorts(&self) -> usize { SORTS.len() }
                fn dims(&self, s: u8) -> Vec<usize> {
                    match SORTS[s as usize] { $(Sort::$S => super::dims_of::<$T>()),* }
                }
                fn x(&self) -> (Option<u8>, Vec<usize>) {
                    let s: Option<Sort> = [$(Sort::$xs)?].iter().next().copied();
                    (s.map(|x| SORTS.iter().position(|s| *s == x).unwrap() as u8), super::dims_of::<$A>())
                }
                fn y(&self) -> (Option<u8>, Vec<usize>) {
                    let s: Option<Sort> = [$(Sort::$ys)?].iter().next().copied();
                    (s.map(|y| SORTS.iter().position(|s| *s == y).unwrap() as u8), super::dims_of::<$B>())
                }
                fn lin(&self, s: u8) -> bool { let l: &[Sort] = &[$(Sort::$ls),*]; l.contains(&SORTS[s as usize]) }
                fn non(&self, s: u8) -> bool { let l: &[Sort] = &[$(Sort::$ns),*]; l.contains(&SORTS[s as usize]) }
                fn bi(&self, k: u8, l: u8, r: u8) -> Option<u8> {
                    let at: &[(u8, Sort, Sort, Sort)] = &[$((0, Sort::$al, Sort::$ar, Sort::$ao),)* $((1, Sort::$ml, Sort::$mr, Sort::$mo),)* $((2, Sort::$ps, Sort::$ps, Sort::$ps),)*];
                    at.iter().find(|(j, a, b, _)| *j == k && *a == SORTS[l as usize] && *b == SORTS[r as usize]).map(|(_, _, _, o)| SORTS.iter().position(|s| s == o).unwrap() as u8)
                }
                fn con(&self, k: u8, l: u8, r: u8) -> Option<u8> {
                    let at: &[(u8, Sort, Sort, Sort)] = &[$(($ax, Sort::$cl, Sort::$cr, Sort::$co),)*];
                    at.iter().find(|(j, a, b, _)| *j == k && *a == SORTS[l as usize] && *b == SORTS[r as usize]).map(|(_, _, _, o)| SORTS.iter().position(|s| s == o).unwrap() as u8)
                }
                fn run(&self, t: &At, form: [u8; 2], zero: bool) -> (Result<Got, String>, Result<Got, String>) {
                    let x = <$A as Kind>::of(&entries(&self.x().1, 0, form[0], zero));
                    let y = <$B as Kind>::of(&entries(&self.y().1, 3, form[1], zero));
                    let c: C = Two { x, y, form };
                    if let At::Sum(a) = t {
                        return match mk(a) {
                            $(Any::$S(n) => {
                                let n = D::<C, f64, $DT>::new(ops::Sum(n));
                                (guarded(|| ask::<C, f64>(&n, &c)), guarded(|| ask::<C, $DT>(&*n.0.ax().0, &c)))
                            },)*
                        };
                    }
                    match mk(t) {
                        $(Any::$S(n) => (guarded(|| ask::<C, $T>(&n, &c)), guarded(|| ask::<C, $DT>(&*n.0.ax().0, &c))),)*
                    }
                }
            }
        }
    };
}
pub fn inputs(w: &dyn World, form: [u8; 2], zero: bool) -> (T<f64>, T<f64>) { (entries(&w.x().1, 0, form[0], zero), entries(&w.y().1, 3, form[1], zero)) }
