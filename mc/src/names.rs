//! Distinct identifiers whose names are the same.
//!
//! Two identifiers are the same iff they compare equal; what they print as does not matter (the
//! crate's own `ids!` may be used in two modules with the same letters).
use aegir::{buffers::{shapes::*, Buffer, Spec}, ops, ops::*, Contains, Context, Differentiable, Function, Identifier, Node, Read};
use mc_core::{engine::*, tens::*};
use std::cell::Cell;
use std::fmt;
use std::rc::Rc;

macro_rules! ident {
    ($P:ident $(($f:ty))?) => {
        #[derive(Copy, Clone, PartialEq, Eq)]
        pub struct $P $((pub $f))?;
        impl fmt::Display for $P { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("t") } }
        impl fmt::Debug for $P { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("T") } }
        impl Identifier for $P {}
    };
}
ident!(P);
ident!(Q);
ident!(R(u8));
impl PartialEq<Q> for P {
    fn eq(&self, _: &Q) -> bool { false }
}
impl PartialEq<P> for Q {
    fn eq(&self, _: &P) -> bool { false }
}

/// Holds a value for P / R(0) and one for Q / R(1), and logs which of the two was consulted.
#[derive(Clone)]
struct Two<B> {
    v: [B; 2],
    log: Rc<Cell<u32>>,
}
impl<B> AsMut<Two<B>> for Two<B> {
    fn as_mut(&mut self) -> &mut Two<B> { self }
}
impl<B> Context for Two<B> {}
macro_rules! read {
    ($I:ident, |$i:ident| $k:expr) => {
        impl<B: Buffer> Read<$I> for Two<B> {
            type Buffer = B;
            fn read(&self, $i: $I) -> Option<B> {
                self.log.set(self.log.get() | 1 << $k);
                Some(self.v[$k].clone())
            }
            fn read_spec(&self, $i: $I) -> Option<Spec<B>> { self.read($i).map(Spec::Raw) }
            fn read_shape(&self, $i: $I) -> Option<ShapeOf<B>> { self.read($i).map(|b| b.shape()) }
        }
    };
}
read!(P, |_i| 0);
read!(Q, |_i| 1);
read!(R, |i| i.0 as usize);

fn eval<C: Context, N: Function<C>>(n: &N, c: &mut C) -> Result<T<f64>, String>
where
    N::Value: Kind<Field = f64>,
{
    n.evaluate(c).map(|b| b.t()).map_err(|e| format!("{:?}", e))
}
fn lifted<C: Context, N: Function<C>>(n: &N, c: &mut C) -> Result<T<f64>, String>
where
    N::Value: Kind<Field = f64>,
{
    n.evaluate_spec(c).map(|b| b.unwrap().t()).map_err(|e| format!("{:?}", e))
}
fn has<I: Identifier, J: Identifier, N: Contains<I> + Contains<J>>(n: &N, i: I, j: J) -> u32 { n.contains(i) as u32 | (n.contains(j) as u32) << 1 }

/// One expression with two identifiers i, j of the same name.
pub struct Row {
    pub what: String,
    /// identifiers contained (bit 0: i, bit 1: j), for the value and the derivatives by i and j
    pub has: [u32; 3],
    /// identifiers consulted, likewise
    pub reads: [u32; 3],
    pub got: [Result<T<f64>, String>; 3],
    pub spec: [Result<T<f64>, String>; 3],
    /// the value, d/di and d/dj as multiples of the identity (None: not linear)
    pub want: [T<f64>; 3],
    pub mask: u32,
}

/// A multiple of the identity of shape dims ++ dims.
fn eye(dims: &[usize], k: f64) -> T<f64> { T::build(&[dims, dims].concat(), |ix| if ix[..dims.len()] == ix[dims.len()..] { k } else { 0.0 }) }

macro_rules! rows {
    ($out:ident; $B:ty, $pi:expr, $pj:expr; $i:expr, $j:expr; $($e:expr => $m:expr, $v:expr, $di:expr, $dj:expr;)*) => { $(
        $out.push(Box::new(|| {
            #[allow(unused_imports)]
            use aegir::Identifier as _;
            let (i, j) = ($i, $j);
            let ctx = || Two::<$B> { v: [Kind::of(&$pi), Kind::of(&$pj)], log: Rc::new(Cell::new(0)) };
            let e = $e(i, j);
            let (di, dj) = (e.adjoint(i), e.adjoint(j));
            let mut reads = [0; 3];
            let (mut c0, mut c1, mut c2) = (ctx(), ctx(), ctx());
            let got = [eval(&e, &mut c0), eval(&di, &mut c1), eval(&dj, &mut c2)];
            reads[0] = c0.log.get();
            reads[1] = c1.log.get();
            reads[2] = c2.log.get();
            let spec = [lifted(&e, &mut c0), lifted(&di, &mut c1), lifted(&dj, &mut c2)];
            let dims = $pi.dims;
            Row {
                what: format!("{} over {}, i = {:?}, j = {:?}", stringify!($e), stringify!($B), std::any::type_name_of_val(&i).rsplit("::").next().unwrap(), std::any::type_name_of_val(&j).rsplit("::").next().unwrap()),
                has: [has(&e, i, j), has(&di, i, j), has(&dj, i, j)],
                reads,
                got,
                spec,
                want: [$pi.zip(&$pj, $v).unwrap(), eye(&dims, $di), eye(&dims, $dj)],
                mask: $m,
            }
        }) as Box<dyn Fn() -> Row + Send + Sync>);
    )* };
}
macro_rules! linear {
    ($out:ident; $B:ty, $pi:expr, $pj:expr; $i:expr, $j:expr) => {
        rows! { $out; $B, $pi, $pj; $i, $j;
            |i: I_, _j: J_| i.into_var() => 1, |p, _q| p, 1.0, 0.0;
            |_i: I_, j: J_| j.into_var() => 2, |_p, q| q, 0.0, 1.0;
            |i: I_, j: J_| i.into_var().add(j.into_var()) => 3, |p, q| p + q, 1.0, 1.0;
            |i: I_, j: J_| i.into_var().sub(j.into_var()) => 3, |p, q| p - q, 1.0, -1.0;
            |i: I_, _j: J_| i.into_var().add(i.into_var()) => 1, |p, _q| p + p, 2.0, 0.0;
            |_i: I_, j: J_| j.into_var().sub(ops::Negate(j.into_var())) => 2, |_p, q| q + q, 0.0, 2.0;
            |i: I_, j: J_| ops::Double(i.into_var()).add(ops::AddOne(j.into_var())) => 3, |p, q| 2.0 * p + (q + 1.0), 2.0, 1.0;
        }
    };
}
fn vect(dims: &[usize], v: f64) -> T<f64> {
    let mut k = 0.0;
    T::build(dims, |_| {
        k += 1.0;
        v + k
    })
}
pub type RowFn = Box<dyn Fn() -> Row + Send + Sync>;

pub fn scalars() -> Vec<RowFn> {
    let mut out: Vec<RowFn> = vec![];
    macro_rules! at { ($I:ty, $J:ty, $i:expr, $j:expr) => {{
        type I_ = $I;
        type J_ = $J;
        linear!(out; f64, T::scalar(0.75f64), T::scalar(1.5f64); $i, $j);
        rows! { out; f64, T::scalar(0.75f64), T::scalar(1.5f64); $i, $j;
            |i: I_, j: J_| i.into_var().mul(j.into_var()) => 3, |p, q| p * q, 1.5, 0.75;
            |i: I_, _j: J_| i.into_var().mul(i.into_var()) => 1, |p, _q| p * p, 1.5, 0.0;
            |_i: I_, j: J_| j.into_var().squared() => 2, |_p, q| q * q, 0.0, 3.0;
            |i: I_, j: J_| i.into_var().mul(j.into_var()).add(i.into_var()) => 3, |p, q| p * q + p, 2.5, 0.75;
            |i: I_, j: J_| i.into_var().dot(j.into_var()) => 3, |p, q| p * q, 1.5, 0.75;
            |i: I_, j: J_| i.into_var().mul(j.into_var()).adjoint(i) => 3, |_p, q| q, 0.0, 1.0;
            |i: I_, j: J_| i.into_var().mul(j.into_var()).adjoint(j) => 3, |p, _q| p, 1.0, 0.0;
            |i: I_, _j: J_| i.into_var().adjoint(i) => 1, |_p, _q| 1.0, 0.0, 0.0;
            |i: I_, j: J_| i.into_var().adjoint(j) => 3, |_p, _q| 0.0, 0.0, 0.0;
        }
    }} }
    at!(P, Q, P, Q);
    at!(R, R, R(0), R(1));
    out
}
pub fn arrays() -> Vec<RowFn> {
    let mut out: Vec<RowFn> = vec![];
    macro_rules! at { ($I:ty, $J:ty, $i:expr, $j:expr) => {{
        type I_ = $I;
        type J_ = $J;
        linear!(out; [f64; 1], vect(&[1], 2.0), vect(&[1], 8.0); $i, $j);
        linear!(out; [f64; 3], vect(&[3], 2.0), vect(&[3], 8.0); $i, $j);
        linear!(out; [[f64; 3]; 2], vect(&[2, 3], 2.0), vect(&[2, 3], 8.0); $i, $j);
    }} }
    at!(P, Q, P, Q);
    at!(R, R, R(0), R(1));
    out
}

/// Value and derivatives: the variable is the one that compares equal.
#[allow(dead_code)]
pub fn values(c: &mut Ctl, l: &[RowFn]) {
    let n = c.choose(l.len());
    let r = l[n]();
    c.state(("names", n));
    c.desc(|| r.what.clone());
    c.step(3);
    for (k, part) in ["value", "derivative by i", "derivative by j"].iter().enumerate() {
        for (route, got) in [("evaluate", &r.got[k]), ("evaluate_spec", &r.spec[k])] {
            c.check(got.as_ref() == Ok(&r.want[k]), || (format!("identifiers of the same name: {}", part), format!("{}: the {} is {:?} ({}), expected {:?}", r.what, part, got, route, r.want[k])));
        }
    }
}
/// Containment and reads.
#[allow(dead_code)]
pub fn reads(c: &mut Ctl, l: &[RowFn]) {
    let n = c.choose(l.len());
    let r = l[n]();
    c.state(("names", n));
    c.desc(|| r.what.clone());
    c.step(3);
    let want = [r.mask, r.mask | 1, r.mask | 2];
    for (k, part) in ["the expression", "the derivative by i", "the derivative by j"].iter().enumerate() {
        c.check(r.has[k] == want[k] && r.reads[k] == want[k], || {
            (format!("identifiers of the same name: containment of {}", part), format!("{}: {} contains {:02b} and consults {:02b}, expected {:02b} (i is bit 0)", r.what, part, r.has[k], r.reads[k], want[k]))
        });
    }
}
