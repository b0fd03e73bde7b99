//! Expressions over run-time sized buffers (`Vec<f64>`) mixed with scalars, of arbitrary form,
//! over the real operator types; operands are erased per sort.
use aegir::{
    buffers::{
        shapes::{IncompatibleShapes, SDynamic, Shape, ShapeOf, Shaped, S0},
        Buffer, Spec,
    },
    errors::{BinaryError, NoError, UnaryError},
    ids,
    meta::{self, SourceError},
    ops, Context, Function, Identifier, Node, Read, Write,
};
use mc_core::tens::ShV;
use std::rc::Rc;

use crate::V;

/// x, y and the slot z are run-time sized, `ids::X` is a scalar.
#[derive(Clone, Debug)]
pub struct Venv {
    pub vecs: [Option<Vec<f64>>; 3],
    pub s: f64,
    /// how x, y, and the scalar are represented: 0 Raw, 1 Full, 2 Diagonal
    pub form: [u8; 3],
}
impl AsMut<Venv> for Venv {
    fn as_mut(&mut self) -> &mut Venv { self }
}
impl Context for Venv {}
impl Read<V> for Venv {
    type Buffer = Vec<f64>;
    fn read(&self, i: V) -> Option<Vec<f64>> { self.vecs[i.0 as usize].clone() }
    fn read_spec(&self, i: V) -> Option<Spec<Vec<f64>>> {
        self.read(i).map(|v| match self.form.get(i.0 as usize).filter(|_| i.0 < 2) {
            Some(1) => Spec::Full(SDynamic([v.len()]), v.first().copied().unwrap_or(0.0)),
            Some(2) => Spec::Diagonal(SDynamic([v.len()]), v.first().copied().unwrap_or(0.0)),
            _ => Spec::Raw(v),
        })
    }
    fn read_shape(&self, i: V) -> Option<SDynamic<1>> { self.vecs[i.0 as usize].as_ref().map(|v| SDynamic([v.len()])) }
}
impl Write<V> for Venv {
    fn write(&mut self, i: V, v: Vec<f64>) { self.vecs[i.0 as usize] = Some(v) }
}
impl Read<ids::X> for Venv {
    type Buffer = f64;
    fn read(&self, _: ids::X) -> Option<f64> { Some(self.s) }
    fn read_spec(&self, _: ids::X) -> Option<Spec<f64>> {
        Some(match self.form[2] {
            0 => Spec::Raw(self.s),
            1 => Spec::Full(S0, self.s),
            _ => Spec::Diagonal(S0, self.s),
        })
    }
}

// ------------------------------------------------------------------ errors
/// Path of L/R/I steps to the failing node, the shapes it reports (None: something else failed).
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct VErr {
    pub path: Vec<u8>,
    pub shapes: Option<(Vec<usize>, Vec<usize>)>,
}
pub trait IntoV {
    fn v(self) -> VErr;
}
impl IntoV for VErr {
    fn v(self) -> VErr { self }
}
impl IntoV for NoError {
    fn v(self) -> VErr { match self {} }
}
impl<I> IntoV for SourceError<I> {
    fn v(self) -> VErr { VErr { path: vec![], shapes: None } }
}
impl<L: ShV, R: ShV> IntoV for IncompatibleShapes<L, R> {
    fn v(self) -> VErr { VErr { path: vec![], shapes: Some((self.left.dims(), self.right.dims())) } }
}
fn at(b: u8, mut e: VErr) -> VErr {
    e.path.insert(0, b);
    e
}
impl<L: IntoV, R: IntoV, O: IntoV> IntoV for BinaryError<L, R, O> {
    fn v(self) -> VErr {
        match self {
            BinaryError::Left(e) => at(b'L', e.v()),
            BinaryError::Right(e) => at(b'R', e.v()),
            BinaryError::Output(e) => e.v(),
        }
    }
}
impl<L: IntoV, O: IntoV> IntoV for UnaryError<L, O> {
    fn v(self) -> VErr {
        match self {
            UnaryError::Inner(e) => e.v(),
            UnaryError::Output(e) => e.v(),
        }
    }
}

// ------------------------------------------------------------------ erasure
pub type VRes<T> = Result<T, VErr>;
pub trait NV<T: Buffer> {
    fn ev(&self, e: &mut Venv) -> VRes<T>;
    fn sp(&self, e: &mut Venv) -> VRes<Spec<T>>;
    fn sh(&self, e: &mut Venv) -> VRes<ShapeOf<T>>;
    fn ev_val(&self, e: Venv) -> VRes<T>;
    fn sp_val(&self, e: Venv) -> VRes<Spec<T>>;
    fn sh_val(&self, e: Venv) -> VRes<ShapeOf<T>>;
}
impl<T: Buffer, N: Function<Venv, Value = T>> NV<T> for N
where N::Error: IntoV
{
    fn ev(&self, e: &mut Venv) -> VRes<T> { self.evaluate(e).map_err(IntoV::v) }
    fn sp(&self, e: &mut Venv) -> VRes<Spec<T>> { self.evaluate_spec(e).map_err(IntoV::v) }
    fn sh(&self, e: &mut Venv) -> VRes<ShapeOf<T>> { self.evaluate_shape(e).map_err(IntoV::v) }
    fn ev_val(&self, e: Venv) -> VRes<T> { self.evaluate(e).map_err(IntoV::v) }
    fn sp_val(&self, e: Venv) -> VRes<Spec<T>> { self.evaluate_spec(e).map_err(IntoV::v) }
    fn sh_val(&self, e: Venv) -> VRes<ShapeOf<T>> { self.evaluate_shape(e).map_err(IntoV::v) }
}
pub struct E<T>(pub Rc<dyn NV<T>>);
impl<T> Clone for E<T> {
    fn clone(&self) -> Self { E(self.0.clone()) }
}
impl<T> Node for E<T> {}
impl std::fmt::Display for VErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self) }
}
impl std::error::Error for VErr {}
impl<T: Buffer> Function<Venv> for E<T> {
    type Value = T;
    type Error = VErr;
    fn evaluate<CR: AsMut<Venv>>(&self, mut c: CR) -> VRes<T> { self.0.ev(c.as_mut()) }
    fn evaluate_spec<CR: AsMut<Venv>>(&self, mut c: CR) -> VRes<Spec<T>> { self.0.sp(c.as_mut()) }
    fn evaluate_shape<CR: AsMut<Venv>>(&self, mut c: CR) -> VRes<ShapeOf<T>> { self.0.sh(c.as_mut()) }
}
impl<T> std::fmt::Debug for E<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("E") }
}

// ------------------------------------------------------------------ expressions
pub const BI: [&str; 4] = ["Add", "Sub", "Mul", "Div"];
pub const UN: [&str; 5] = ["Negate", "Square", "OneSub", "Exp", "Abs"];
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Vt {
    /// x or y
    Vec(u8),
    /// the constant vector
    CVec,
    Sca,
    CSca,
    Un(u8, Box<Vt>),
    Bi(u8, Box<Vt>, Box<Vt>),
    Sum(Box<Vt>),
    Cached(Box<Vt>),
}
/// Which of the two sorts a node is built for.
pub enum Any {
    S(E<f64>),
    V(E<Vec<f64>>),
}
fn e<T: Buffer, N: NV<T> + 'static>(n: N) -> E<T> { E(Rc::new(n)) }
macro_rules! binary {
    ($op:expr, $a:expr, $b:expr) => {
        match $op {
            0 => e(ops::Add($a, $b)),
            1 => e(ops::Sub($a, $b)),
            2 => e(ops::Mul($a, $b)),
            _ => e(ops::Div($a, $b)),
        }
    };
}
macro_rules! unary {
    ($op:expr, $a:expr) => {
        match $op {
            0 => e(ops::Negate($a)),
            1 => e(ops::Square($a)),
            2 => e(ops::OneSub($a)),
            3 => e(ops::Exp($a)),
            _ => e(ops::Abs($a)),
        }
    };
}
/// What the constants of an expression are.
#[derive(Clone, Debug)]
pub struct Consts {
    pub vec: Vec<f64>,
    pub sca: f64,
}
impl Vt {
    pub fn is_vec(&self) -> bool {
        match self {
            Vt::Vec(_) | Vt::CVec | Vt::Cached(_) => true,
            Vt::Sca | Vt::CSca | Vt::Sum(_) => false,
            Vt::Un(_, t) => t.is_vec(),
            Vt::Bi(_, l, r) => l.is_vec() || r.is_vec(),
        }
    }
    pub fn mk(&self, k: &Consts) -> Any {
        match self {
            Vt::Vec(i) => Any::V(e(V(*i).into_var())),
            Vt::CVec => Any::V(e(meta::Constant(k.vec.clone()))),
            Vt::Sca => Any::S(e(ids::X.into_var())),
            Vt::CSca => Any::S(e(meta::Constant(k.sca))),
            Vt::Un(o, t) => match t.mk(k) {
                Any::S(a) => Any::S(unary!(o, a)),
                Any::V(a) => Any::V(unary!(o, a)),
            },
            Vt::Bi(o, l, r) => match (l.mk(k), r.mk(k)) {
                (Any::S(a), Any::S(b)) => Any::S(binary!(o, a, b)),
                (Any::S(a), Any::V(b)) => Any::V(binary!(o, a, b)),
                (Any::V(a), Any::S(b)) => Any::V(binary!(o, a, b)),
                (Any::V(a), Any::V(b)) => Any::V(binary!(o, a, b)),
            },
            Vt::Sum(t) => match t.mk(k) {
                Any::S(a) => Any::S(e(ops::Sum(a))),
                Any::V(a) => Any::S(e(ops::Sum(a))),
            },
            Vt::Cached(t) => match t.mk(k) {
                Any::V(a) => Any::V(e(meta::Cached { node: a, ident: V(2) })),
                Any::S(_) => panic!("HARNESS: cached scalar"),
            },
        }
    }
    pub fn text(&self) -> String {
        match self {
            Vt::Vec(i) => ["x", "y", "z"][*i as usize].into(),
            Vt::CVec => "[..]".into(),
            Vt::Sca => "s".into(),
            Vt::CSca => "k".into(),
            Vt::Un(o, t) => format!("{}({})", UN[*o as usize], t.text()),
            Vt::Bi(o, l, r) => format!("{}({}, {})", BI[*o as usize], l.text(), r.text()),
            Vt::Sum(t) => format!("Sum({})", t.text()),
            Vt::Cached(t) => format!("Cached({})", t.text()),
        }
    }
    pub fn shape(&self) -> String {
        match self {
            Vt::Vec(_) => "vec".into(),
            Vt::CVec => "const vec".into(),
            Vt::Sca => "scalar".into(),
            Vt::CSca => "const scalar".into(),
            Vt::Un(o, _) => UN[*o as usize].into(),
            Vt::Bi(o, l, r) => format!("{}({}, {})", BI[*o as usize], if l.is_vec() { "vec" } else { "scalar" }, if r.is_vec() { "vec" } else { "scalar" }),
            Vt::Sum(_) => "Sum".into(),
            Vt::Cached(_) => "Cached".into(),
        }
    }
    /// The subexpression at a path of L/R steps (unary nodes are passed through).
    pub fn follow(&self, path: &[u8]) -> Option<&Vt> {
        match (self, path) {
            (Vt::Un(_, t) | Vt::Sum(t) | Vt::Cached(t), p) => t.follow(p),
            (Vt::Bi(..), []) => Some(self),
            (Vt::Bi(_, l, _), [b'L', p @ ..]) => l.follow(p),
            (Vt::Bi(_, _, r), [b'R', p @ ..]) => r.follow(p),
            (t, []) => Some(t),
            _ => None,
        }
    }
    pub fn has_cached(&self) -> bool {
        match self {
            Vt::Cached(_) => true,
            Vt::Un(_, t) | Vt::Sum(t) => t.has_cached(),
            Vt::Bi(_, l, r) => l.has_cached() || r.has_cached(),
            _ => false,
        }
    }
    pub fn has_sum(&self) -> bool {
        match self {
            Vt::Sum(_) => true,
            Vt::Un(_, t) | Vt::Cached(t) => t.has_sum(),
            Vt::Bi(_, l, r) => l.has_sum() || r.has_sum(),
            _ => false,
        }
    }
    /// Values, or every node whose own operands do not fit (the operands themselves being
    /// fine): each is a correct place to report.
    /// `blind`: sums do not look at their operand (their shape does not depend on it).
    pub fn model(&self, k: &Consts, env: &Venv, blind: bool) -> M {
        match self {
            Vt::Vec(i) => M::V(env.vecs[*i as usize].clone().expect("HARNESS: defined")),
            Vt::CVec => M::V(k.vec.clone()),
            Vt::Sca => M::S(env.s),
            Vt::CSca => M::S(k.sca),
            Vt::Cached(t) => match (&env.vecs[2], t.model(k, env, blind)) {
                (Some(v), _) => M::V(v.clone()),
                (None, m) => m,
            },
            Vt::Un(o, t) => {
                let f = |x: f64| match o {
                    0 => -x,
                    1 => x * x,
                    2 => 1.0 - x,
                    3 => x.exp(),
                    _ => x.abs(),
                };
                match t.model(k, env, blind) {
                    M::S(x) => M::S(f(x)),
                    M::V(v) => M::V(v.into_iter().map(f).collect()),
                    m => m,
                }
            },
            Vt::Sum(_) if blind => M::S(0.0),
            Vt::Sum(t) => match t.model(k, env, blind) {
                M::S(x) => M::S(x),
                M::V(v) => M::S(v.iter().sum()),
                m => m,
            },
            Vt::Bi(o, l, r) => {
                let f = |x: f64, y: f64| match o {
                    0 => x + y,
                    1 => x - y,
                    2 => x * y,
                    _ => x / y,
                };
                let put = |b: u8, es: Vec<VErr>| es.into_iter().map(move |e| at(b, e)).collect::<Vec<_>>();
                match (l.model(k, env, blind), r.model(k, env, blind)) {
                    (M::S(a), M::S(b)) => M::S(f(a, b)),
                    (M::S(a), M::V(b)) => M::V(b.into_iter().map(|b| f(a, b)).collect()),
                    (M::V(a), M::S(b)) => M::V(a.into_iter().map(|a| f(a, b)).collect()),
                    (M::V(a), M::V(b)) if a.len() == b.len() => M::V(a.into_iter().zip(b).map(|(a, b)| f(a, b)).collect()),
                    (M::V(a), M::V(b)) => M::No(vec![VErr { path: vec![], shapes: Some((vec![a.len()], vec![b.len()])) }]),
                    (M::No(a), M::No(b)) => M::No(put(b'L', a).into_iter().chain(put(b'R', b)).collect()),
                    (M::No(a), _) => M::No(put(b'L', a)),
                    (_, M::No(b)) => M::No(put(b'R', b)),
                }
            },
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum M {
    S(f64),
    V(Vec<f64>),
    /// acceptable reports
    No(Vec<VErr>),
}
impl M {
    pub fn dims(&self) -> Option<Vec<usize>> {
        match self {
            M::S(_) => Some(vec![]),
            M::V(v) => Some(vec![v.len()]),
            M::No(_) => None,
        }
    }
}

/// All expressions of at most the given height, by sort, in a fixed order.
pub fn leaves() -> Vec<Vt> { vec![Vt::Vec(0), Vt::Vec(1), Vt::CVec, Vt::Sca, Vt::CSca] }
/// everything built from these operands by one operator
pub fn grow(a: &[Vt], un: usize, cached: bool) -> Vec<Vt> {
    let mut v = vec![];
    for t in a {
        for o in 0..un {
            v.push(Vt::Un(o as u8, Box::new(t.clone())));
        }
        if t.is_vec() {
            v.push(Vt::Sum(Box::new(t.clone())));
            if cached && !t.has_cached() {
                v.push(Vt::Cached(Box::new(t.clone())));
            }
        }
    }
    for o in 0..4 {
        for l in a {
            for r in a {
                if !(l.has_cached() && r.has_cached()) {
                    v.push(Vt::Bi(o, Box::new(l.clone()), Box::new(r.clone())));
                }
            }
        }
    }
    v
}

/// What the six ways of asking answer.
pub struct Answers {
    pub what: &'static str,
    /// dims of the result, and its values where the route computes them
    pub got: VRes<(Vec<usize>, Option<Vec<f64>>)>,
}
pub trait Flat: Buffer {
    fn flat(&self) -> Vec<f64>;
}
impl Flat for f64 {
    fn flat(&self) -> Vec<f64> { vec![*self] }
}
impl Flat for Vec<f64> {
    fn flat(&self) -> Vec<f64> { self.clone() }
}
fn own_dims<T: Flat>(b: &T) -> Vec<usize>
where T::Shape: ShV {
    // rank 0 or 1, without asking the library
    if <T::Shape as Shape>::DIM == 0 { vec![] } else { vec![b.flat().len()] }
}
pub fn ask<T: Flat>(n: &E<T>, env: &Venv) -> Vec<Answers>
where T::Shape: ShV {
    let val = |r: VRes<T>| r.map(|b| (own_dims(&b), Some(b.flat())));
    let lif = |r: VRes<Spec<T>>| {
        r.map(|s| {
            let d = s.shape().dims();
            let b = s.unwrap();
            // a lifted result whose shape differs from its own dense value shows up here
            (d, Some(b.flat()))
        })
    };
    let shp = |r: VRes<ShapeOf<T>>| r.map(|s| (s.dims(), None));
    vec![
        Answers { what: "evaluate", got: val(n.0.ev(&mut env.clone())) },
        Answers { what: "evaluate (by value)", got: val(n.0.ev_val(env.clone())) },
        Answers { what: "evaluate_spec", got: lif(n.0.sp(&mut env.clone())) },
        Answers { what: "evaluate_spec (by value)", got: lif(n.0.sp_val(env.clone())) },
        Answers { what: "evaluate_shape", got: shp(n.0.sh(&mut env.clone())) },
        Answers { what: "evaluate_shape (by value)", got: shp(n.0.sh_val(env.clone())) },
    ]
}
pub fn ask_any(n: &Any, env: &Venv) -> Vec<Answers> {
    match n {
        Any::S(n) => ask(n, env),
        Any::V(n) => ask(n, env),
    }
}
/// lhs values are `base + i`, all different; lifted operands repeat one value
pub fn fill(len: usize, form: u8, base: f64) -> Vec<f64> { (0..len).map(|i| if form == 0 { base + i as f64 } else { base }).collect() }
