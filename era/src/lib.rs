//! Scalar expressions of arbitrary form over the real operator types.
//!
//! The operators of the crate are generic structs.  A node behind `E0`..`E3` is a real operator
//! applied to erased nodes of the same level; level k can be differentiated k more times, and
//! differentiating it runs the operator's own `Differentiable` impl.  Operators are generic in
//! their operands, so an operator cannot tell an erased operand from a typed one; the suite
//! `typed` of C01 replays typed expressions all the same.
pub mod ast;
pub mod dbg;
pub mod ops;
pub mod refr;
pub mod show;
pub mod vecs;

use aegir::{
    buffers::{
        shapes::{IncompatibleShapes, Shape, S0},
        Spec,
    },
    errors::{BinaryError, NoError, UnaryError},
    fmt::{Expr, ToExpr},
    meta::SourceError,
    AegirResult, Contains, Context, Differentiable, Function, Identifier, Node, Read, Write,
};
use std::cell::Cell;
use std::fmt::{self, Debug, Display};
use std::rc::Rc;

// ------------------------------------------------------------------ identifiers and contexts
#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct V(pub u8);
pub const NAMES: [&str; 4] = ["x", "y", "z", "w"];
impl Display for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(NAMES[self.0 as usize]) }
}
impl Identifier for V {}

/// The value of each of the four identifiers (if any), how it is represented when read lifted,
/// and a log of the reads, shared by clones.
#[derive(Clone, Debug)]
pub struct Env {
    pub vals: [Option<f64>; 4],
    pub form: [u8; 4],
    pub reads: Rc<Cell<u32>>,
    pub nreads: Rc<Cell<u32>>,
    pub nwrites: Rc<Cell<u32>>,
}
impl Env {
    pub fn new(vals: [Option<f64>; 4]) -> Env { Env { vals, form: [0; 4], reads: Rc::new(Cell::new(0)), nreads: Rc::new(Cell::new(0)), nwrites: Rc::new(Cell::new(0)) } }
    pub fn xy(x: f64, y: f64) -> Env { Env::new([Some(x), Some(y), None, None]) }
    pub fn with_form(mut self, form: [u8; 4]) -> Env {
        self.form = form;
        self
    }
    /// The identifiers consulted since the last call.
    pub fn take_reads(&self) -> u32 { self.reads.replace(0) }
    pub fn key(&self) -> ([Option<u64>; 4], [u8; 4]) { (self.vals.map(|v| v.map(f64::to_bits)), self.form) }
    fn note(&self, i: V) {
        self.reads.set(self.reads.get() | 1 << i.0);
        self.nreads.set(self.nreads.get() + 1);
    }
}
impl AsMut<Env> for Env {
    fn as_mut(&mut self) -> &mut Env { self }
}
impl Context for Env {}
impl Read<V> for Env {
    type Buffer = f64;
    fn read(&self, i: V) -> Option<f64> {
        self.note(i);
        self.vals[i.0 as usize]
    }
    fn read_spec(&self, i: V) -> Option<Spec<f64>> {
        self.note(i);
        self.vals[i.0 as usize].map(|v| match self.form[i.0 as usize] {
            0 => Spec::Raw(v),
            1 => Spec::Full(S0, v),
            _ => Spec::Diagonal(S0, v),
        })
    }
    fn read_shape(&self, i: V) -> Option<S0> {
        self.note(i);
        self.vals[i.0 as usize].map(|_| S0)
    }
}
impl Write<V> for Env {
    fn write(&mut self, i: V, v: f64) {
        self.nwrites.set(self.nwrites.get() + 1);
        self.vals[i.0 as usize] = Some(v);
    }
}

// ------------------------------------------------------------------ errors
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum What {
    Undefined(V),
    ConstantUndefined,
    Shapes,
}
/// Any error of any node: the path of Left/Right/Inner steps and what is at its end.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DErr {
    pub path: Vec<u8>,
    pub out: bool,
    pub what: What,
}
impl Display for DErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}{:?}{}", String::from_utf8_lossy(&self.path), self.what, if self.out { " (output)" } else { "" }) }
}
impl std::error::Error for DErr {}
pub trait IntoD {
    fn d(self) -> DErr;
}
impl IntoD for DErr {
    fn d(self) -> DErr { self }
}
impl IntoD for NoError {
    fn d(self) -> DErr { match self {} }
}
impl IntoD for SourceError<V> {
    fn d(self) -> DErr {
        let SourceError::Undefined(v) = self;
        DErr { path: vec![], out: false, what: What::Undefined(v) }
    }
}
impl IntoD for SourceError<()> {
    fn d(self) -> DErr { DErr { path: vec![], out: false, what: What::ConstantUndefined } }
}
impl<L: Shape, R: Shape> IntoD for IncompatibleShapes<L, R> {
    fn d(self) -> DErr { DErr { path: vec![], out: true, what: What::Shapes } }
}
fn step(b: u8, mut e: DErr) -> DErr {
    e.path.insert(0, b);
    e
}
impl<L: IntoD, R: IntoD, O: IntoD> IntoD for BinaryError<L, R, O> {
    fn d(self) -> DErr {
        match self {
            BinaryError::Left(e) => step(b'L', e.d()),
            BinaryError::Right(e) => step(b'R', e.d()),
            BinaryError::Output(e) => e.d(),
        }
    }
}
impl<L: IntoD, O: IntoD> IntoD for UnaryError<L, O> {
    fn d(self) -> DErr {
        match self {
            UnaryError::Inner(e) => step(b'I', e.d()),
            UnaryError::Output(e) => e.d(),
        }
    }
}

// ------------------------------------------------------------------ erasure
pub type Res<T> = Result<T, DErr>;

/// A real node that can be evaluated, queried and displayed.
pub trait Base: Function<Env, Value = f64> + Contains<V> + ToExpr + Display + Debug {
    fn conv(e: <Self as Function<Env>>::Error) -> DErr;
}
impl<N> Base for N
where
    N: Function<Env, Value = f64> + Contains<V> + ToExpr + Display + Debug,
    <N as Function<Env>>::Error: IntoD,
{
    fn conv(e: <Self as Function<Env>>::Error) -> DErr { e.d() }
}

pub trait N0 {
    fn ev(&self, e: &mut Env) -> Res<f64>;
    fn sp(&self, e: &mut Env) -> Res<Spec<f64>>;
    fn sh(&self, e: &mut Env) -> Res<S0>;
    fn ev_val(&self, e: Env) -> Res<f64>;
    fn sp_val(&self, e: Env) -> Res<Spec<f64>>;
    fn sh_val(&self, e: Env) -> Res<S0>;
    fn has(&self, v: V) -> bool;
    fn ex(&self) -> Expr;
    fn show(&self) -> String;
    fn debug(&self) -> String;
}
impl<N: Base> N0 for N {
    fn ev(&self, e: &mut Env) -> Res<f64> { self.evaluate(e).map_err(N::conv) }
    fn sp(&self, e: &mut Env) -> Res<Spec<f64>> { self.evaluate_spec(e).map_err(N::conv) }
    fn sh(&self, e: &mut Env) -> Res<S0> { self.evaluate_shape(e).map_err(N::conv) }
    fn ev_val(&self, e: Env) -> Res<f64> { self.evaluate(e).map_err(N::conv) }
    fn sp_val(&self, e: Env) -> Res<Spec<f64>> { self.evaluate_spec(e).map_err(N::conv) }
    fn sh_val(&self, e: Env) -> Res<S0> { self.evaluate_shape(e).map_err(N::conv) }
    fn has(&self, v: V) -> bool { self.contains(v) }
    fn ex(&self) -> Expr { self.to_expr() }
    fn show(&self) -> String { self.to_string() }
    fn debug(&self) -> String { format!("{:?}", self) }
}

/// Adjoint and dual evaluated through the operator's own entry points.
pub trait Dif: N0 {
    fn ev_adj(&self, t: V, e: &mut Env) -> Res<f64>;
    fn ev_adj_val(&self, t: V, e: Env) -> Res<f64>;
    fn ev_dual(&self, t: V, e: &mut Env) -> Res<(f64, f64)>;
    fn ev_dual_val(&self, t: V, e: Env) -> Res<(f64, f64)>;
}
impl<N: Base + Differentiable<V>> Dif for N
where
    N::Adjoint: Base,
{
    fn ev_adj(&self, t: V, e: &mut Env) -> Res<f64> { self.evaluate_adjoint(t, e).map_err(<N::Adjoint>::conv) }
    fn ev_adj_val(&self, t: V, e: Env) -> Res<f64> { self.evaluate_adjoint(t, e).map_err(<N::Adjoint>::conv) }
    fn ev_dual(&self, t: V, e: &mut Env) -> Res<(f64, f64)> {
        match self.evaluate_dual(t, e) {
            Ok(d) => Ok((d.value, d.adjoint)),
            Err(BinaryError::Left(e)) => Err(step(b'L', N::conv(e))),
            Err(BinaryError::Right(e)) => Err(step(b'R', <N::Adjoint>::conv(e))),
            Err(BinaryError::Output(e)) => match e {},
        }
    }
    fn ev_dual_val(&self, t: V, e: Env) -> Res<(f64, f64)> {
        match self.evaluate_dual(t, e) {
            Ok(d) => Ok((d.value, d.adjoint)),
            Err(BinaryError::Left(e)) => Err(step(b'L', N::conv(e))),
            Err(BinaryError::Right(e)) => Err(step(b'R', <N::Adjoint>::conv(e))),
            Err(BinaryError::Output(e)) => match e {},
        }
    }
}
pub trait N1: Dif {
    fn a1(&self, t: V) -> E0;
}
pub trait N2: N1 {
    fn a2(&self, t: V) -> E1;
}
pub trait N3: N2 {
    fn a3(&self, t: V) -> E2;
}
impl<N: Dif + Differentiable<V>> N1 for N
where
    N::Adjoint: N0 + 'static,
{
    fn a1(&self, t: V) -> E0 { E0(Rc::new(self.adjoint(t))) }
}
impl<N: N1 + Differentiable<V>> N2 for N
where
    N::Adjoint: N1 + 'static,
{
    fn a2(&self, t: V) -> E1 { E1(Rc::new(self.adjoint(t))) }
}
impl<N: N2 + Differentiable<V>> N3 for N
where
    N::Adjoint: N2 + 'static,
{
    fn a3(&self, t: V) -> E2 { E2(Rc::new(self.adjoint(t))) }
}

macro_rules! erased {
    ($($E:ident $N:ident;)*) => { $(
        #[derive(Clone)]
        pub struct $E(pub Rc<dyn $N>);
        impl Node for $E {}
        impl Function<Env> for $E {
            type Value = f64;
            type Error = DErr;
            fn evaluate<CR: AsMut<Env>>(&self, mut c: CR) -> AegirResult<Self, Env> { self.0.ev(c.as_mut()) }
            fn evaluate_spec<CR: AsMut<Env>>(&self, mut c: CR) -> Result<Spec<f64>, DErr> { self.0.sp(c.as_mut()) }
            fn evaluate_shape<CR: AsMut<Env>>(&self, mut c: CR) -> Result<S0, DErr> { self.0.sh(c.as_mut()) }
        }
        impl Contains<V> for $E {
            fn contains(&self, v: V) -> bool { self.0.has(v) }
        }
        impl ToExpr for $E {
            fn to_expr(&self) -> Expr { self.0.ex() }
        }
        impl Display for $E {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0.show()) }
        }
        impl Debug for $E {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0.debug()) }
        }
    )* }
}
erased!(E0 N0; E1 N1; E2 N2; E3 N3;);
macro_rules! dif {
    ($E:ident $Adj:ident $a:ident) => {
        impl Differentiable<V> for $E {
            type Adjoint = $Adj;
            fn adjoint(&self, t: V) -> $Adj { self.0.$a(t) }
        }
    };
}
dif!(E1 E0 a1);
dif!(E2 E1 a2);
dif!(E3 E2 a3);

/// Nodes without a rendering (sums, cached nodes): everything else is forwarded.
#[derive(Clone)]
pub struct Mute<N>(pub N);
impl<N: Node> Node for Mute<N> {}
impl<N: Contains<V>> Contains<V> for Mute<N> {
    fn contains(&self, v: V) -> bool { self.0.contains(v) }
}
impl<N: Function<Env>> Function<Env> for Mute<N> {
    type Value = N::Value;
    type Error = N::Error;
    fn evaluate<CR: AsMut<Env>>(&self, c: CR) -> AegirResult<Self, Env> { self.0.evaluate(c) }
    fn evaluate_spec<CR: AsMut<Env>>(&self, c: CR) -> Result<Spec<N::Value>, N::Error> { self.0.evaluate_spec(c) }
    fn evaluate_shape<CR: AsMut<Env>>(&self, c: CR) -> Result<aegir::buffers::shapes::ShapeOf<N::Value>, N::Error> { self.0.evaluate_shape(c) }
}
impl<N: Differentiable<V>> Differentiable<V> for Mute<N> {
    type Adjoint = N::Adjoint;
    fn adjoint(&self, t: V) -> N::Adjoint { self.0.adjoint(t) }
}
impl<N: Node> ToExpr for Mute<N> {
    fn to_expr(&self) -> Expr { Expr::Text(aegir::fmt::PreWrap { text: "?".into(), needs_wrap: false }) }
}
impl<N> Display for Mute<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("?") }
}
impl<N: Debug> Debug for Mute<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) }
}
