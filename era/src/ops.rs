//! The operator table and the construction of real nodes from syntax trees.
use crate::{ast::*, *};
use aegir::{buffers::Buffer, ops};
use Meaning::*;

/// What an operator means (independent of how it is built).
#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Meaning {
    SubOne, OneSub, AddOne, Square, Double, Negate, Dirac, Sign, Abs, Ln, XLnX, Exp, Rabbit, Sigmoid,
    Gamma, DiGamma, LogGamma, Erf, Factorial, Erfc,
    Cos, Sin, Cosh, ArcCos, ArcCosh, Sinh, ArcSin, ArcSinh, Tan, Tanh, ArcTan, ArcTanh,
    Id,
    Add, Sub, Mul, Div, Power,
}
pub struct Op {
    pub name: &'static str,
    pub mean: Meaning,
    /// How often it can be differentiated (9 = any number of times).
    pub level: u8,
    /// Has a rendering of its own.
    pub shows: bool,
    m0: fn(&[E0]) -> E0,
    m1: Option<fn(&[E1]) -> E1>,
    m2: Option<fn(&[E2]) -> E2>,
    m3: Option<fn(&[E3]) -> E3>,
}
macro_rules! un {
    (@f $E:ident, $f:expr) => { |k: &[$E]| $E(Rc::new(($f)(k[0].clone()))) };
    ($n:literal $m:ident 9 $s:literal $f:expr) => { Op { name: $n, mean: $m, level: 9, shows: $s, m0: un!(@f E0, $f), m1: Some(un!(@f E1, $f)), m2: Some(un!(@f E2, $f)), m3: Some(un!(@f E3, $f)) } };
    ($n:literal $m:ident 2 $s:literal $f:expr) => { Op { name: $n, mean: $m, level: 2, shows: $s, m0: un!(@f E0, $f), m1: Some(un!(@f E1, $f)), m2: Some(un!(@f E2, $f)), m3: None } };
    ($n:literal $m:ident 1 $s:literal $f:expr) => { Op { name: $n, mean: $m, level: 1, shows: $s, m0: un!(@f E0, $f), m1: Some(un!(@f E1, $f)), m2: None, m3: None } };
    ($n:literal $m:ident 0 $s:literal $f:expr) => { Op { name: $n, mean: $m, level: 0, shows: $s, m0: un!(@f E0, $f), m1: None, m2: None, m3: None } };
}
macro_rules! bi {
    (@f $E:ident, $f:expr) => { |k: &[$E]| $E(Rc::new(($f)(k[0].clone(), k[1].clone()))) };
    ($n:literal $m:ident $f:expr) => { Op { name: $n, mean: $m, level: 9, shows: true, m0: bi!(@f E0, $f), m1: Some(bi!(@f E1, $f)), m2: Some(bi!(@f E2, $f)), m3: Some(bi!(@f E3, $f)) } };
}
pub static UN: [Op; 33] = [
    un!("Negate" Negate 9 true ops::Negate),
    un!("Square" Square 9 true ops::Square),
    un!("Exp" Exp 9 true ops::Exp),
    un!("Ln" Ln 9 true ops::Ln),
    un!("Sin" Sin 9 true ops::trig::Sin),
    un!("Cos" Cos 9 true ops::trig::Cos),
    un!("Sigmoid" Sigmoid 9 true ops::Sigmoid),
    un!("Rabbit" Rabbit 9 true ops::Rabbit),
    un!("XLnX" XLnX 9 true ops::XLnX),
    un!("OneSub" OneSub 9 true ops::OneSub),
    un!("SubOne" SubOne 9 true ops::SubOne),
    un!("AddOne" AddOne 9 true ops::AddOne),
    un!("Double" Double 9 true ops::Double),
    un!("Sum" Id 9 false |k| Mute(ops::Sum(k))),
    un!("Abs" Abs 2 true ops::Abs),
    un!("Sign" Sign 1 true ops::Sign),
    un!("Gamma" Gamma 1 true ops::special::Gamma),
    un!("LogGamma" LogGamma 1 true ops::special::LogGamma),
    un!("Factorial" Factorial 1 true ops::special::Factorial::factorial),
    un!("Dirac" Dirac 0 true ops::Dirac),
    un!("DiGamma" DiGamma 0 true ops::special::DiGamma),
    un!("Erf" Erf 0 true ops::special::Erf),
    un!("Erfc" Erfc 0 true ops::special::Erfc::erfc),
    un!("Cosh" Cosh 0 true ops::trig::Cosh),
    un!("ArcCos" ArcCos 0 true ops::trig::ArcCos),
    un!("ArcCosh" ArcCosh 0 true ops::trig::ArcCosh),
    un!("Sinh" Sinh 0 true ops::trig::Sinh),
    un!("ArcSin" ArcSin 0 true ops::trig::ArcSin),
    un!("ArcSinh" ArcSinh 0 true ops::trig::ArcSinh),
    un!("Tan" Tan 0 true ops::trig::Tan),
    un!("Tanh" Tanh 0 true ops::trig::Tanh),
    un!("ArcTan" ArcTan 0 true ops::trig::ArcTan),
    un!("ArcTanh" ArcTanh 0 true ops::trig::ArcTanh),
];
pub static BI: [Op; 7] = [
    bi!("Add" Add ops::Add),
    bi!("Sub" Sub ops::Sub),
    bi!("Mul" Mul ops::Mul),
    bi!("Div" Div ops::Div),
    bi!("Power" Power ops::Power),
    bi!("TensorProduct" Mul |l, r| ops::TensorProduct::new(l, r)),
    bi!("TensorDot" Mul |l, r| ops::TensorDot::new(l, r)),
];
pub fn un(name: &str) -> &'static Op { UN.iter().find(|o| o.name == name).unwrap_or_else(|| panic!("HARNESS: no operator {}", name)) }
pub fn bi(name: &str) -> &'static Op { BI.iter().find(|o| o.name == name).unwrap_or_else(|| panic!("HARNESS: no operator {}", name)) }

/// Constants are built from a dense value and from the two lifted representations.
fn constant(c: f64) -> aegir::meta::Constant<f64> { c.into_constant() }

macro_rules! mk {
    ($mk:ident $E:ident $m:ident) => {
        impl Tr {
            /// The real node of this tree (None if it cannot be differentiated that often).
            pub fn $mk(&self) -> Option<$E> {
                Some(match self {
                    Tr::Var(v) => $E(Rc::new(V(*v).into_var())),
                    Tr::Const(c) => $E(Rc::new(constant(*c))),
                    Tr::Adj(b) => $E(Rc::new(V(0).into_var().adjoint(V(!*b as u8)))),
                    Tr::Un(o, k) => {
                        let f = mk!(@get o $m);
                        f(&[k.$mk()?])
                    },
                    Tr::Bi(o, k) => {
                        let f = mk!(@get o $m);
                        f(&[k.0.$mk()?, k.1.$mk()?])
                    },
                    Tr::Cached(v, k) => $E(Rc::new(Mute(k.$mk()?.cached(V(*v))))),
                })
            }
        }
    };
    (@get $o:ident m0) => { $o.m0 };
    (@get $o:ident $m:ident) => { $o.$m? };
}
mk!(mk0 E0 m0);
mk!(mk1 E1 m1);
mk!(mk2 E2 m2);
mk!(mk3 E3 m3);
