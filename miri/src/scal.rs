//! Scalar types under observation: besides the machine types, a field whose elements are
//! references (any uninitialised, torn or foreign bit pattern is caught when it is used), in two
//! flavours that differ in whether counts convert into them, and a fault injector.
use aegir::buffers::{shapes::*, *};
use num_traits::{FromPrimitive, Num, One, ToPrimitive, Zero};
use std::cell::Cell;

thread_local! {
    static LEFT: Cell<u64> = Cell::new(u64::MAX);
    static TICKS: Cell<u64> = Cell::new(0);
}
pub struct Fault;
pub fn set_fault(k: u64) {
    LEFT.with(|l| l.set(k));
    TICKS.with(|l| l.set(0));
}
pub fn ticks() -> u64 { TICKS.with(|t| t.get()) }
/// A crash point.
pub fn tick() {
    TICKS.with(|t| t.set(t.get() + 1));
    let k = LEFT.with(|l| l.get());
    if k != u64::MAX {
        if k == 0 {
            LEFT.with(|l| l.set(u64::MAX));
            std::panic::panic_any(Fault);
        }
        LEFT.with(|l| l.set(k - 1));
    }
}

static TABLE: [u8; 5] = [0, 1, 2, 3, 4];

macro_rules! field {
    ($Z:ident, $counts:expr) => {
        #[derive(Copy, Clone, Debug)]
        pub struct $Z(&'static u8);
        impl $Z {
            fn of(v: u8) -> $Z {
                tick();
                $Z(&TABLE[(v % 5) as usize])
            }
        }
        impl PartialEq for $Z {
            fn eq(&self, o: &$Z) -> bool { *self.0 == *o.0 }
        }
        impl std::ops::Add for $Z {
            type Output = $Z;
            fn add(self, o: $Z) -> $Z { $Z::of(*self.0 + *o.0) }
        }
        impl std::ops::Sub for $Z {
            type Output = $Z;
            fn sub(self, o: $Z) -> $Z { $Z::of(*self.0 + 5 - *o.0) }
        }
        impl std::ops::Mul for $Z {
            type Output = $Z;
            fn mul(self, o: $Z) -> $Z { $Z::of(*self.0 * *o.0) }
        }
        impl std::ops::Div for $Z {
            type Output = $Z;
            fn div(self, o: $Z) -> $Z { $Z::of(*self.0 * [0, 1, 3, 2, 4][*o.0 as usize]) }
        }
        impl std::ops::Rem for $Z {
            type Output = $Z;
            fn rem(self, _: $Z) -> $Z { $Z::of(0) }
        }
        impl std::ops::Neg for $Z {
            type Output = $Z;
            fn neg(self) -> $Z { $Z::of(5 - *self.0) }
        }
        impl Zero for $Z {
            fn zero() -> $Z { $Z::of(0) }
            fn is_zero(&self) -> bool { *self.0 == 0 }
        }
        impl One for $Z {
            fn one() -> $Z { $Z::of(1) }
        }
        impl Num for $Z {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<$Z, ()> { Err(()) }
        }
        impl FromPrimitive for $Z {
            fn from_i64(n: i64) -> Option<$Z> { if $counts { Some($Z::of(n.rem_euclid(5) as u8)) } else { None } }
            fn from_u64(n: u64) -> Option<$Z> { if $counts { Some($Z::of((n % 5) as u8)) } else { None } }
        }
        impl ToPrimitive for $Z {
            fn to_i64(&self) -> Option<i64> { Some(*self.0 as i64) }
            fn to_u64(&self) -> Option<u64> { Some(*self.0 as u64) }
        }
        impl Shaped for $Z {
            type Shape = S0;
            fn shape(&self) -> S0 { S0 }
        }
        impl Buffer for $Z {
            type Class = Scalars;
            type Field = $Z;
            fn class() -> Scalars { Scalars }
            fn get_unchecked(&self, _: ()) -> $Z { *self }
            fn map<F: Scalar, M: Fn($Z) -> F>(self, f: M) -> F { f(self) }
            fn map_ref<F: Scalar, M: Fn($Z) -> F>(&self, f: M) -> F { f(*self) }
            fn mutate<M: Fn($Z) -> $Z>(&mut self, f: M) { *self = f(*self) }
            fn fold<F, M: Fn(F, $Z) -> F>(&self, init: F, f: M) -> F { f(init, *self) }
        }
        impl ZipFold for $Z {
            fn zip_fold<A: Scalar, M: Fn(A, ($Z, $Z)) -> A>(&self, rhs: &$Z, init: A, f: M) -> Result<A, IncompatibleShapes<S0>> { Ok(f(init, (*self, *rhs))) }
        }
        impl ZipMap for $Z {
            type Output<A: Scalar> = A;
            fn zip_map<A: Scalar, M: Fn($Z, $Z) -> A>(self, rhs: &$Z, f: M) -> Result<A, IncompatibleShapes<S0>> { Ok(f(self, *rhs)) }
            fn zip_shape(self, _: S0) -> Result<$Z, IncompatibleShapes<S0>> { Ok(self) }
        }
        impl Scalar for $Z {}
        impl Sc for $Z {
            const NAME: &'static str = stringify!($Z);
            fn nth(i: usize) -> $Z { $Z(&TABLE[i % 5]) }
            fn look(&self) -> usize { *self.0 as usize }
        }
    };
}
field!(Z5, true);
field!(Y5, false);

/// What the harness needs of a scalar: a value for every number, and a way to use a value so that
/// an invalid one is noticed.
pub trait Sc: Scalar + FromPrimitive + 'static + std::fmt::Debug {
    const NAME: &'static str;
    fn nth(i: usize) -> Self;
    fn look(&self) -> usize;
}
macro_rules! machine {
    ($($T:ty)*) => {$(
        impl Sc for $T {
            const NAME: &'static str = stringify!($T);
            fn nth(i: usize) -> $T { (i % 4) as $T }
            fn look(&self) -> usize { if *self > (1 as $T) { 1 } else { 0 } }
        }
    )*};
}
machine!(f64 f32 u8 u16 i32 i64 usize);

/// Use every entry of a buffer.
pub fn look<B: Buffer>(b: &B)
where
    B::Field: Sc,
{
    let n = b.fold(0usize, |a, x| a + x.look());
    let mut m = 0;
    for ix in b.shape().indices() {
        m += b.get_unchecked(ix).look();
    }
    assert_eq!(n, m);
}
pub fn look_spec<B: Buffer>(s: Spec<B>)
where
    B::Field: Sc,
{
    match &s {
        Spec::Full(_, x) | Spec::Diagonal(_, x) => {
            x.look();
        }
        _ => {}
    }
    look(&s.unwrap());
}

/// The representations of a buffer of a shape.
pub fn forms() -> usize { if crate::THOROUGH.with(|t| t.get()) { 6 } else { 4 } }
pub fn form<B: Buffer>(s: B::Shape, k: usize) -> Spec<B>
where
    B::Field: Sc,
{
    match k {
        0 => Spec::Raw(raw::<B>(s)),
        1 => Spec::Full(s, B::Field::nth(0)),
        2 => Spec::Full(s, B::Field::nth(2)),
        3 => Spec::Diagonal(s, B::Field::nth(3)),
        4 => Spec::Diagonal(s, B::Field::nth(0)),
        _ => Spec::Raw(<B::Class as Class<B::Shape>>::build(s, |_| B::Field::nth(0))),
    }
}
pub fn raw<B: Buffer>(s: B::Shape) -> B
where
    B::Field: Sc,
{
    let c = Cell::new(0);
    <B::Class as Class<B::Shape>>::build(s, |_| {
        c.set(c.get() + 1);
        B::Field::nth(c.get())
    })
}
