//! Reference tensors and the bridge between them and aegir's shapes and buffers.
use aegir::buffers::{shapes::*, Arrays, Buffer, Class, Scalar, Scalars, Tuples, Vecs};

// ---------------------------------------------------------------- indices and shapes
pub trait IxV: Ix {
    fn v(&self) -> Vec<usize>;
    fn of(v: &[usize]) -> Self;
}
impl IxV for () {
    fn v(&self) -> Vec<usize> { vec![] }
    fn of(_: &[usize]) {}
}
impl IxV for usize {
    fn v(&self) -> Vec<usize> { vec![*self] }
    fn of(v: &[usize]) -> usize { v[0] }
}
impl<const N: usize> IxV for [usize; N] {
    fn v(&self) -> Vec<usize> { self.to_vec() }
    fn of(v: &[usize]) -> Self { <[usize; N]>::try_from(v).unwrap() }
}

pub trait ShV: Shape {
    fn dims(&self) -> Vec<usize>;
}
impl ShV for S0 {
    fn dims(&self) -> Vec<usize> { vec![] }
}
impl<const A: usize> ShV for S1<A> {
    fn dims(&self) -> Vec<usize> { vec![A] }
}
impl<const A: usize, const B: usize> ShV for S2<A, B> {
    fn dims(&self) -> Vec<usize> { vec![A, B] }
}
impl<const A: usize, const B: usize, const C: usize> ShV for S3<A, B, C> {
    fn dims(&self) -> Vec<usize> { vec![A, B, C] }
}
impl<const A: usize, const B: usize, const C: usize, const D: usize> ShV for S4<A, B, C, D> {
    fn dims(&self) -> Vec<usize> { vec![A, B, C, D] }
}
impl<const A: usize, const B: usize, const C: usize, const D: usize, const E: usize> ShV for S5<A, B, C, D, E> {
    fn dims(&self) -> Vec<usize> { vec![A, B, C, D, E] }
}
impl<const A: usize, const B: usize, const C: usize, const D: usize, const E: usize, const F: usize> ShV for S6<A, B, C, D, E, F> {
    fn dims(&self) -> Vec<usize> { vec![A, B, C, D, E, F] }
}
impl<const N: usize> ShV for SDynamic<N> {
    fn dims(&self) -> Vec<usize> { self.0.to_vec() }
}

/// All indices of a shape in row-major order (the reference enumeration).
pub fn rows(dims: &[usize]) -> Vec<Vec<usize>> {
    let n: usize = dims.iter().product();
    let mut out = Vec::with_capacity(n);
    for k in 0..n {
        let mut r = k;
        let mut ix = vec![0; dims.len()];
        for d in (0..dims.len()).rev() {
            ix[d] = r % dims[d];
            r /= dims[d];
        }
        out.push(ix);
    }
    out
}
pub fn lin(dims: &[usize], ix: &[usize]) -> usize { dims.iter().zip(ix).fold(0, |a, (d, i)| a * d + i) }
pub fn is_diag(ix: &[usize]) -> bool { ix.windows(2).all(|w| w[0] == w[1]) }

// ---------------------------------------------------------------- reference tensors
#[derive(Clone, Debug, PartialEq)]
pub struct T<F> {
    pub dims: Vec<usize>,
    pub data: Vec<F>,
}
impl<F: Clone> T<F> {
    pub fn build(dims: &[usize], f: impl FnMut(&[usize]) -> F) -> T<F> {
        let mut f = f;
        T { dims: dims.to_vec(), data: rows(dims).iter().map(|ix| f(ix)).collect() }
    }
    pub fn scalar(f: F) -> T<F> { T { dims: vec![], data: vec![f] } }
    pub fn at(&self, ix: &[usize]) -> F { self.data[lin(&self.dims, ix)].clone() }
    pub fn map<G: Clone>(&self, f: impl Fn(F) -> G) -> T<G> { T { dims: self.dims.clone(), data: self.data.iter().cloned().map(f).collect() } }
    /// element-wise with scalar broadcasting; None if the shapes are incompatible
    pub fn zip<H: Clone, G: Clone>(&self, o: &T<H>, f: impl Fn(F, H) -> G) -> Option<T<G>> {
        if self.dims == o.dims {
            Some(T { dims: self.dims.clone(), data: self.data.iter().cloned().zip(o.data.iter().cloned()).map(|(a, b)| f(a, b)).collect() })
        } else if self.dims.is_empty() {
            Some(o.map(|b| f(self.data[0].clone(), b)))
        } else if o.dims.is_empty() {
            Some(self.map(|a| f(a, o.data[0].clone())))
        } else {
            None
        }
    }
}

/// A buffer type that can be read back into / built from a reference tensor without going
/// through aegir code.
pub trait Kind: Buffer {
    fn t(&self) -> T<Self::Field>;
    fn of(t: &T<Self::Field>) -> Self;
    fn name() -> String;
}
impl<F: Scalar> Kind for (F, F) {
    fn t(&self) -> T<F> { T { dims: vec![2], data: vec![self.0, self.1] } }
    fn of(t: &T<F>) -> Self { (t.data[0], t.data[1]) }
    fn name() -> String { "tuple".into() }
}
impl<F: Scalar> Kind for Vec<F> {
    fn t(&self) -> T<F> { T { dims: vec![self.len()], data: self.clone() } }
    fn of(t: &T<F>) -> Self { t.data.clone() }
    fn name() -> String { "vec".into() }
}
/// Elements of (nested) arrays: concrete scalars and arrays of elements.
pub trait El: Copy {
    type F: Scalar;
    fn dims() -> Vec<usize>;
    fn push(&self, out: &mut Vec<Self::F>);
    fn pull(it: &mut dyn Iterator<Item = Self::F>) -> Self;
}
#[macro_export]
macro_rules! kind_for_scalar { ($($f:ty),*) => { $(
    impl $crate::tens::El for $f {
        type F = $f;
        fn dims() -> Vec<usize> { vec![] }
        fn push(&self, out: &mut Vec<$f>) { out.push(*self) }
        fn pull(it: &mut dyn Iterator<Item = $f>) -> $f { it.next().unwrap() }
    }
    impl $crate::tens::Kind for $f {
        fn t(&self) -> $crate::tens::T<$f> { $crate::tens::T::scalar(*self) }
        fn of(t: &$crate::tens::T<$f>) -> $f { t.data[0] }
        fn name() -> String { stringify!($f).into() }
    }
)* } }
kind_for_scalar!(f32, f64, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl<X: El, const N: usize> El for [X; N] {
    type F = X::F;
    fn dims() -> Vec<usize> {
        let mut d = vec![N];
        d.extend(X::dims());
        d
    }
    fn push(&self, out: &mut Vec<X::F>) {
        for x in self {
            x.push(out)
        }
    }
    fn pull(it: &mut dyn Iterator<Item = X::F>) -> Self { std::array::from_fn(|_| X::pull(it)) }
}
impl<X: El, const N: usize> Kind for [X; N]
where [X; N]: Buffer<Field = X::F>
{
    fn t(&self) -> T<X::F> {
        let mut data = vec![];
        self.push(&mut data);
        T { dims: <Self as El>::dims(), data }
    }
    fn of(t: &T<X::F>) -> Self {
        assert!(t.dims == <Self as El>::dims(), "HARNESS: dims");
        <Self as El>::pull(&mut t.data.iter().copied())
    }
    fn name() -> String { format!("arr{:?}", <Self as El>::dims()) }
}

/// Classes by name, for messages.
pub trait ClassName {
    const NAME: &'static str;
}
impl ClassName for Scalars {
    const NAME: &'static str = "Scalars";
}
impl ClassName for Tuples {
    const NAME: &'static str = "Tuples";
}
impl ClassName for Vecs {
    const NAME: &'static str = "Vecs";
}
impl ClassName for Arrays {
    const NAME: &'static str = "Arrays";
}
pub fn _use<C: Class<S0>>() {}

// ---------------------------------------------------------------- cartesian products of literals
/// `cart!{ mac!(fixed args) [1 2 3] [0 1] }` expands to `mac!{fixed args; 1, 0}` ... for all
/// combinations.
#[macro_export]
macro_rules! cart {
    ($m:ident!($($fix:tt)*) $($lists:tt)*) => { $crate::cart!(@go $m [$($fix)*] () [$($lists)*]); };
    (@go $m:ident [$($fix:tt)*] ($($done:tt)*) []) => { $m!{$($fix)*; $($done),*} };
    (@go $m:ident $fix:tt $done:tt [$xs:tt $($rest:tt)*]) => { $crate::cart!(@each $m $fix $done $xs [$($rest)*]); };
    (@each $m:ident $fix:tt $done:tt [$($x:tt)*] $rest:tt) => { $( $crate::cart!(@push $m $fix $done $x $rest); )* };
    (@push $m:ident $fix:tt ($($done:tt)*) $x:tt $rest:tt) => {
        $crate::cart!(@go $m $fix ($($done)* $x) $rest);
    };
}
