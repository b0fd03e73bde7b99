//! Expressions over buffers: evaluation, lifted evaluation, shapes, adjoints, duals and caches.
use crate::{go, scal::*, Run};
use aegir::buffers::{shapes::*, *};
use aegir::ids::{X, Y, Z};
use aegir::ops::{trig, *};
use aegir::{Context, Differentiable, Function, Identifier, Read, Write};

/// A context whose buffers answer in a chosen representation; either may be missing; `Z` can be
/// written.
struct Cx<A: Buffer, B: Buffer, S: Buffer> {
    x: Option<Spec<A>>,
    y: Option<Spec<B>>,
    z: Option<Spec<S>>,
}
impl<A: Buffer, B: Buffer, S: Buffer> AsMut<Cx<A, B, S>> for Cx<A, B, S> {
    fn as_mut(&mut self) -> &mut Self { self }
}
impl<A: Buffer, B: Buffer, S: Buffer> Context for Cx<A, B, S> {}
macro_rules! slot {
    ($I:ident $f:ident $T:ident) => {
        impl<A: Buffer, B: Buffer, S: Buffer> Read<$I> for Cx<A, B, S> {
            type Buffer = $T;
            fn read(&self, _: $I) -> Option<$T> {
                tick();
                self.$f.clone().map(|s| s.unwrap())
            }
            fn read_spec(&self, _: $I) -> Option<Spec<$T>> {
                tick();
                self.$f.clone()
            }
            fn read_shape(&self, _: $I) -> Option<$T::Shape> { self.$f.as_ref().map(|s| s.shape()) }
        }
    };
}
slot!(X x A);
slot!(Y y B);
slot!(Z z S);
impl<A: Buffer, B: Buffer, S: Buffer> Write<Z> for Cx<A, B, S> {
    fn write(&mut self, _: Z, v: S) {
        tick();
        self.z = Some(Spec::Raw(v))
    }
}

fn eval<A, B, N>(sx: A::Shape, sy: B::Shape, n: &N, forms: &[(usize, usize)])
where
    A: Buffer,
    B: Buffer,
    A::Field: Sc,
    B::Field: Sc,
    N: Function<Cx<A, B, A>>,
    <N::Value as Buffer>::Field: Sc,
{
    for (i, j) in forms {
        crate::faults(crate::THOROUGH.with(|t| t.get()) || FEW[..3].contains(&(*i, *j)));
        let cx = || Cx::<A, B, A> { x: Some(form::<A>(sx, *i)), y: Some(form::<B>(sy, *j)), z: None };
        go(|| n.evaluate_spec(cx()).map(|s| look_spec(s)).is_ok());
        go(|| n.evaluate_shape(cx()).map(|s| s.cardinality()).is_ok());
        go(|| {
            // a context that lives on after a failed evaluation
            let mut c = cx();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| n.evaluate(&mut c).map(|b| look(&b)).is_ok()));
            let _ = n.evaluate(&mut c).map(|b| look(&b)).map_err(|e| e.to_string());
            r.is_ok()
        });
    }
    // a missing input
    crate::faults(false);
    go(|| n.evaluate(Cx::<A, B, A> { x: Some(form::<A>(sx, 0)), y: None, z: None }).map(|b| look(&b)).map_err(|e| (e.to_string(), format!("{e:?}"))).is_ok());
    go(|| n.evaluate_spec(Cx::<A, B, A> { x: None, y: Some(form::<B>(sy, 0)), z: None }).map(|s| look_spec(s)).map_err(|e| (e.to_string(), format!("{e:?}"))).is_ok());
    go(|| n.evaluate_shape(Cx::<A, B, A> { x: None, y: None, z: None }).map(|s| s.cardinality()).map_err(|e| (e.to_string(), format!("{e:?}"))).is_ok());
}
fn all_forms() -> Vec<(usize, usize)> { (0..forms()).flat_map(|i| (0..forms()).map(move |j| (i, j))).collect() }
const FEW: [(usize, usize); 6] = [(0, 0), (3, 0), (2, 3), (0, 1), (3, 3), (1, 2)];

/// Evaluate a node and (where it exists) its adjoint with respect to both variables.
macro_rules! node { ($A:ty, $B:ty, $sx:expr, $sy:expr, $forms:expr; $($n:expr),* $(,)?) => { $( eval::<$A, $B, _>($sx, $sy, &$n, $forms); )* } }
macro_rules! grad { ($A:ty, $B:ty, $sx:expr, $sy:expr, $forms:expr; $($n:expr),* $(,)?) => { $(
    eval::<$A, $B, _>($sx, $sy, &$n, $forms);
    eval::<$A, $B, _>($sx, $sy, &$n.adjoint(X), $forms);
    eval::<$A, $B, _>($sx, $sy, &$n.adjoint(Y), $forms);
)* } }

fn x() -> aegir::meta::Variable<X> { X.into_var() }
fn y() -> aegir::meta::Variable<Y> { Y.into_var() }

/// Arithmetic on a shape with itself and with a scalar, and the adjoints that exist.
fn vector<F: Sc + std::ops::Neg<Output = F>, const N: usize>(r: &mut Run) {
    let forms = all_forms();
    type A<F, const N: usize> = [F; N];
    if r.group(format_args!("expressions {} [{N}], part 1", F::NAME)) {
        node!(A<F, N>, A<F, N>, S1, S1, &forms;
            Add(x(), y()), Sub(x(), y()), Mul(x(), y()), Div(x(), y()), Contract::<0, _, _>(x(), y()), Contract::<1, _, _>(x(), y()),
            Sum(x()), Add(Mul(x(), y()), x()), AddOne(x()), OneSub(y()), Double(y()),
            Contract::<1, _, _>(Add(x(), y()), Sub(x(), x())));
    }
    if r.group(format_args!("expressions {} [{N}], part 2", F::NAME)) {
        node!(A<F, N>, F, S1, S0, &forms;
            Add(x(), y()), Add(y(), x()), Mul(x(), y()), Mul(y(), x()), Sub(y(), x()), Contract::<0, _, _>(x(), y()), Contract::<0, _, _>(y(), x()));
    }
    if r.group(format_args!("expressions {} [{N}], part 3", F::NAME)) {
        node!(A<F, N>, A<F, N>, S1, S1, &FEW;
            aegir::meta::Cached { node: Mul(x(), y()), ident: Z }, Add(aegir::meta::Cached { node: Mul(x(), y()), ident: Z }, aegir::meta::Cached { node: Mul(x(), y()), ident: Z }));
    }
    if r.group(format_args!("expressions {} [{N}], part 4", F::NAME)) {
        grad!(A<F, N>, A<F, N>, S1, S1, &FEW; Add(x(), y()), Sub(x(), y()));
    }
    // the Jacobian of a variable, contracted from either side
    if r.group(format_args!("expressions {} [{N}], part 5", F::NAME)) {
        node!(A<F, N>, A<F, N>, S1, S1, &FEW;
            x().adjoint(X), x().adjoint(Y),
            Contract::<1, _, _>(x().adjoint(X), y()), Contract::<1, _, _>(y(), x().adjoint(X)), Contract::<1, _, _>(x().adjoint(X), x().adjoint(X)),
            Contract::<1, _, _>(x().adjoint(Y), y()), Contract::<1, _, _>(y(), x().adjoint(Y)));
    }
    if r.group(format_args!("expressions {} [{N}], part 6", F::NAME)) {
        grad!(A<F, N>, A<F, N>, S1, S1, &FEW; Contract::<1, _, _>(x(), y()));
    }
}
fn matrix<F: Sc + std::ops::Neg<Output = F>, const N: usize, const M: usize>(r: &mut Run) {
    let forms = all_forms();
    type A<F, const N: usize, const M: usize> = [[F; M]; N];
    if r.group(format_args!("expressions {} [{N}][{M}], part 1", F::NAME)) {
        node!(A<F, N, M>, [F; N], S2, S1, &forms; Contract::<1, _, _>(x(), y()), Contract::<1, _, _>(y(), x()), Contract::<1, _, _>(Mul(x(), x()), y()));
    }
    if r.group(format_args!("expressions {} [{N}][{M}], part 2", F::NAME)) {
        node!(A<F, N, M>, [[F; N]; M], S2, S2, &forms; Contract::<1, _, _>(x(), y()), Contract::<1, _, _>(y(), x()));
    }
    if r.group(format_args!("expressions {} [{N}][{M}], part 3", F::NAME)) {
        node!(A<F, N, M>, A<F, N, M>, S2, S2, &forms; Add(x(), y()), Mul(x(), y()), Sub(x(), y()), Sum(x()));
    }
    if r.group(format_args!("expressions {} [{N}][{M}], part 4", F::NAME)) {
        node!(A<F, N, M>, F, S2, S0, &FEW; Add(x(), y()), Mul(y(), x()));
    }
    if r.group(format_args!("expressions {} [{N}][{M}], part 5", F::NAME)) {
        node!(A<F, N, M>, [F; M], S2, S1, &FEW; x().adjoint(X), x().adjoint(Y), y().adjoint(Y));
    }
}
/// Floating operators over a vector and a scalar operand.
fn floats<const N: usize>(r: &mut Run) {
    if !r.group(format_args!("floating expressions [{N}]")) { return }
    type A<const N: usize> = [f64; N];
    node!(A<N>, f64, S1, S0, &FEW;
        Ln(x()), XLnX(x()), Exp(x()), Sigmoid(x()), Rabbit(x()), Abs(x()), Sign(x()), Dirac(x()), Negate(x()), Sum(x()), SubOne(x()), OneSub(x()), AddOne(x()), Double(x()), Square(x()),
        trig::Cos(x()), trig::Sin(x()), trig::ArcTan(x()), trig::Tanh(x()), Div(x(), y()));
}
fn scalars(r: &mut Run) {
    if !r.group(format_args!("floating expressions, scalars")) { return }
    grad!(f64, f64, S0, S0, &FEW;
        Ln(x()), Exp(x()), Sigmoid(x()), Power(x(), y()), Abs(x()), Negate(x()), Sum(x()), SubOne(x()), OneSub(x()), AddOne(x()), Double(x()), Square(x()),
        trig::Cos(x()), trig::Sin(x()), Div(x(), y()), Mul(x(), Power(y(), x())), Contract::<0, _, _>(x(), y()), Contract::<1, _, _>(x(), y()));
    go(|| {
        let mut c = Cx::<f64, f64, f64> { x: Some(Spec::Raw(2.0)), y: Some(Spec::Full(S0, 3.0)), z: None };
        Mul(x(), y()).evaluate_dual(X, &mut c).map(|d| (d + d) * d - d).is_ok()
    });
    go(|| {
        let e = Mul(Add(x(), y()), Power(x(), 2.0f64.into_constant()));
        (e.to_string(), e.adjoint(X).to_string(), format!("{e:?}"))
    });
}
/// Vectors of run-time length: equal and different lengths.
fn runtime<F: Sc + std::ops::Neg<Output = F>>(r: &mut Run, n: usize, m: usize) {
    if !r.group(format_args!("expressions {} vec {n} {m}", F::NAME)) { return }
    let forms = all_forms();
    let (sn, sm) = (SDynamic([n]), SDynamic([m]));
    node!(Vec<F>, Vec<F>, sn, sm, &forms; Add(x(), y()), Sub(x(), y()), Mul(x(), y()), Div(x(), y()), Sum(x()), Add(Mul(x(), y()), x()), Double(x()));
    node!(Vec<F>, F, sn, S0, &forms; Add(x(), y()), Mul(y(), x()), Sub(y(), x()));
    node!(Vec<F>, Vec<F>, sn, sm, &FEW;
        aegir::meta::Cached { node: Add(x(), y()), ident: Z }, Mul(aegir::meta::Cached { node: Add(x(), y()), ident: Z }, y()));
}

pub fn all(r: &mut Run) {
    macro_rules! scalars { ($($F:ty)*) => { $(
        vector::<$F, 0>(r);
        vector::<$F, 1>(r);
        vector::<$F, 2>(r);
        vector::<$F, 3>(r);
        matrix::<$F, 0, 0>(r);
        matrix::<$F, 0, 1>(r);
        matrix::<$F, 1, 0>(r);
        matrix::<$F, 0, 2>(r);
        matrix::<$F, 2, 0>(r);
        matrix::<$F, 1, 1>(r);
        matrix::<$F, 1, 2>(r);
        matrix::<$F, 2, 1>(r);
        matrix::<$F, 2, 2>(r);
        matrix::<$F, 1, 3>(r);
        matrix::<$F, 3, 1>(r);
        matrix::<$F, 2, 3>(r);
        matrix::<$F, 3, 2>(r);
        matrix::<$F, 3, 3>(r);
        for n in 0..3 {
            for m in 0..3 {
                runtime::<$F>(r, n, m);
            }
        }
    )* } }
    scalars!(Z5);
    if r.thorough {
        scalars!(Y5 f64);
    }
    floats::<0>(r);
    floats::<1>(r);
    floats::<2>(r);
    floats::<3>(r);
    scalars(r);
}
