//! Contractions of fixed arrays: every entry point, dimension combination and representation.
use crate::{go, scal::*, Run};
use aegir::buffers::{shapes::*, *};

/// All representation pairs of one pair of buffer types.
fn pair<const AX: usize, X, Y>(sx: X::Shape, sy: Y::Shape)
where
    X: Buffer + Contract<Y, AX>,
    Y: Buffer<Field = X::Field>,
    X::Field: Sc,
    <X::Output as Buffer>::Field: Sc,
    X::Output: Buffer,
{
    go(|| contract::<AX, X, Y>(raw::<X>(sx), raw::<Y>(sy)).map(|b| look(&b)).is_ok());
    go(|| contract_shape::<AX, X, Y>(sx, sy).is_ok());
    for i in 0..forms() {
        for j in 0..forms() {
            go(|| contract_spec::<AX, X, Y>(form::<X>(sx, i), form::<Y>(sy, j)).map(|s| look_spec(s)).is_ok());
        }
    }
}

fn d0<F: Sc>(r: &mut Run) {
    if !r.group(format_args!("contract {} scalars", F::NAME)) { return }
    pair::<0, F, F>(S0, S0);
    pair::<1, F, F>(S0, S0);
}
fn d1<F: Sc, const N: usize>(r: &mut Run) {
    if !r.group(format_args!("contract {} [{N}]", F::NAME)) { return }
    pair::<0, [F; N], F>(S1, S0);
    pair::<0, F, [F; N]>(S0, S1);
    pair::<1, [F; N], [F; N]>(S1, S1);
}
fn d2<F: Sc, const N: usize, const M: usize>(r: &mut Run) {
    if !r.group(format_args!("contract {} [{N}][{M}]", F::NAME)) { return }
    crate::faults(r.thorough || (F::NAME == "Z5" && N <= 2 && M <= 2));
    pair::<0, [[F; M]; N], F>(S2, S0);
    pair::<0, F, [[F; M]; N]>(S0, S2);
    pair::<0, [F; N], [F; M]>(S1, S1);
    pair::<1, [[F; M]; N], [F; N]>(S2, S1);
    pair::<1, [F; N], [[F; M]; N]>(S1, S2);
}
fn d3<F: Sc, const N: usize, const M: usize, const Z: usize>(r: &mut Run) {
    if !r.group(format_args!("contract {} [{N}][{Z}] [{Z}][{M}]", F::NAME)) { return }
    crate::faults(r.thorough || N * M * Z <= 2);
    pair::<1, [[F; Z]; N], [[F; M]; Z]>(S2, S2);
}

macro_rules! d1 { ($r:expr, $F:ty; $($n:literal)*) => { $(d1::<$F, $n>($r);)* } }
macro_rules! d2 {
    ($r:expr, $F:ty; $($n:literal)*; $m:tt) => { $(d2!(@ $r, $F; $n; $m);)* };
    (@ $r:expr, $F:ty; $n:literal; [$($m:literal)*]) => { $(d2::<$F, $n, $m>($r);)* };
}
macro_rules! d3 {
    ($r:expr, $F:ty; $($n:literal)*; $m:tt) => { $(d3!(@ $r, $F; $n; $m; $m);)* };
    (@ $r:expr, $F:ty; $n:literal; [$($m:literal)*]; $z:tt) => { $(d3!(@@ $r, $F; $n; $m; $z);)* };
    (@@ $r:expr, $F:ty; $n:literal; $m:literal; [$($z:literal)*]) => { $(d3::<$F, $n, $m, $z>($r);)* };
}
fn scalar_quick<F: Sc>(r: &mut Run) {
    d0::<F>(r);
    d1!(r, F; 0 1 2 3);
    d2!(r, F; 0 1 2 3; [0 1 2 3]);
    d3!(r, F; 0 1 2; [0 1 2]);
}
fn scalar_more<F: Sc>(r: &mut Run) {
    d1!(r, F; 4 5 8);
    d2!(r, F; 0 1 2 3 4 5; [4 5 6]);
    d2!(r, F; 4 5 6; [0 1 2 3]);
    d3!(r, F; 3; [0 1 2 3]);
    d3!(r, F; 0 1 2; [3]);
}
pub fn all(r: &mut Run) {
    scalar_quick::<Z5>(r);
    if !r.thorough {
        // the other flavour of scalar, and one without references
        d1!(r, Y5; 0 1 2);
        d2!(r, Y5; 0 1 2; [0 1 2]);
        d3!(r, Y5; 0 2; [0 1 2]);
        d1!(r, u8; 0 1 2);
        d2!(r, u8; 0 1 2; [0 1 2]);
        d0::<f64>(r);
    }
    if r.thorough {
        scalar_quick::<Y5>(r);
        scalar_quick::<f64>(r);
        scalar_quick::<u8>(r);
        scalar_quick::<f32>(r);
        scalar_quick::<i64>(r);
        scalar_quick::<u16>(r);
        scalar_more::<Z5>(r);
        scalar_more::<Y5>(r);
        scalar_more::<f64>(r);
        scalar_more::<u8>(r);
    }
}
