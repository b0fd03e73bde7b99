//! Contractions: reference semantics, and the table of every implemented operand pair.
use crate::tens::T;

/// `axes` = 0: tensor product; 1: contraction of the last axis of the left operand with the
/// first axis of the right one (scalars multiply).
pub fn contract<F: Copy>(axes: usize, a: &T<F>, b: &T<F>, zero: F, add: impl Fn(F, F) -> F, mul: impl Fn(F, F) -> F) -> T<F> {
    let (ra, rb) = (a.dims.len(), b.dims.len());
    if axes == 0 || ra == 0 || rb == 0 {
        let mut d = a.dims.clone();
        d.extend(&b.dims);
        return T::build(&d, |ix| mul(a.at(&ix[..ra]), b.at(&ix[ra..])));
    }
    let z = b.dims[0];
    assert!(a.dims[ra - 1] == z, "HARNESS: contraction");
    let mut d = a.dims[..ra - 1].to_vec();
    d.extend(&b.dims[1..]);
    T::build(&d, |ix| {
        let mut s = zero;
        for k in 0..z {
            let mut ia = ix[..ra - 1].to_vec();
            ia.push(k);
            let mut ib = vec![k];
            ib.extend(&ix[ra - 1..]);
            s = add(s, mul(a.at(&ia), b.at(&ib)));
        }
        s
    })
}

/// The one implemented pair whose type is not a contraction of adjacent axes:
/// `[[F; M]; N] . [F; N] -> [F; M]` with N != M.  The only contraction with this type is
/// sum_n a[n][m] b[n].
pub fn mat_vec_by_type<F: Copy>(a: &T<F>, b: &T<F>, zero: F, add: impl Fn(F, F) -> F, mul: impl Fn(F, F) -> F) -> T<F> {
    T::build(&[a.dims[1]], |ix| (0..a.dims[0]).fold(zero, |s, n| add(s, mul(a.at(&[n, ix[0]]), b.at(&[n])))))
}

/// Expands `$m!(axes, left type, right type, left shape, right shape)` for every case, `$F` the
/// scalar type.
#[macro_export]
macro_rules! contraction_cases {
    ($m:ident, $F:ty) => {
        $m!(0, $F, $F, S0, S0);
        $m!(1, $F, $F, S0, S0);
        $crate::contraction_cases!(@v $m, $F; 0 1 2 3 4 7 8 16 33);
        $crate::contraction_cases!(@dot $m, $F; 0 1 2 3 4 5 7 8 9 15 16 17 33 64 100);
        $crate::contraction_cases!(@outer $m, $F; [0, 2] [2, 0] [1, 1] [1, 2] [2, 1] [2, 2] [3, 2] [2, 3] [3, 3] [1, 3] [3, 1] [1, 4] [4, 3] [5, 7] [9, 16]);
        $crate::contraction_cases!(@m $m, $F; [0, 2] [2, 0] [1, 1] [1, 2] [2, 1] [2, 2] [3, 2] [2, 3] [3, 3] [1, 3] [3, 1] [5, 7] [9, 16]);
        $crate::contraction_cases!(@matmat $m, $F;
            [1, 1, 1] [1, 1, 2] [1, 1, 3] [1, 2, 1] [1, 2, 2] [1, 2, 3] [1, 3, 1] [1, 3, 2] [1, 3, 3]
            [2, 1, 1] [2, 1, 2] [2, 1, 3] [2, 2, 1] [2, 2, 2] [2, 2, 3] [2, 3, 1] [2, 3, 2] [2, 3, 3]
            [3, 1, 1] [3, 1, 2] [3, 1, 3] [3, 2, 1] [3, 2, 2] [3, 2, 3] [3, 3, 1] [3, 3, 2] [3, 3, 3]
            [2, 0, 2] [0, 1, 2] [1, 2, 0] [0, 2, 0] [4, 3, 5] [4, 2, 4] [1, 5, 1] [8, 9, 7] [16, 3, 17]);
        $crate::contraction_cases!(@vecmat $m, $F; [1, 1] [2, 2] [3, 3] [4, 4] [9, 9] [1, 2] [2, 1] [2, 3] [3, 2] [1, 3] [3, 1] [1, 4] [4, 1] [5, 3] [3, 5] [0, 2] [2, 0] [16, 9] [9, 16]);
        $crate::contraction_cases!(@matvec $m, $F; 0 1 2 3 4 5 9 16);
    };
    (@v $m:ident, $F:ty; $($n:literal)*) => { $( $m!(0, [$F; $n], $F, S1, S0); $m!(0, $F, [$F; $n], S0, S1); )* };
    (@dot $m:ident, $F:ty; $($n:literal)*) => { $( $m!(1, [$F; $n], [$F; $n], S1, S1); )* };
    (@outer $m:ident, $F:ty; $([$n:literal, $k:literal])*) => { $( $m!(0, [$F; $n], [$F; $k], S1, S1); )* };
    (@m $m:ident, $F:ty; $([$n:literal, $k:literal])*) => { $( $m!(0, [[$F; $k]; $n], $F, S2, S0); $m!(0, $F, [[$F; $k]; $n], S0, S2); )* };
    (@matmat $m:ident, $F:ty; $([$n:literal, $z:literal, $k:literal])*) => { $( $m!(1, [[$F; $z]; $n], [[$F; $k]; $z], S2, S2); )* };
    (@vecmat $m:ident, $F:ty; $([$n:literal, $k:literal])*) => { $( $m!(1, [$F; $n], [[$F; $k]; $n], S1, S2); )* };
    (@matvec $m:ident, $F:ty; $($n:literal)*) => { $( $m!(1, [[$F; $n]; $n], [$F; $n], S2, S1); )* };
}
/// the same with N != M
#[macro_export]
macro_rules! mat_vec_nonsquare {
    ($m:ident, $F:ty) => { $crate::mat_vec_nonsquare!(@go $m, $F; [1, 2] [2, 1] [2, 3] [3, 2] [1, 4] [4, 1] [3, 5] [5, 3] [0, 2] [2, 0]); };
    (@go $m:ident, $F:ty; $([$n:literal, $k:literal])*) => { $( $m!(1, [[$F; $k]; $n], [$F; $n], S2, S1); )* };
}
