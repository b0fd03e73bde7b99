//! Buffers, shapes and lifted buffers: construction, access, element-wise and zipped operations.
use crate::{go, scal::*, Run};
use aegir::buffers::{shapes::*, *};

fn clo<F: Sc>(x: F) -> F {
    tick();
    x.look();
    x
}
/// Operations of a buffer on its own.
fn solo<B>(s: B::Shape, s2: B::Shape)
where
    B: Buffer + Clone,
    B::Field: Sc,
    B::Class: Class<B::Shape, Buffer<B::Field> = B>,
{
    type C<B> = <B as Buffer>::Class;
    go(|| look(&raw::<B>(s)));
    go(|| look(&<C<B> as Class<B::Shape>>::build(s, |_| clo(B::Field::nth(1)))));
    go(|| look(&<C<B> as Class<B::Shape>>::full(s, B::Field::nth(1))));
    go(|| look(&<C<B> as Class<B::Shape>>::zeroes::<B::Field>(s)));
    go(|| look(&<C<B> as Class<B::Shape>>::ones::<B::Field>(s)));
    go(|| look(&<C<B> as Class<B::Shape>>::diagonal(s, B::Field::nth(3))));
    go(|| look(&<C<B> as Class<B::Shape>>::identity::<B::Field>(s)));
    go(|| look(&<C<B> as Class<B::Shape>>::build_subset(s, B::Field::nth(1), s.indices(), |_| clo(B::Field::nth(2)))));
    // indices of another shape: may panic or be ignored, never anything else
    go(|| look(&<C<B> as Class<B::Shape>>::build_subset(s, B::Field::nth(1), s2.indices(), |_| clo(B::Field::nth(2)))));
    go(|| s2.indices().filter(|ix| s.contains(*ix)).count());
    for ix in s2.indices() {
        go(|| raw::<B>(s).get(ix).map(|x| x.look()));
        go(|| raw::<B>(s).get_unchecked(ix).look());
    }
    go(|| {
        let mut it = s.indices();
        let n = it.by_ref().count();
        (n, s.cardinality(), s.is_scalar(), s.is_vector(), s.is_matrix(), s.to_string())
    });
    go(|| {
        let m = raw::<B>(s).map(|x| clo(x).look() as u8);
        look(&m)
    });
    go(|| look(&raw::<B>(s).map(|x| { clo(x); Z5::nth(x.look()) })));
    go(|| look(&raw::<B>(s).map_ref(|x| { clo(x); Y5::nth(x.look()) })));
    go(|| look(&raw::<B>(s).map_ref(|x| clo(x).look() as u16)));
    go(|| {
        let mut b = raw::<B>(s);
        b.mutate(|x| clo(x));
        look(&b)
    });
    go(|| {
        // a buffer whose mutation was cut short is still a buffer
        let mut b = raw::<B>(s);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.mutate(|x| clo(x))));
        look(&b);
        r.is_ok()
    });
    go(|| raw::<B>(s).fold(Z5::nth(0), |a, x| { clo(x); a + Z5::nth(x.look()) }).look());
    go(|| raw::<B>(s).sum().look());
    for k in 0..forms() {
        go(|| look_spec(form::<B>(s, k)));
        go(|| look_spec(form::<B>(s, k).map(|x| { clo(x); Z5::nth(x.look()) })));
        go(|| look_spec(form::<B>(s, k).clone()));
        go(|| form::<B>(s, k).shape().cardinality());
    }
}
/// Zips of a pair of buffers.
fn zip<X, Y>(sx: X::Shape, sy: Y::Shape, id: impl Fn(&X) -> bool)
where
    X: Buffer + ZipMap<Y> + Clone,
    Y: Buffer + Clone,
    X::Field: Sc,
    Y::Field: Sc,
    <X as ZipMap<Y>>::Output<u8>: Buffer<Field = u8>,
    <X as ZipMap<Y>>::Output<Z5>: Buffer<Field = Z5>,
    <X as ZipMap<Y>>::Output<X::Field>: Buffer<Field = X::Field>,
    X::Shape: Broadcast<Y::Shape>,
{
    let _ = id;
    let f8 = |x: X::Field, y: Y::Field| { clo(x); (x.look() + y.look()) as u8 };
    let fz = |x: X::Field, y: Y::Field| { clo(y); Z5::nth(x.look() + y.look()) };
    go(|| raw::<X>(sx).zip_map(&raw::<Y>(sy), f8).map(|b| look(&b)).is_ok());
    go(|| raw::<X>(sx).zip_map(&raw::<Y>(sy), fz).map(|b| look(&b)).is_ok());
    go(|| raw::<X>(sx).zip_map_id(&raw::<Y>(sy), |x, y| { y.look(); clo(x) }).map(|b| look(&b)).is_ok());
    go(|| raw::<X>(sx).zip_shape(sy).map(|b| look(&b)).is_ok());
    go(|| sx.broadcast(sy).map(|s| s.cardinality()).is_ok());
}
/// Zips of lifted buffers.
fn zip_spec<X, Y>(sx: X::Shape, sy: Y::Shape)
where
    X: Buffer + ZipMap<Y> + Clone,
    Y: Buffer + Clone,
    X::Field: Sc,
    Y::Field: Sc,
    <X as ZipMap<Y>>::Output<Z5>: Buffer<Field = Z5>,
    X::Shape: Broadcast<Y::Shape>,
    X: ZipMap<Y>,
{
    for i in 0..forms() {
        for j in 0..forms() {
            go(|| {
                let (x, y) = (form::<X>(sx, i), form::<Y>(sy, j));
                x.zip_map(&y, |x, y| { clo(y); Z5::nth(x.look() + y.look()) }).map(|s| look_spec(s)).is_ok()
            });
        }
    }
}
fn zip_more<X, Y>(sx: X::Shape, sy: Y::Shape)
where
    X: Buffer + ZipFold<Y> + Clone,
    Y: Buffer + Clone,
    X::Field: Sc,
    Y::Field: Sc,
{
    go(|| raw::<X>(sx).zip_fold(&raw::<Y>(sy), Z5::nth(1), |a, (x, y)| { clo(x); a + Z5::nth(x.look() + y.look()) }).map(|x| x.look()).is_ok());
}
fn zip_mut<X, Y>(sx: X::Shape, sy: Y::Shape)
where
    X: Buffer + ZipMut<Y> + Clone,
    Y: Buffer + Clone,
    X::Field: Sc,
    Y::Field: Sc,
{
    go(|| {
        let mut x = raw::<X>(sx);
        let y = raw::<Y>(sy);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.zip_mut(&y, |a, b| { b.look(); clo(a) }).is_ok()));
        look(&x);
        look(&y);
        r.is_ok()
    });
}

macro_rules! arr {
    ($fn:ident; $($D:ident)+; $arr:ty; $S:ident; $probe:ident) => {
        fn $fn<F: Sc, $(const $D: usize),+>(r: &mut Run, specs: bool) {
            if !r.group(format_args!(concat!("array {} ", stringify!($arr), " {:?}"), F::NAME, [$($D),+])) { return }
            crate::faults(r.thorough || [$($D),+].iter().product::<usize>() <= 4);
            solo::<$arr>($S, $S);
            // out-of-range accesses
            for ix in $probe() {
                go(|| raw::<$arr>($S).get(ix).map(|x| x.look()));
                go(|| raw::<$arr>($S).get_unchecked(ix).look());
                go(|| look(&<Arrays as Class<$S<$($D),+>>>::build_subset($S::<$($D),+>, F::nth(1), std::iter::once(ix), |_| clo(F::nth(2)))));
            }
            zip::<$arr, $arr>($S, $S, |_| true);
            zip::<$arr, F>($S, S0, |_| true);
            zip_fl::<F, $arr>(S0, $S);
            zip_more::<$arr, $arr>($S, $S);
            zip_more::<$arr, F>($S, S0);
            zip_mut::<$arr, $arr>($S, $S);
            zip_mut::<$arr, F>($S, S0);
            if specs {
                zip_spec::<$arr, $arr>($S, $S);
                zip_spec::<$arr, F>($S, S0);
                zip_spec::<F, $arr>(S0, $S);
            }
        }
    };
}
/// Zips of a scalar with a buffer (there is no identity form).
fn zip_fl<X, Y>(sx: X::Shape, sy: Y::Shape)
where
    X: Buffer + ZipMap<Y> + Clone,
    Y: Buffer + Clone,
    X::Field: Sc,
    Y::Field: Sc,
    <X as ZipMap<Y>>::Output<u8>: Buffer<Field = u8>,
    <X as ZipMap<Y>>::Output<Z5>: Buffer<Field = Z5>,
    <X as ZipMap<Y>>::Output<X::Field>: Buffer<Field = X::Field>,
    X::Shape: Broadcast<Y::Shape>,
{
    zip::<X, Y>(sx, sy, |_| false)
}
fn p1() -> Vec<usize> { vec![0, 1, 2, 3, 4, usize::MAX] }
fn p2() -> Vec<[usize; 2]> { vec![[0, 0], [1, 0], [0, 1], [2, 0], [0, 3], [usize::MAX, 0]] }
fn p3() -> Vec<[usize; 3]> { vec![[0, 0, 0], [0, 0, 3], [0, 3, 0], [3, 0, 0]] }
fn p4() -> Vec<[usize; 4]> { vec![[0, 0, 0, 0], [0, 0, 0, 3], [3, 0, 0, 0]] }
fn p5() -> Vec<[usize; 5]> { vec![[0, 0, 0, 0, 0], [0, 0, 0, 0, 3], [3, 0, 0, 0, 0]] }
arr!(a1; A; [F; A]; S1; p1);
arr!(a2; A B; [[F; B]; A]; S2; p2);
arr!(a3; A B C; [[[F; C]; B]; A]; S3; p3);
arr!(a4; A B C D; [[[[F; D]; C]; B]; A]; S4; p4);
arr!(a5; A B C D E; [[[[[F; E]; D]; C]; B]; A]; S5; p5);

/// Expand a call for the whole product of dimension lists.
macro_rules! grid {
    ($r:expr, $s:expr, $f:ident, $F:ty; [$($acc:literal)*]) => { $f::<$F, $($acc),*>($r, $s); };
    ($r:expr, $s:expr, $f:ident, $F:ty; $acc:tt [$($d:literal)*] $($rest:tt)*) => { grid!(@ $r, $s, $f, $F; $acc; $($d)*; [$($rest)*]); };
    (@ $r:expr, $s:expr, $f:ident, $F:ty; $acc:tt; $($d:literal)*; $rest:tt) => { $(grid!(@@ $r, $s, $f, $F; $acc; $d; $rest);)* };
    (@@ $r:expr, $s:expr, $f:ident, $F:ty; [$($acc:literal)*]; $d:literal; [$($rest:tt)*]) => { grid!($r, $s, $f, $F; [$($acc)* $d] $($rest)*); };
}

fn tup<F: Sc>(r: &mut Run) {
    if !r.group(format_args!("tuple {}", F::NAME)) { return }
    solo::<(F, F)>(S1, S1);
    for ix in p1() {
        go(|| (F::nth(1), F::nth(2)).get(ix).map(|x| x.look()));
        go(|| (F::nth(1), F::nth(2)).get_unchecked(ix).look());
        go(|| look(&<Tuples as Class<S1<2>>>::build_subset(S1::<2>, F::nth(1), std::iter::once(ix), |_| clo(F::nth(2)))));
    }
    zip::<(F, F), (F, F)>(S1, S1, |_| true);
    zip_spec::<(F, F), (F, F)>(S1, S1);
    zip_more::<(F, F), (F, F)>(S1, S1);
}
fn vecs<F: Sc>(r: &mut Run, n: usize, m: usize) {
    if !r.group(format_args!("vec {} {n} {m}", F::NAME)) { return }
    let (sn, sm) = (SDynamic([n]), SDynamic([m]));
    solo::<Vec<F>>(sn, sm);
    zip::<Vec<F>, Vec<F>>(sn, sm, |_| true);
    zip::<Vec<F>, F>(sn, S0, |_| true);
    zip_fl::<F, Vec<F>>(S0, sm);
    zip_spec::<Vec<F>, Vec<F>>(sn, sm);
    zip_spec::<Vec<F>, F>(sn, S0);
    zip_spec::<F, Vec<F>>(S0, sm);
    zip_more::<Vec<F>, Vec<F>>(sn, sm);
}
fn scal<F: Sc>(r: &mut Run) {
    if !r.group(format_args!("scalar {}", F::NAME)) { return }
    solo::<F>(S0, S0);
    zip::<F, F>(S0, S0, |_| true);
    zip_spec::<F, F>(S0, S0);
    zip_more::<F, F>(S0, S0);
}

/// Shapes with no buffer of their own.
fn shapes(r: &mut Run) {
    fn walk<S: Shape>(s: S) {
        go(|| {
            let mut it = s.indices();
            let mut n = 0;
            for ix in it.by_ref() {
                tick();
                assert!(s.contains(ix));
                ix.is_diagonal();
                n += 1;
            }
            n
        });
        go(|| {
            let mut it = s.indices();
            let h = it.size_hint();
            for _ in 0..s.cardinality() + 2 {
                it.next();
            }
            h
        });
        go(|| (s.cardinality(), s.to_string(), format!("{s:?}"), s.is_equivalent(&S0), s.is_equivalent(&SDynamic([2, 1]))));
        go(|| s.indices().last());
        go(|| s.indices().count());
    }
    let n = 3usize;
    if r.group(format_args!("shapes: runtime")) {
        walk(SDynamic::<0>([]));
        for a in 0..n {
            walk(SDynamic([a]));
            for b in 0..n {
                walk(SDynamic([a, b]));
                for c in 0..n {
                    walk(SDynamic([a, b, c]));
                }
            }
        }
        walk(SDynamic([1, 2, 1, 2]));
        walk(SDynamic([1, 2, 1, 2, 2]));
        walk(SDynamic([2, 1, 2, 1, 2, 1]));
        walk(SDynamic([2, 1, 2, 0, 2, 1]));
        // clones of half-way iterators
        for k in 0..8 {
            go(|| {
                let mut it = SDynamic([2, 3]).indices();
                for _ in 0..k {
                    it.next();
                }
                let rest: Vec<_> = it.clone().collect();
                (rest, it.count())
            });
        }
    }
    if r.group(format_args!("shapes: compiled")) {
        walk(S0);
        walk(S1::<0>);
        walk(S1::<3>);
        walk(S2::<0, 2>);
        walk(S2::<2, 0>);
        walk(S2::<3, 2>);
        walk(S3::<2, 1, 2>);
        walk(S4::<2, 1, 2, 1>);
        walk(S5::<2, 1, 2, 1, 2>);
        walk(S6::<2, 1, 2, 1, 2, 1>);
        walk(S6::<2, 1, 2, 1, 0, 1>);
    }
    if r.group(format_args!("shapes: concatenation and splitting")) {
        macro_rules! cat {
            ($($n:literal)*; $m:tt) => { $(cat!(@ $n; $m);)* };
            (@ $n:literal; [$($m:literal)*]) => { $(
                go(|| {
                    let (l, r): ([usize; $n], [usize; $m]) = (std::array::from_fn(|i| i + 1), std::array::from_fn(|i| i + 10));
                    let s = SDynamic(l).concat(SDynamic(r));
                    let ix = <SDynamic<$n> as Concat<SDynamic<$m>>>::concat_indices(l, r);
                    assert!(s.0.iter().sum::<usize>() == ix.iter().sum::<usize>());
                    s.cardinality()
                });
            )* };
        }
        cat!(0 1 2 3 4 5 6; [0 1 2 3 4 5 6]);
        go(|| S2::<2, 3>.split());
        go(|| S4::<2, 3, 4, 5>.split());
        go(|| <S2<2, 3> as Split>::split_index([1, 2]));
        go(|| <S4<2, 3, 4, 5> as Split>::split_index([1, 2, 3, 4]));
        go(|| S1::<2>.concat(S1::<3>).cardinality());
        go(|| <S1<2> as Concat<S1<3>>>::concat_indices(1, 2));
        go(|| <S2<2, 2> as Concat<S2<3, 3>>>::concat_indices([1, 2], [3, 4]));
        go(|| <S1<2> as Concat<S2<3, 3>>>::concat_indices(1, [3, 4]));
        go(|| <S2<3, 3> as Concat<S1<3>>>::concat_indices([3, 4], 1));
        go(|| <S0 as Concat<S2<3, 3>>>::concat_indices((), [3, 4]));
        go(|| <S2<3, 3> as Concat<S0>>::concat_indices([3, 4], ()));
    }
}

pub fn all(r: &mut Run) {
    let t = r.thorough;
    macro_rules! scalars {
        ($($F:ty)*) => { $(
            scal::<$F>(r);
            tup::<$F>(r);
            for n in 0..if t { 5 } else { 3 } {
                for m in 0..if t { 5 } else { 3 } {
                    vecs::<$F>(r, n, m);
                }
            }
            grid!(r, true, a1, $F; [] [0 1 2 3]);
            grid!(r, true, a2, $F; [] [0 1 2 3] [0 1 2 3]);
            grid!(r, true, a3, $F; [] [0 1 2] [0 1 2] [0 1 2]);
        )* };
    }
    scalars!(Z5);
    grid!(r, false, a4, Z5; [] [0 2] [1 2] [2 1] [0 1 2]);
    // rank five, and the machine scalars
    grid!(r, false, a5, Z5; [] [0 2] [1 2] [1] [0 2] [1 2]);
    grid!(r, false, a1, f64; [] [0 1 2 3]);
    grid!(r, true, a2, f64; [] [0 1 2] [0 1 2]);
    grid!(r, false, a3, f64; [] [0 1 2] [1 2] [0 1 2]);
    for n in 0..3 {
        for m in 0..3 {
            vecs::<f64>(r, n, m);
            vecs::<u8>(r, n, m);
        }
    }
    tup::<u8>(r);
    scal::<f64>(r);
    if t {
        grid!(r, true, a4, Z5; [] [0 1 2] [0 1 2] [0 1 2] [0 1 2]);
        grid!(r, true, a4, f64; [] [0 1 2] [0 1 2] [0 1 2] [0 1 2]);
        scalars!(Y5 f64 u8);
        grid!(r, true, a5, Z5; [] [0 1 2] [0 1 2] [0 1 2] [0 1 2] [0 1 2]);
        grid!(r, false, a5, u8; [] [0 1 2] [0 1 2] [0 1 2] [0 1 2] [0 1 2]);
    }
    shapes(r);
}
