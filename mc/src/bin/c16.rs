//! C16: shape laws.
use aegir::buffers::shapes::*;
use mc_core::{cart, engine::*, tens::*};

type Case = (String, Box<dyn Fn(&mut Ctl) + Send + Sync>);

/// Laws of a single shape.  `dims` are the dimensions the shape was made from.
fn shape_laws<S: ShV>(c: &mut Ctl, s: S, dims: &[usize])
where
    S::Index: IxV,
{
    let name = format!("{:?}{:?}", s, dims);
    c.desc(|| format!("shape {}", name));
    let expect = rows(dims);
    let n = expect.len();
    c.state(("shape", std::any::type_name::<S>(), dims));
    c.check(S::DIM == dims.len(), || (format!("DIM of {}", name), format!("{} vs {}", S::DIM, dims.len())));
    c.check(s.cardinality() == n, || (format!("cardinality of {}", name), format!("{} vs {}", s.cardinality(), n)));
    c.check(s.is_scalar() == (dims.len() == 0) && s.is_vector() == (dims.len() == 1) && s.is_matrix() == (dims.len() == 2), || {
        (format!("rank predicates of {}", name), String::new())
    });
    // full enumeration, bounded so that a runaway iterator is a finding and not a hang
    let got: Vec<Vec<usize>> = s.indices().take(n + 3).map(|i| i.v()).collect();
    c.step(n as u64 + 1);
    c.check(got == expect, || (format!("indices of {}", name), format!("got {:?}, expected {:?}", got, expect)));
    // remaining counts at every position of the enumeration
    for k in 0..=n {
        c.state(("pos", std::any::type_name::<S>(), dims, k));
        let adv = |m: usize| {
            let mut it = s.indices();
            for _ in 0..m {
                it.next();
            }
            it
        };
        c.step(k as u64);
        let sh = adv(k).size_hint();
        c.check(sh == (n - k, Some(n - k)), || (format!("size_hint of {} after {} indices", name, k), format!("{:?}, remaining {}", sh, n - k)));
        let ct = adv(k).count();
        c.check(ct == n - k, || (format!("count of {} after {} indices", name, k), format!("{}, remaining {}", ct, n - k)));
        if k < n {
            let nx = adv(0).nth(k).map(|i| i.v());
            c.check(nx.as_ref() == Some(&expect[k]), || (format!("nth({}) of {}", k, name), format!("{:?} expected {:?}", nx, expect[k])));
        }
        c.check(adv(k).last().map(|i| i.v()) == if k < n { expect.last().cloned() } else { None }, || (format!("last() of {} after {}", name, k), String::new()));
    }
    // containment on the box [0, d+1]^rank and beyond
    let boxd: Vec<usize> = dims.iter().map(|d| d + 2).collect();
    for ix in rows(&boxd) {
        let inside = ix.iter().zip(dims).all(|(i, d)| i < d);
        c.state(("contains", std::any::type_name::<S>(), dims, &ix));
        c.step(1);
        c.check(s.contains(<S::Index as IxV>::of(&ix)) == inside, || (format!("contains({:?}) of {}", ix, name), format!("expected {}", inside)));
        let dg = Ix::is_diagonal(&<S::Index as IxV>::of(&ix));
        c.check(dg == is_diag(&ix), || (format!("is_diagonal({:?})", ix), format!("{} expected {}", dg, is_diag(&ix))));
    }
    for far in [usize::MAX, usize::MAX / 2, 1 << 32, 1000] {
        for p in 0..dims.len() {
            let mut ix = vec![0; dims.len()];
            ix[p] = far;
            c.check(!s.contains(<S::Index as IxV>::of(&ix)), || (format!("contains({:?}) of {}", ix, name), "expected false".into()));
        }
    }
}

fn bcast_laws<A, B>(c: &mut Ctl, a: A, b: B, expect: Option<Vec<usize>>)
where
    A: ShV + Broadcast<B>,
    B: ShV,
    <A as Broadcast<B>>::Shape: ShV,
{
    let name = format!("{:?} with {:?}", a, b);
    c.state(("bcast", &name, a.dims(), b.dims()));
    c.desc(|| format!("broadcast {}", name));
    c.step(1);
    match a.broadcast(b) {
        Ok(s) => {
            let d = s.dims();
            c.check(Some(&d) == expect.as_ref(), || (format!("broadcast of {}", name), format!("gave {:?}, expected {:?}", d, expect)));
        },
        Err(e) => {
            c.check(expect.is_none(), || (format!("broadcast of {}", name), format!("failed, expected {:?}", expect)));
            let (l, r) = (e.left.dims(), e.right.dims());
            c.check(l == a.dims() && r == b.dims(), || (format!("broadcast error of {}", name), format!("carries {:?} / {:?}", l, r)));
            let v = e.reverse();
            c.check(v.left.dims() == b.dims() && v.right.dims() == a.dims(), || (format!("reversed broadcast error of {}", name), String::new()));
        },
    }
}

fn concat_laws<A, B>(c: &mut Ctl, a: A, b: B)
where
    A: ShV + Concat<B>,
    B: ShV,
    A::Index: IxV,
    B::Index: IxV,
    <A as Concat<B>>::Shape: ShV,
    IndexOf<<A as Concat<B>>::Shape>: IxV,
{
    let name = format!("{:?}{:?} + {:?}{:?}", a, a.dims(), b, b.dims());
    c.desc(|| format!("concat {}", name));
    c.state(("concat", &name));
    let mut d = a.dims();
    d.extend(b.dims());
    let got = a.concat(b).dims();
    c.step(1);
    c.check(got == d, || (format!("concat of {}", name), format!("{:?}", got)));
    for i in rows(&a.dims()) {
        for j in rows(&b.dims()) {
            let mut ij = i.clone();
            ij.extend(&j);
            let g = <A as Concat<B>>::concat_indices(<A::Index as IxV>::of(&i), <B::Index as IxV>::of(&j)).v();
            c.step(1);
            c.state(("concat_ix", &name, &ij));
            c.check(g == ij, || (format!("concat_indices of {} at {:?} {:?}", name, i, j), format!("{:?}", g)));
        }
    }
}

fn split_laws<S>(c: &mut Ctl, s: S)
where
    S: ShV + Split,
    S::Left: ShV + Concat<S::Right, Shape = S>,
    S::Right: ShV,
    S::Index: IxV,
    IndexOf<S::Left>: IxV,
    IndexOf<S::Right>: IxV,
{
    let (l, r) = s.split();
    let half = S::DIM / 2;
    let name = format!("{:?}{:?}", s, s.dims());
    c.state(("split", &name));
    c.check(l.dims() == s.dims()[..half] && r.dims() == s.dims()[half..], || (format!("split of {}", name), format!("{:?} {:?}", l.dims(), r.dims())));
    c.check(l.concat(r).dims() == s.dims(), || (format!("concat of split {}", name), String::new()));
    for ix in rows(&s.dims()) {
        let (a, b) = S::split_index(<S::Index as IxV>::of(&ix));
        c.step(1);
        c.state(("split_ix", &name, &ix));
        c.check(a.v() == ix[..half] && b.v() == ix[half..], || (format!("split_index of {} at {:?}", name, ix), format!("{:?} {:?}", a, b)));
        let back = <S::Left as Concat<S::Right>>::concat_indices(a, b).v();
        c.check(back == ix, || (format!("concat of split_index of {} at {:?}", name, ix), format!("{:?}", back)));
    }
}

macro_rules! push_shape {
    ($v:ident, $S:ident; $($d:tt),*) => { $v.push((format!("{}{:?}", stringify!($S), [$($d as usize),*]), Box::new(|c: &mut Ctl| {
        shape_laws(c, $S::<$($d),*>, &[$($d),*]);
        bcast_laws(c, $S::<$($d),*>, $S::<$($d),*>, Some(vec![$($d),*]));
        bcast_laws(c, $S::<$($d),*>, S0, Some(vec![$($d),*]));
        bcast_laws(c, S0, $S::<$($d),*>, Some(vec![$($d),*]));
    }))) };
}
macro_rules! push_huge {
    ($v:ident, $S:ident; $($d:tt),*) => { $v.push((format!("huge {}{:?}", stringify!($S), [$($d as usize),*]), Box::new(|c: &mut Ctl| huge_laws(c, $S::<$($d),*>, &[$($d),*])))) };
}
macro_rules! push_concat {
    ($v:ident, $A:ident [$($a:tt),*] $B:ident [$($b:tt),*]) => { $v.push((format!("{}{:?}+{}{:?}", stringify!($A), [$($a as usize),*], stringify!($B), [$($b as usize),*]), Box::new(|c: &mut Ctl| {
        concat_laws(c, $A::<$($a),*>, $B::<$($b),*>);
    }))) };
}
macro_rules! push_split {
    ($v:ident, $S:ident; $($d:tt),*) => { $v.push((format!("split {}{:?}", stringify!($S), [$($d as usize),*]), Box::new(|c: &mut Ctl| split_laws(c, $S::<$($d),*>)))) };
}

fn fixed() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    v.push(("S0".into(), Box::new(|c| {
        shape_laws(c, S0, &[]);
        bcast_laws(c, S0, S0, Some(vec![]));
    })));
    cart!(push_shape!(v, S1) [0 1 2 3 4 5 6 7 8 9 10 15 16 17 31 32 33 64 65 100 127 128 129 255 256 257]);
    cart!(push_shape!(v, S2) [0 1 2 3 4 7] [0 1 2 3 4 8]);
    cart!(push_shape!(v, S2) [1 17 33] [16 31]);
    cart!(push_shape!(v, S3) [0 1 2 3] [0 1 2 4] [0 1 2 5]);
    cart!(push_shape!(v, S4) [0 1 2] [1 2 3] [0 1 2] [1 2 4]);
    cart!(push_shape!(v, S5) [1 2] [0 1 3] [1 2] [1 3] [1 2]);
    cart!(push_shape!(v, S6) [1 2] [1 2] [1 3] [1 2] [0 1 2] [1 2]);
    v
}
const MAX: usize = usize::MAX;
const HALF: usize = usize::MAX / 2 + 1;
const WORD: usize = 1 << 32;
fn huge_fixed() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    cart!(push_huge!(v, S1) [0 1 2 3 WORD HALF MAX]);
    cart!(push_huge!(v, S2) [0 1 2 3 WORD HALF MAX] [0 1 2 3 WORD HALF MAX]);
    cart!(push_huge!(v, S3) [0 1 3 WORD MAX] [0 2 3 WORD HALF] [0 1 2 WORD MAX]);
    cart!(push_huge!(v, S4) [1 2 WORD] [0 3 WORD] [2 MAX] [0 1 3 WORD HALF]);
    v
}
fn concats() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    v.push(("S0+S0".into(), Box::new(|c| concat_laws(c, S0, S0))));
    macro_rules! with_s0 { ($S:ident [$($d:tt),*]) => {
        v.push((format!("S0+{}", stringify!($S)), Box::new(|c| concat_laws(c, S0, $S::<$($d),*>))));
        v.push((format!("{}+S0", stringify!($S)), Box::new(|c| concat_laws(c, $S::<$($d),*>, S0))));
    } }
    with_s0!(S1 [3]);
    with_s0!(S1 [1]);
    with_s0!(S2 [2, 3]);
    with_s0!(S2 [3, 2]);
    with_s0!(S3 [2, 3, 4]);
    with_s0!(S3 [4, 1, 2]);
    with_s0!(S4 [2, 3, 4, 5]);
    with_s0!(S4 [3, 1, 2, 2]);
    with_s0!(S5 [2, 3, 1, 4, 2]);
    with_s0!(S5 [2, 2, 3, 1, 3]);
    macro_rules! pairs { ($($A:ident $a:tt + $B:ident $b:tt;)*) => { $( push_concat!(v, $A $a $B $b); )* } }
    pairs! {
        S1 [2] + S1 [3]; S1 [3] + S1 [2]; S1 [0] + S1 [2]; S1 [1] + S1 [4]; S1 [5] + S1 [5];
        S1 [2] + S2 [3, 4]; S1 [4] + S2 [2, 3]; S1 [3] + S2 [3, 2];
        S1 [2] + S3 [3, 4, 5]; S1 [5] + S3 [1, 3, 2];
        S1 [2] + S4 [3, 4, 2, 5]; S1 [3] + S4 [2, 1, 4, 2];
        S1 [2] + S5 [3, 2, 4, 2, 3]; S1 [4] + S5 [1, 2, 3, 2, 1];
        S2 [2, 3] + S1 [4]; S2 [4, 3] + S1 [2];
        S2 [2, 3] + S2 [4, 5]; S2 [3, 2] + S2 [2, 3]; S2 [2, 2] + S2 [2, 2];
        S2 [2, 3] + S3 [4, 5, 2]; S2 [3, 1] + S3 [2, 4, 3];
        S2 [2, 3] + S4 [4, 2, 3, 5]; S2 [3, 2] + S4 [1, 4, 2, 3];
        S3 [2, 3, 4] + S1 [5]; S3 [4, 1, 3] + S1 [2];
        S3 [2, 3, 4] + S2 [5, 2]; S3 [1, 4, 2] + S2 [3, 5];
        S3 [2, 3, 4] + S3 [5, 2, 3]; S3 [3, 2, 1] + S3 [1, 2, 4];
        S4 [2, 3, 4, 2] + S1 [5]; S4 [3, 1, 2, 4] + S1 [2];
        S4 [2, 3, 2, 4] + S2 [5, 3]; S4 [1, 3, 2, 2] + S2 [2, 4];
        S5 [2, 3, 2, 4, 2] + S1 [3]; S5 [1, 2, 4, 3, 2] + S1 [5];
    }
    cart!(push_split!(v, S2) [0 1 2 3 5] [0 1 2 4]);
    cart!(push_split!(v, S4) [1 2 3] [0 1 2] [1 3] [1 2 4]);
    v
}

fn dyn_dims<const N: usize>(c: &mut Ctl, alphabet: &[usize]) -> [usize; N] { std::array::from_fn(|_| *c.pick(alphabet)) }

fn dynamic<const N: usize>(c: &mut Ctl, alphabet: &[usize]) {
    let d = dyn_dims::<N>(c, alphabet);
    shape_laws(c, SDynamic(d), &d);
    bcast_laws(c, SDynamic(d), S0, Some(d.to_vec()));
    bcast_laws(c, S0, SDynamic(d), Some(d.to_vec()));
    for i in 0..N {
        c.check(SDynamic(d)[i] == d[i], || (format!("SDynamic{:?}[{}]", d, i), String::new()));
    }
}
fn dynamic_bcast<const N: usize>(c: &mut Ctl, alphabet: &[usize]) {
    let d = dyn_dims::<N>(c, alphabet);
    let e = dyn_dims::<N>(c, alphabet);
    bcast_laws(c, SDynamic(d), SDynamic(e), if d == e { Some(d.to_vec()) } else { None });
}

/// The original iterator must also be a well-behaved clone at every point.
fn dynamic_clone(c: &mut Ctl) {
    let d = dyn_dims::<3>(c, &[0, 1, 2, 3]);
    let n: usize = d.iter().product();
    let expect = rows(&d);
    for k in 0..=n {
        let mut it = SDynamic(d).indices();
        for _ in 0..k {
            it.next();
        }
        let cl = it.clone();
        let a: Vec<Vec<usize>> = it.take(n + 3).map(|x| x.to_vec()).collect();
        let b: Vec<Vec<usize>> = cl.take(n + 3).map(|x| x.to_vec()).collect();
        c.state(("clone", d, k));
        c.step(2 * n as u64);
        // (an exhausted enumeration may start again: std iterators need not be fused)
        if k < n {
            c.check(a == expect[k..] && b == expect[k..], || (format!("cloned enumeration of {:?} after {}", d, k), format!("{:?} / {:?}", a, b)));
        }
    }
}

/// Run-time shapes whose number of indices may not fit a usize: the first indices, containment and
/// remaining counts: exact where they fit, otherwise at least usize::MAX, without upper bound.
fn huge<const N: usize>(c: &mut Ctl, alphabet: &[usize])
where
    SDynamic<N>: Shape<Index = [usize; N]>,
{
    let d = dyn_dims::<N>(c, alphabet);
    huge_laws(c, SDynamic(d), &d)
}
fn huge_laws<S: ShV>(c: &mut Ctl, s: S, d: &[usize])
where
    S::Index: IxV,
{
    c.desc(|| format!("{:?}{:?}", s, d));
    let name = format!("{:?}{:?}", s, d);
    let total = if d.contains(&0) { Some(0u128) } else { d.iter().try_fold(1u128, |a, x| a.checked_mul(*x as u128)) };
    let cap = |n: Option<u128>| n.map_or(usize::MAX, |n| usize::try_from(n).unwrap_or(usize::MAX));
    let mut it = s.indices();
    let mut expect = vec![0; d.len()];
    for k in 0..6u128 {
        let left = total.map(|t| t.saturating_sub(k));
        c.state(("huge", std::any::type_name::<S>(), d, k as u64));
        c.step(1);
        let (lo, hi) = it.size_hint();
        let fits = left.map_or(false, |l| l <= usize::MAX as u128);
        let exact = (lo, hi) == (cap(left), if fits { Some(cap(left)) } else { None });
        c.check(exact, || (format!("size_hint of {} after {}", name, k), format!("({}, {:?}), remaining {:?}", lo, hi, left)));
        if left == Some(0) {
            c.check(it.next().is_none(), || (format!("indices of {}", name), "more than its cardinality".into()));
            break;
        }
        let got = it.next();
        c.check(got.map(|i| i.v()).as_ref() == Some(&expect), || (format!("index {} of {}", k, name), format!("{:?}, expected {:?}", got, expect)));
        c.check(s.contains(<S::Index as IxV>::of(&expect)), || (format!("contains of {}", name), format!("{:?} expected true", expect)));
        for p in (0..d.len()).rev() {
            expect[p] += 1;
            if expect[p] < d[p] {
                break;
            }
            expect[p] = 0;
        }
    }
    if total.map_or(false, |t| t <= usize::MAX as u128) {
        c.check(s.cardinality() as u128 == total.unwrap(), || (format!("cardinality of {}", name), format!("{}", s.cardinality())));
    }
    if !d.contains(&0) {
        let top: Vec<usize> = d.iter().map(|x| x - 1).collect();
        c.check(s.contains(<S::Index as IxV>::of(&top)), || (format!("contains of {}", name), format!("{:?} expected true", top)));
        for p in 0..d.len() {
            let mut out = top.clone();
            out[p] = d[p];
            c.check(!s.contains(<S::Index as IxV>::of(&out)), || (format!("contains of {}", name), format!("{:?} expected false", out)));
        }
    }
}

fn dyn_concat<const A: usize, const B: usize>(c: &mut Ctl, alphabet: &[usize])
where
    SDynamic<A>: Concat<SDynamic<B>> + Shape<Index = [usize; A]>,
    <SDynamic<A> as Concat<SDynamic<B>>>::Shape: ShV,
    IndexOf<<SDynamic<A> as Concat<SDynamic<B>>>::Shape>: IxV,
{
    let a = dyn_dims::<A>(c, alphabet);
    let b = dyn_dims::<B>(c, alphabet);
    concat_laws(c, SDynamic(a), SDynamic(b));
}

fn main() {
    let mut k = Check::new("C16");
    let th = k.thorough();
    k.assume("fixed shapes: the dimension lists instantiated in the harness (ranks 0-6); run-time shapes: every dimension vector over the alphabet");
    k.assume("behaviour of an index enumeration after it returned None is not specified");
    let f = fixed();
    let n = f.len();
    k.suite("fixed", format!("{} fixed shapes of rank 0-6, every position, every index of the enlarged box", n), move |c| {
        let i = c.choose(f.len());
        (f[i].1)(c)
    });
    let f = concats();
    let n = f.len();
    k.suite("concat", format!("{} concatenations / splits, every index pair", n), move |c| {
        let i = c.choose(f.len());
        (f[i].1)(c)
    });
    let (a1, a2, a3, a4, a56): (Vec<usize>, &'static [usize], &'static [usize], &'static [usize], &'static [usize]) = if th {
        ((0..300).collect(), &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 17, 33], &[0, 1, 2, 3, 4, 5, 7], &[0, 1, 2, 3, 4], &[0, 1, 2, 3])
    } else {
        ((0..140).collect(), &[0, 1, 2, 3, 4, 5, 7, 9, 17], &[0, 1, 2, 3, 4], &[0, 1, 2, 3], &[0, 1, 2])
    };
    k.suite("dyn0", "run-time shape of rank 0", |c| dynamic::<0>(c, &[]));
    k.suite("dyn1", format!("rank 1, dims {:?}..", a1.last()), move |c| dynamic::<1>(c, &a1));
    k.suite("dyn2", format!("rank 2, dims {:?}", a2), move |c| dynamic::<2>(c, a2));
    k.suite("dyn3", format!("rank 3, dims {:?}", a3), move |c| dynamic::<3>(c, a3));
    k.suite("dyn4", format!("rank 4, dims {:?}", a4), move |c| dynamic::<4>(c, a4));
    k.suite("dyn5", format!("rank 5, dims {:?}", a56), move |c| dynamic::<5>(c, a56));
    k.suite("dyn6", "rank 6, dims 0..2", move |c| dynamic::<6>(c, if th { &[0, 1, 2, 3] } else { &[0, 1, 2] }));
    k.suite("dyn-bcast", "pairs of run-time shapes of rank 0-3, dims 0..3", |c| match c.choose(4) {
        0 => dynamic_bcast::<0>(c, &[0]),
        1 => dynamic_bcast::<1>(c, &[0, 1, 2, 3, 4, 5, 16, 17]),
        2 => dynamic_bcast::<2>(c, &[0, 1, 2, 3]),
        _ => dynamic_bcast::<3>(c, &[0, 1, 2, 3]),
    });
    k.suite("dyn-clone", "rank 3, dims 0..3, cloned at every position", dynamic_clone);
    const BIG: [usize; 10] = [0, 1, 2, 3, 255, 1 << 16, 1 << 32, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX];
    k.suite("huge", format!("run-time shapes of rank 1-4 over the dimensions {:?}: the first six indices and remaining counts", BIG), |c| match c.choose(4) {
        0 => huge::<1>(c, &BIG),
        1 => huge::<2>(c, &BIG),
        2 => huge::<3>(c, &BIG),
        _ => huge::<4>(c, &BIG),
    });
    let f = huge_fixed();
    k.suite("huge fixed", format!("{} fixed shapes of rank 1-4 with such dimensions, likewise", f.len()), move |c| {
        let i = c.choose(f.len());
        (f[i].1)(c)
    });
    k.suite("equivalent", "is_equivalent of every pair of shapes of rank 0-3 with dimensions up to 6", |c| {
        fn one<A: ShV, B: ShV>(c: &mut Ctl, a: A, b: B) {
            let (m, n) = (a.dims().iter().product::<usize>(), b.dims().iter().product::<usize>());
            c.state(("equivalent", a.dims(), b.dims()));
            c.step(1);
            c.check(a.is_equivalent(&b) == (m == n), || (format!("is_equivalent of {:?} and {:?}", a.dims(), b.dims()), format!("expected {}", m == n)));
        }
        fn with<A: ShV>(c: &mut Ctl, a: A) {
            const D: [usize; 5] = [0, 1, 2, 3, 6];
            match c.choose(6) {
                0 => one(c, a, S0),
                1 => { let s = SDynamic(dyn_dims::<1>(c, &D)); one(c, a, s) },
                2 => { let s = SDynamic(dyn_dims::<2>(c, &D)); one(c, a, s) },
                3 => { let s = SDynamic(dyn_dims::<3>(c, &D)); one(c, a, s) },
                4 => one(c, a, S1::<6>),
                _ => one(c, a, S2::<2, 3>),
            }
        }
        const D: [usize; 5] = [0, 1, 2, 3, 6];
        match c.choose(6) {
            0 => with(c, S0),
            1 => { let s = SDynamic(dyn_dims::<1>(c, &D)); with(c, s) },
            2 => { let s = SDynamic(dyn_dims::<2>(c, &D)); with(c, s) },
            3 => { let s = SDynamic(dyn_dims::<3>(c, &D)); with(c, s) },
            4 => with(c, S1::<6>),
            _ => with(c, S2::<3, 2>),
        }
    });
    k.suite("dyn-concat", "all rank pairs 0-6 x 0-6, dims {1,2} (and {0..3} for small ranks)", |c| {
        macro_rules! row { ($a:tt) => { match c.choose(7) {
            0 => dyn_concat::<$a, 0>(c, &[1, 2, 3]), 1 => dyn_concat::<$a, 1>(c, &[1, 2, 3]), 2 => dyn_concat::<$a, 2>(c, &[1, 2]), 3 => dyn_concat::<$a, 3>(c, &[1, 2]),
            4 => dyn_concat::<$a, 4>(c, &[1, 2]), 5 => dyn_concat::<$a, 5>(c, &[1, 2]), _ => dyn_concat::<$a, 6>(c, &[1, 2]) } } }
        macro_rules! arms { ($($a:tt)*) => { match c.choose(7) { $($a => row!($a),)* _ => unreachable!() } } }
        arms!(0 1 2 3 4 5 6)
    });
    k.run()
}
