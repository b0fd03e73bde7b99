//! C14: buffer and class laws.
use aegir::buffers::{shapes::*, *};
use mc_core::{engine::*, tens::*};
use std::fmt::Debug;

/// Small integers embedded in every scalar field of the library.
trait Fld: Scalar + El<F = Self> + Kind<Field = Self> + PartialEq + Debug + Send + Sync + 'static {
    fn i(x: i64) -> Self;
}
macro_rules! flds { ($($t:ty),*) => { $(impl Fld for $t { fn i(x: i64) -> $t { x as $t } })* } }
flds!(f32, f64, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

type BufOf<B, G> = <<B as Buffer>::Class as Class<<B as Shaped>::Shape>>::Buffer<G>;

fn laws<B, G>(c: &mut Ctl, shape: B::Shape)
where
    B: Kind + PartialEq + Debug,
    B::Field: Fld,
    B::Shape: ShV,
    IndexOf<B::Shape>: IxV,
    G: Fld,
    BufOf<B, G>: Kind<Field = G> + Shaped<Shape = B::Shape>,
{
    let dims = shape.dims();
    let n: usize = dims.iter().product();
    let ixs = rows(&dims);
    let fname = std::any::type_name::<B::Field>();
    let gname = std::any::type_name::<G>();
    let name = format!("{}{:?}<{}>", std::any::type_name::<B::Class>().rsplit("::").next().unwrap(), dims, fname);
    c.state((&name, gname));
    c.desc(|| name.clone());
    let lab = |ix: &[usize]| B::Field::i(1 + (lin(&dims, ix) % 120) as i64);
    let eq = |c: &mut Ctl, what: &str, got: T<B::Field>, want: T<B::Field>| {
        c.step(1);
        c.state((&name, what));
        c.check(got == want, || (format!("{} of {}", what, name), format!("got {:?}, expected {:?}", got, want)))
    };
    // -- construction
    let want = T::build(&dims, lab);
    let b: B = B::Class::build(shape, |ix| lab(&ix.v()));
    eq(c, "build", b.t(), want.clone());
    c.check(b.shape().dims() == dims, || (format!("shape of {}", name), format!("{:?}", b.shape())));
    for v in [0i64, 1, 2, 7] {
        let v = B::Field::i(v);
        eq(c, "full", B::Class::full::<B::Field>(shape, v).t(), T::build(&dims, |_| v));
        eq(c, "diagonal", B::Class::diagonal::<B::Field>(shape, v).t(), T::build(&dims, |ix| if is_diag(ix) { v } else { B::Field::i(0) }));
        for s in [Spec::<B>::Full(shape, v), Spec::<B>::Diagonal(shape, v)] {
            c.check(s.shape().dims() == dims, || (format!("Spec::shape of {}", name), String::new()));
        }
        eq(c, "Spec::Full::unwrap", Spec::<B>::Full(shape, v).unwrap().t(), T::build(&dims, |_| v));
        eq(c, "Spec::Diagonal::unwrap", Spec::<B>::Diagonal(shape, v).unwrap().t(), T::build(&dims, |ix| if is_diag(ix) { v } else { B::Field::i(0) }));
        // mapping a lifted representation, with functions that move zero
        for (k, f) in [|x: i64| x + 1, |x: i64| 3 * x, |x: i64| 5 - x / 2].iter().enumerate() {
            let g = move |x: B::Field| {
                let i = (0..130).find(|i| B::Field::i(*i) == x).expect("HARNESS: label");
                G::i(f(i).rem_euclid(120))
            };
            for (w, s) in [("Full", Spec::<B>::Full(shape, v)), ("Diagonal", Spec::<B>::Diagonal(shape, v)), ("Raw", Spec::Raw(b.clone()))] {
                let want = s.clone().unwrap().t().map(g);
                let m = s.map(g);
                c.step(1);
                c.check(m.shape().dims() == dims, || (format!("shape of Spec::{}::map #{} of {}", w, k, name), String::new()));
                let got = m.unwrap().t();
                c.check(got == want, || (format!("Spec::{}::map #{} of {} into {}", w, k, name, gname), format!("got {:?}, expected {:?}", got, want)));
            }
        }
    }
    eq(c, "zeroes", B::Class::zeroes::<B::Field>(shape).t(), T::build(&dims, |_| B::Field::i(0)));
    eq(c, "ones", B::Class::ones::<B::Field>(shape).t(), T::build(&dims, |_| B::Field::i(1)));
    eq(c, "identity", B::Class::identity::<B::Field>(shape).t(), T::build(&dims, |ix| B::Field::i(is_diag(ix) as i64)));
    eq(c, "Spec::zeroes", Spec::<B>::zeroes(shape).unwrap().t(), T::build(&dims, |_| B::Field::i(0)));
    eq(c, "Spec::ones", Spec::<B>::ones(shape).unwrap().t(), T::build(&dims, |_| B::Field::i(1)));
    eq(c, "Spec::eye", Spec::<B>::eye(shape).unwrap().t(), T::build(&dims, |ix| B::Field::i(is_diag(ix) as i64)));
    eq(c, "Spec::Raw::unwrap", Spec::Raw(b.clone()).unwrap().t(), want.clone());
    eq(c, "into_spec", b.clone().into_spec().unwrap().t(), want.clone());
    eq(c, "From for Spec", Spec::from(b.clone()).unwrap().t(), want.clone());
    eq(c, "into_spec of a Spec", Spec::from(b.clone()).into_spec().unwrap().t(), want.clone());
    eq(c, "into_constant", b.clone().into_constant().0.t(), want.clone());
    eq(c, "clone", b.clone().t(), want.clone());
    // -- reading, inside and outside the shape
    let big: Vec<usize> = dims.iter().map(|d| d + 2).collect();
    for ix in rows(&big) {
        let inside = ix.iter().zip(&dims).all(|(i, d)| i < d);
        let got = b.get(IndexOf::<B::Shape>::of(&ix));
        c.step(1);
        let w = if inside { Some(lab(&ix)) } else { None };
        c.check(got == w, || (format!("get{:?} of {}", ix, name), format!("got {:?}, expected {:?}", got, w)));
        if inside {
            let got = b.get_unchecked(IndexOf::<B::Shape>::of(&ix));
            c.check(got == lab(&ix), || (format!("get_unchecked{:?} of {}", ix, name), format!("got {:?}", got)));
        }
    }
    // -- map, map_ref, mutate, fold, sum
    let f = |x: B::Field| x + x + B::Field::i(0);
    let half = |x: B::Field| if x == B::Field::i(1) { B::Field::i(9) } else { x };
    eq(c, "map", B::Class::build(shape, |ix| lab(&ix.v())).t().map(half), want.map(half));
    let same: B = b.clone().map(half);
    eq(c, "map", same.t(), want.map(half));
    let same: B = b.map_ref(half);
    eq(c, "map_ref", same.t(), want.map(half));
    let _ = f;
    let back = |x: B::Field| G::i((0..130).find(|i| B::Field::i(*i) == x).expect("HARNESS: label") ^ 1);
    let gb: BufOf<B, G> = b.clone().map(back);
    c.check(gb.t() == want.map(back) && gb.shape().dims() == dims, || (format!("map of {} into {}", name, gname), format!("{:?}", gb.t())));
    let gb: BufOf<B, G> = b.map_ref(back);
    c.check(gb.t() == want.map(back) && gb.shape().dims() == dims, || (format!("map_ref of {} into {}", name, gname), format!("{:?}", gb.t())));
    c.check(b.t() == want, || (format!("map_ref changes {}", name), String::new()));
    let mut m = b.clone();
    m.mutate(half);
    eq(c, "mutate", m.t(), want.map(half));
    m.mutate(half);
    eq(c, "mutate twice", m.t(), want.map(half));
    let order: Vec<B::Field> = b.fold(vec![], |mut a, x| {
        a.push(x);
        a
    });
    c.check(order == want.data, || (format!("fold order of {}", name), format!("{:?}", order)));
    let order: Vec<B::Field> = b.fold(vec![B::Field::i(77)], |mut a, x| {
        a.push(x);
        a
    });
    c.check(order.first() == Some(&B::Field::i(77)) && order[1..] == want.data[..], || (format!("fold with an initial value of {}", name), format!("{:?}", order)));
    // sums that cannot overflow any field
    for k in 0..3usize {
        let small = |ix: &[usize]| B::Field::i(match k { 0 => (lin(&dims, ix) < 100) as i64, 1 => (lin(&dims, ix) + 5 >= n) as i64 * 2, _ => (lin(&dims, ix) == n / 2) as i64 * 11 });
        let s: B = B::Class::build(shape, |ix| small(&ix.v()));
        let want = ixs.iter().fold(B::Field::i(0), |a, ix| a + small(ix));
        c.step(1);
        c.check(s.sum() == want, || (format!("sum of {}", name), format!("{:?} vs {:?}", s.sum(), want)));
    }
}

/// build_subset with every index sequence of bounded length (order and repetition included).
fn subset<B>(c: &mut Ctl, shape: B::Shape, maxlen: usize)
where
    B: Kind + PartialEq + Debug,
    B::Field: Fld,
    B::Shape: ShV,
    IndexOf<B::Shape>: IxV,
{
    let dims = shape.dims();
    let n: usize = dims.iter().product();
    let ixs = rows(&dims);
    let len = if n == 0 { 0 } else { c.choose(maxlen + 1) };
    let seq: Vec<usize> = (0..len).map(|_| c.choose(n)).collect();
    let base = B::Field::i([0, 5][c.choose(2)]);
    let name = format!("{}{:?}<{}>", std::any::type_name::<B::Class>().rsplit("::").next().unwrap(), dims, std::any::type_name::<B::Field>());
    c.desc(|| format!("build_subset {} {:?}", name, seq));
    c.state((&name, &seq));
    let act = |ix: &[usize]| B::Field::i(10 + lin(&dims, ix) as i64 % 100);
    let got = B::Class::build_subset::<B::Field>(shape, base, seq.iter().map(|i| IndexOf::<B::Shape>::of(&ixs[*i])), |ix| act(&ix.v())).t();
    let want = T::build(&dims, |ix| if seq.contains(&lin(&dims, ix)) { act(ix) } else { base });
    c.step(1);
    c.check(got == want, || (format!("build_subset of {} len {}", name, len.min(2)), format!("indices {:?}: got {:?}, expected {:?}", seq, got, want)));
    // the subset given lazily by the shape's own enumeration
    if len == 0 {
        let got = B::Class::build_subset::<B::Field>(shape, base, shape.indices(), |ix| act(&ix.v())).t();
        c.check(got == T::build(&dims, act), || (format!("build_subset(all) of {}", name), format!("{:?}", got)));
        let got = B::Class::build_subset::<B::Field>(shape, base, shape.indices().filter(|i| i.is_diagonal()), |ix| act(&ix.v())).t();
        let want = T::build(&dims, |ix| if is_diag(ix) { act(ix) } else { base });
        c.check(got == want, || (format!("build_subset(diagonal) of {}", name), format!("{:?}", got)));
    }
}

/// Every buffer content over a small alphabet: fold, sum, map, mutate, get.
fn contents<B>(c: &mut Ctl, shape: B::Shape, alpha: &[i64])
where
    B: Kind + PartialEq + Debug,
    B::Field: Fld,
    B::Shape: ShV,
    IndexOf<B::Shape>: IxV,
{
    let dims = shape.dims();
    let n: usize = dims.iter().product();
    let v: Vec<i64> = (0..n).map(|_| *c.pick(alpha)).collect();
    let t = T { dims: dims.clone(), data: v.iter().map(|x| B::Field::i(*x)).collect() };
    let b = B::of(&t);
    let name = format!("{}{:?}<{}>", std::any::type_name::<B::Class>().rsplit("::").next().unwrap(), dims, std::any::type_name::<B::Field>());
    c.desc(|| format!("{} {:?}", name, v));
    c.state((&name, &v));
    c.step(5);
    let sum: i64 = v.iter().sum();
    c.check(b.sum() == B::Field::i(sum), || (format!("sum of {}", name), format!("{:?}: {:?}", v, b.sum())));
    c.check(b.fold(0usize, |a, x| a * 7 + alpha.iter().position(|q| B::Field::i(*q) == x).unwrap()) == v.iter().fold(0usize, |a, x| a * 7 + alpha.iter().position(|q| q == x).unwrap()), || {
        (format!("fold of {}", name), format!("{:?}", v))
    });
    let f = |x: B::Field| x * x + B::Field::i(1);
    let mp: B = b.clone().map(f);
    c.check(mp.t() == t.map(f), || (format!("map of {}", name), format!("{:?}", v)));
    let mp: B = b.map_ref(f);
    c.check(mp.t() == t.map(f), || (format!("map_ref of {}", name), format!("{:?}", v)));
    let mut mu = b.clone();
    mu.mutate(f);
    c.check(mu.t() == t.map(f), || (format!("mutate of {}", name), format!("{:?}", v)));
    c.check(b.t() == t, || (format!("reading changes {}", name), format!("{:?}", v)));
    // the representation type
    let s = Spec::Raw(b.clone());
    c.check(s.clone().unwrap() == b, || (format!("Spec::Raw of {}", name), format!("{:?}", v)));
}

type Case = Box<dyn Fn(&mut Ctl) + Send + Sync>;

fn main() {
    let mut k = Check::new("C14");
    let th = k.thorough();
    k.assume("element values are labels: the buffer code is parametric in them (checked with injective labels, and exhaustively over a 3-letter alphabet for small shapes)");
    k.assume("build_subset is only specified for in-range indices");
    let mut l: Vec<Case> = vec![];
    macro_rules! one { ($F:ty, $G:ty, $B:ty, $s:expr) => { l.push(Box::new(|c| laws::<$B, $G>(c, $s))); } }
    macro_rules! all_fields { ($($F:ty),*) => { $(
        one!($F, f64, $F, S0); one!($F, i32, ($F, $F), S1);
        one!($F, u8, [$F; 0], S1); one!($F, i64, [$F; 3], S1); one!($F, f32, [[$F; 3]; 2], S2); one!($F, f64, [[[$F; 2]; 1]; 3], S3);
        one!($F, i16, [[[[$F; 2]; 3]; 1]; 2], S4); one!($F, f64, [[[[[$F; 2]; 1]; 2]; 2]; 3], S5);
        one!($F, f64, Vec<$F>, SDynamic([3]));
    )* } }
    all_fields!(f32, f64, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    macro_rules! r1 { ($($a:literal)*) => { $( one!(f64, i32, [f64; $a], S1); )* } }
    r1!(1 2 4 5 6 7 8 9 10 15 16 17 31 32 33 63 64 65 100 127 128 129 255 256 257);
    macro_rules! r2 { ($($a:literal, $b:literal;)*) => { $( one!(f64, i32, [[f64; $b]; $a], S2); )* } }
    r2!(0, 0; 0, 1; 1, 0; 1, 1; 1, 2; 2, 1; 2, 2; 3, 2; 3, 3; 1, 4; 4, 1; 4, 4; 2, 5; 5, 2; 7, 3; 3, 8; 16, 17; 17, 16; 33, 2;);
    macro_rules! r3 { ($($a:literal, $b:literal, $c:literal;)*) => { $( one!(f64, i32, [[[f64; $c]; $b]; $a], S3); )* } }
    r3!(0, 1, 2; 1, 0, 2; 2, 1, 0; 1, 1, 1; 2, 2, 2; 1, 2, 3; 3, 2, 1; 2, 3, 4; 4, 3, 2; 3, 3, 3; 2, 9, 2; 5, 4, 3;);
    macro_rules! r4 { ($($a:literal, $b:literal, $c:literal, $d:literal;)*) => { $( one!(f64, i32, [[[[f64; $d]; $c]; $b]; $a], S4); )* } }
    r4!(1, 1, 1, 1; 2, 2, 2, 2; 1, 2, 3, 4; 4, 3, 2, 1; 2, 0, 1, 2; 3, 2, 3, 2; 2, 3, 2, 5;);
    macro_rules! r5 { ($($a:literal, $b:literal, $c:literal, $d:literal, $e:literal;)*) => { $( one!(f64, i32, [[[[[f64; $e]; $d]; $c]; $b]; $a], S5); )* } }
    r5!(1, 1, 1, 1, 1; 2, 2, 2, 2, 2; 1, 2, 3, 4, 2; 4, 2, 3, 2, 1; 2, 1, 0, 1, 2; 2, 3, 2, 4, 3;);
    let nl = l.len();
    k.suite("laws", format!("{} (class, shape, field) combinations: constructors, reads inside and outside the shape, map/mutate/fold/sum, representations", nl), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    let vmax = if th { 2100 } else { 300 };
    k.suite("laws-vec", format!("vectors of every length 0..{}", vmax - 1), move |c| {
        let n = c.choose(vmax);
        if c.flag() { laws::<Vec<f64>, i32>(c, SDynamic([n])) } else { laws::<Vec<i64>, f64>(c, SDynamic([n])) }
    });
    let ml = if th { 7 } else { 5 };
    let mut l: Vec<Case> = vec![];
    macro_rules! sub { ($B:ty, $s:expr, $m:expr) => { l.push(Box::new(move |c| subset::<$B>(c, $s, $m))) } }
    sub!(f64, S0, ml);
    sub!(i32, S0, ml);
    sub!((f64, f64), S1, ml + 2);
    sub!([f64; 0], S1, 1);
    sub!([f64; 1], S1, ml);
    sub!([f64; 2], S1, ml);
    sub!([i64; 4], S1, ml);
    sub!([[f64; 2]; 2], S2, ml);
    sub!([[f64; 3]; 2], S2, ml - 1);
    sub!([[f64; 2]; 3], S2, ml - 1);
    sub!([[[f64; 1]; 2]; 2], S3, ml);
    sub!([[[f64; 3]; 2]; 2], S3, 3);
    sub!([[[[f64; 2]; 1]; 2]; 2], S4, 4);
    sub!([[[[f64; 2]; 3]; 2]; 1], S4, 3);
    sub!([[[[[f64; 2]; 1]; 2]; 1]; 2], S5, 4);
    sub!([[[[[f64; 2]; 3]; 2]; 1]; 2], S5, 3);
    for n in 0..6 { sub!(Vec<f64>, SDynamic([n]), ml) }
    let nl = l.len();
    k.suite("subset", format!("{} (class, shape) pairs, every sequence of indices of length <= {}", nl, ml + 2), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    let mut l: Vec<Case> = vec![];
    static A3: [i64; 3] = [0, 1, 2];
    static AM: [i64; 4] = [0, 1, -1, 2];
    macro_rules! con { ($B:ty, $s:expr, $a:expr) => { l.push(Box::new(move |c| contents::<$B>(c, $s, $a))) } }
    con!(f64, S0, &AM);
    con!((i64, i64), S1, &AM);
    con!([f64; 3], S1, &AM);
    con!([f64; 6], S1, &AM);
    con!([u8; 7], S1, &A3);
    con!([[f64; 2]; 3], S2, &AM);
    con!([[i32; 3]; 2], S2, &AM);
    con!([[[f64; 2]; 2]; 2], S3, &A3);
    con!([[[u16; 2]; 3]; 1], S3, &A3);
    con!([[[[f64; 2]; 1]; 2]; 2], S4, &A3);
    con!([[[[[f32; 2]; 1]; 2]; 2]; 1], S5, &A3);
    for n in 0..(if th { 10 } else { 7 }) { con!(Vec<f64>, SDynamic([n]), &AM) }
    let nl = l.len();
    k.suite("contents", format!("{} (class, shape) pairs, every content over a 3- or 4-letter alphabet", nl), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    k.run()
}
