//! C15: zip laws.
use aegir::buffers::{shapes::*, *};
use mc_core::{engine::*, tens::*};
use std::fmt::Debug;

trait Fld: Scalar + El<F = Self> + Kind<Field = Self> + PartialEq + Debug + Send + Sync + 'static {
    fn i(x: i64) -> Self;
}
macro_rules! flds { ($($t:ty),*) => { $(impl Fld for $t { fn i(x: i64) -> $t { x as $t } })* } }
flds!(f32, f64, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

fn nm<B: Kind>(d: &[usize]) -> String
where B::Class: Class<B::Shape> {
    format!("{}{:?}", std::any::type_name::<B::Class>().rsplit("::").next().unwrap(), d)
}
fn fill<F: Fld>(dims: &[usize], side: usize, pat: usize) -> T<F> {
    T::build(dims, |ix| {
        let l = lin(dims, ix) as i64;
        F::i(match pat {
            0 => 1 + (l + 40 * side as i64) % 100,           // labels
            1 => (l + side as i64) % 2,                       // many ties, zeroes and ones
            _ => if side == 0 { 7 } else { 100 - (l % 100) }, // a constant against a descending ramp
        })
    })
}

/// ZipMap (all its methods) and Spec::zip_map.
fn zmap<A, B, F, G>(c: &mut Ctl, sa: A::Shape, sb: B::Shape)
where
    F: Fld,
    G: Fld,
    A: Kind<Field = F> + ZipMap<B>,
    B: Kind<Field = F>,
    A::Shape: ShV + Broadcast<B::Shape>,
    B::Shape: ShV,
    BShape<A::Shape, B::Shape>: ShV,
    A::Output<G>: Kind<Field = G>,
    A::Output<F>: Kind<Field = F>,
{
    let (da, db) = (sa.dims(), sb.dims());
    let name = format!("{} with {} <{}>", nm::<A>(&da), nm::<B>(&db), std::any::type_name::<F>());
    let (ta, tb) = (fill::<F>(&da, 0, c.choose(3)), fill::<F>(&db, 1, c.choose(3)));
    let (a, b) = (A::of(&ta), B::of(&tb));
    c.desc(|| format!("zip {}", name));
    c.state((&name, format!("{:?}{:?}", ta, tb)));
    let one = F::i(1);
    let dom = |x: F| (0..128i64).find(|i| F::i(*i) == x).expect("HARNESS: label");
    let f = |x: F, y: F| G::i((3 * dom(x) + 50 * dom(y) + 7) % 120); // not symmetric
    let id = |x: F, y: F| F::i((3 * dom(x) + 50 * dom(y) + 7) % 120);
    let fst = |x: F, _: F| x;
    let compatible = da == db || da.is_empty() || db.is_empty();
    macro_rules! judge { ($what:expr, $got:expr, $want:expr) => { {
        c.step(1);
        match ($got, $want) {
            (Ok(g), Some(w)) => {
                let gs = g.shape().dims();
                let gt = g.t();
                c.check(gt == w, || (format!("{} of {}", $what, name), format!("{:?} and {:?}: got {:?}, expected {:?}", ta.data, tb.data, gt.data, w.data)));
                c.check(gs == w.dims, || (format!("shape of {} of {}", $what, name), format!("{:?}", gs)));
            },
            (Err(e), None) => c.check(e.left.dims() == da && e.right.dims() == db, || (format!("error of {} of {}", $what, name), format!("{:?}", e))),
            (Ok(g), None) => c.fail(format!("{} of {} succeeds", $what, name), format!("{:?}", g.t().data)),
            (Err(e), Some(_)) => c.fail(format!("{} of {} fails", $what, name), format!("{:?}", e)),
        }
    } } }
    judge!("zip_map", a.clone().zip_map(&b, f), ta.zip(&tb, f));
    judge!("zip_map_id", a.clone().zip_map_id(&b, id), ta.zip(&tb, id));
    judge!("zip_map_id of a subtraction", a.clone().zip_map_id(&b, |x, y| if dom(x) >= dom(y) { x - y } else { one }), ta.zip(&tb, |x, y| if dom(x) >= dom(y) { x - y } else { one }));
    judge!("zip_shape", a.clone().zip_shape(sb), ta.zip(&tb, fst));
    c.check(a.t() == ta && b.t() == tb, || (format!("zip changes an operand: {}", name), String::new()));
    c.check(sa.broadcast(sb).is_ok() == compatible, || (format!("broadcast of {}", name), String::new()));
    // representations
    let va = F::i(c.choose(3) as i64);
    let vb = F::i(c.choose(3) as i64);
    for i in 0..3 {
        for j in 0..3 {
            let x = match i { 0 => Spec::Raw(a.clone()), 1 => Spec::Full(sa, va), _ => Spec::Diagonal(sa, va) };
            let y = match j { 0 => Spec::Raw(b.clone()), 1 => Spec::Full(sb, vb), _ => Spec::Diagonal(sb, vb) };
            let dg = |v: F| move |ix: &[usize]| if is_diag(ix) { v } else { F::i(0) };
            let tx = match i { 0 => ta.clone(), 1 => T::build(&da, |_| va), _ => T::build(&da, dg(va)) };
            let ty = match j { 0 => tb.clone(), 1 => T::build(&db, |_| vb), _ => T::build(&db, dg(vb)) };
            let w = ["Raw", "Full", "Diagonal"];
            c.state((&name, "spec", i, j, dom(va), dom(vb)));
            judge!(format!("Spec::zip_map of {}/{}", w[i], w[j]), x.zip_map(&y, f).map(|s| s.unwrap()), tx.zip(&ty, f));
        }
    }
}

fn zmut<A, B, F>(c: &mut Ctl, sa: A::Shape, sb: B::Shape)
where
    F: Fld,
    A: Kind<Field = F> + ZipMut<B>,
    B: Kind<Field = F>,
    A::Shape: ShV,
    B::Shape: ShV,
{
    let (da, db) = (sa.dims(), sb.dims());
    let name = format!("{} with {} <{}>", nm::<A>(&da), nm::<B>(&db), std::any::type_name::<F>());
    let (ta, tb) = (fill::<F>(&da, 0, c.choose(3)), fill::<F>(&db, 1, c.choose(3)));
    c.state((&name, format!("{:?}{:?}", ta, tb)));
    let (mut a, b) = (A::of(&ta), B::of(&tb));
    let dom = |x: F| (0..128i64).find(|i| F::i(*i) == x).expect("HARNESS: label");
    let id = |x: F, y: F| F::i((3 * dom(x) + 50 * dom(y) + 7) % 120);
    c.step(2);
    let r = a.zip_mut(&b, id);
    c.check(r.is_ok() && a.t() == ta.zip(&tb, id).unwrap(), || (format!("zip_mut of {}", name), format!("{:?}", a.t())));
    // a second application sees the result of the first
    let r = a.zip_mut(&b, id);
    let w = ta.zip(&tb, id).unwrap().zip(&tb, id).unwrap();
    c.check(r.is_ok() && a.t() == w && b.t() == tb, || (format!("second zip_mut of {}", name), format!("{:?}", a.t())));
}

fn zfold<A, B, F>(c: &mut Ctl, sa: A::Shape, sb: B::Shape)
where
    F: Fld,
    A: Kind<Field = F> + ZipFold<B>,
    B: Kind<Field = F>,
    A::Shape: ShV,
    B::Shape: ShV,
{
    let (da, db) = (sa.dims(), sb.dims());
    let name = format!("{} with {} <{}>", nm::<A>(&da), nm::<B>(&db), std::any::type_name::<F>());
    let (ta, tb) = (fill::<F>(&da, 0, c.choose(3)), fill::<F>(&db, 1, c.choose(3)));
    c.state((&name, format!("{:?}{:?}", ta, tb)));
    let (a, b) = (A::of(&ta), B::of(&tb));
    let dom = |x: F| (0..128i64).find(|i| F::i(*i) == x).expect("HARNESS: label");
    // an order-sensitive, operand-sensitive accumulator
    let f = |acc: u64, (x, y): (F, F)| (acc * 31 + 7 * dom(x) as u64 + 3 * dom(y) as u64 + 1) % 1_000_000_007;
    for init in [0u64, 5] {
        c.step(1);
        let got = a.zip_fold(&b, init, f);
        match ta.zip(&tb, |x, y| (x, y)) {
            Some(w) => {
                let want = w.data.iter().fold(init, |a, p| f(a, *p));
                let got = got.ok();
                c.check(got == Some(want), || (format!("zip_fold of {}", name), format!("{:?} and {:?}: got {:?}, expected {:?}", ta.data, tb.data, got, want)))
            },
            None => match got {
                Ok(v) => c.fail(format!("zip_fold of {} succeeds", name), format!("{:?}", v)),
                Err(e) => c.check(e.left.dims() == da && e.right.dims() == db, || (format!("error of zip_fold of {}", name), format!("{:?}", e))),
            },
        }
    }
}

type Case = Box<dyn Fn(&mut Ctl) + Send + Sync>;

fn main() {
    let mut k = Check::new("C15");
    let th = k.thorough();
    k.assume("the zip code is parametric in element values: three value patterns per operand (injective labels, 0/1 patterns, constants)");
    let (mut m, mut u, mut f): (Vec<Case>, Vec<Case>, Vec<Case>) = (vec![], vec![], vec![]);
    macro_rules! map { ($F:ty, $G:ty, $A:ty, $B:ty, $sa:expr, $sb:expr) => { m.push(Box::new(|c| zmap::<$A, $B, $F, $G>(c, $sa, $sb))); } }
    macro_rules! mutf { ($F:ty, $A:ty, $B:ty, $sa:expr, $sb:expr) => { {
        u.push(Box::new(|c| zmut::<$A, $B, $F>(c, $sa, $sb)));
        f.push(Box::new(|c| zfold::<$A, $B, $F>(c, $sa, $sb)));
    } } }
    macro_rules! arr { ($F:ty, $G:ty, $A:ty, $s:expr) => {
        map!($F, $G, $A, $A, $s, $s);
        map!($F, $G, $A, $F, $s, S0);
        map!($F, $G, $F, $A, S0, $s);
        mutf!($F, $A, $A, $s, $s);
        mutf!($F, $A, $F, $s, S0);
    } }
    macro_rules! fields { ($($F:ty),*) => { $(
        map!($F, f64, $F, $F, S0, S0);
        f.push(Box::new(|c| zfold::<$F, $F, $F>(c, S0, S0)));
        map!($F, i32, ($F, $F), ($F, $F), S1, S1);
        f.push(Box::new(|c| zfold::<($F, $F), ($F, $F), $F>(c, S1, S1)));
        arr!($F, f32, [$F; 3], S1);
        arr!($F, i64, [[$F; 3]; 2], S2);
        arr!($F, u16, [[[$F; 2]; 1]; 3], S3);
    )* } }
    fields!(f32, f64, u8, i16, u32, i64);
    arr!(u16, f64, [u16; 2], S1);
    arr!(i8, f64, [[i8; 1]; 2], S2);
    arr!(i32, f64, [[i32; 2]; 1], S2);
    arr!(u64, f64, [u64; 4], S1);
    arr!(usize, f64, [usize; 4], S1);
    arr!(isize, f64, [isize; 4], S1);
    macro_rules! r1 { ($($a:literal)*) => { $( arr!(f64, i32, [f64; $a], S1); )* } }
    r1!(0 1 2 4 5 7 8 9 16 17 33 64 100 129 257);
    macro_rules! r2 { ($($a:literal, $b:literal;)*) => { $( arr!(f64, i32, [[f64; $b]; $a], S2); )* } }
    r2!(0, 0; 0, 1; 1, 0; 1, 1; 1, 2; 2, 1; 2, 2; 3, 2; 3, 3; 1, 4; 4, 4; 5, 2; 3, 8; 16, 17; 17, 16;);
    macro_rules! r3 { ($($a:literal, $b:literal, $c:literal;)*) => { $( arr!(f64, i32, [[[f64; $c]; $b]; $a], S3); )* } }
    r3!(1, 1, 1; 2, 2, 2; 1, 2, 3; 3, 2, 1; 2, 3, 4; 2, 0, 2; 3, 3, 3; 2, 9, 2;);
    macro_rules! r4 { ($($a:literal, $b:literal, $c:literal, $d:literal;)*) => { $( arr!(f64, i32, [[[[f64; $d]; $c]; $b]; $a], S4); )* } }
    r4!(1, 1, 1, 1; 2, 2, 2, 2; 1, 2, 3, 4; 4, 3, 2, 1; 3, 2, 3, 2;);
    macro_rules! r5 { ($($a:literal, $b:literal, $c:literal, $d:literal, $e:literal;)*) => { $( arr!(f64, i32, [[[[[f64; $e]; $d]; $c]; $b]; $a], S5); )* } }
    r5!(1, 1, 1, 1, 1; 2, 2, 2, 2, 2; 1, 2, 3, 1, 2; 3, 2, 1, 2, 1;);
    let (nm, nu, nf) = (m.len(), u.len(), f.len());
    k.suite("zip_map", format!("{} operand type pairs: zip_map, zip_map_id, zip_shape, Spec::zip_map over all representation pairs", nm), move |c| {
        let i = c.choose(m.len());
        m[i](c)
    });
    k.suite("zip_mut", format!("{} operand type pairs", nu), move |c| {
        let i = c.choose(u.len());
        u[i](c)
    });
    k.suite("zip_fold", format!("{} operand type pairs", nf), move |c| {
        let i = c.choose(f.len());
        f[i](c)
    });
    let vm = if th { 40 } else { 12 };
    k.suite("vec", format!("vectors: every pair of lengths 0..{} (equal and unequal)", vm - 1), move |c| {
        let (a, b) = (c.choose(vm), c.choose(vm));
        if c.flag() {
            zmap::<Vec<f64>, Vec<f64>, f64, i32>(c, SDynamic([a]), SDynamic([b]));
            zfold::<Vec<f64>, Vec<f64>, f64>(c, SDynamic([a]), SDynamic([b]))
        } else {
            zmap::<Vec<i64>, Vec<i64>, i64, f64>(c, SDynamic([a]), SDynamic([b]));
            zfold::<Vec<i64>, Vec<i64>, i64>(c, SDynamic([a]), SDynamic([b]))
        }
    });
    let vm = if th { 1100 } else { 270 };
    k.suite("vec, long", format!("vectors of every length 0..{} with one of the same length, one element shorter, one longer, twice as long", vm - 1), move |c| {
        let a = c.choose(vm);
        let b = match c.choose(4) {
            0 => a,
            1 => a.saturating_sub(1),
            2 => a + 1,
            _ => 2 * a,
        };
        if c.flag() {
            zmap::<Vec<f64>, Vec<f64>, f64, i32>(c, SDynamic([a]), SDynamic([b]));
        } else {
            zfold::<Vec<f64>, Vec<f64>, f64>(c, SDynamic([a]), SDynamic([b]));
            zfold::<Vec<u8>, Vec<u8>, u8>(c, SDynamic([a]), SDynamic([b]));
        }
    });
    k.suite("vec-scalar", format!("vectors of every length 0..{} against a scalar, both ways", vm - 1), move |c| {
        let a = c.choose(vm);
        match c.choose(4) {
            0 => zmap::<Vec<f64>, f64, f64, i32>(c, SDynamic([a]), S0),
            1 => zmap::<f64, Vec<f64>, f64, i32>(c, S0, SDynamic([a])),
            2 => zmap::<Vec<u8>, u8, u8, f64>(c, SDynamic([a]), S0),
            _ => zmap::<i32, Vec<i32>, i32, f64>(c, S0, SDynamic([a])),
        }
    });
    k.run()
}
