//! C05: contractions are the bilinear maps they are named after.
use aegir::buffers::{self, shapes::*, Buffer, Contract, Scalar, Spec};
use aegir::meta::Constant;
use aegir::{ops, Context, Function, Identifier, Read};
use mc_core::{con, contraction_cases, engine::*, mat_vec_nonsquare, tens::*};
use num_traits::FromPrimitive;
use std::fmt::Debug;

trait Fld: Scalar + FromPrimitive + El<F = Self> + Kind<Field = Self> + PartialEq + Debug + Send + Sync + 'static {
    fn i(x: i64) -> Self;
}
macro_rules! flds { ($($t:ty),*) => { $(impl Fld for $t { fn i(x: i64) -> $t { x as $t } })* } }
flds!(f32, f64, u8, i16, i32, i64, usize);

/// how the contents of one operand are enumerated
#[derive(Copy, Clone)]
enum Mode {
    /// every content over the alphabet
    All(&'static [i64]),
    /// every basis vector, and the injective labelling
    Basis,
    /// basis vectors at the ends, in the middle, and around the row and power-of-two boundaries; the labelling
    Few,
}

fn operand<F: Fld>(c: &mut Ctl, dims: &[usize], m: Mode, side: usize) -> T<F> {
    let n: usize = dims.iter().product();
    match m {
        Mode::All(a) => {
            let v: Vec<i64> = (0..n).map(|_| *c.pick(a)).collect();
            T { dims: dims.to_vec(), data: v.iter().map(|x| F::i(*x)).collect() }
        },
        Mode::Basis | Mode::Few => {
            let k = if matches!(m, Mode::Few) {
                let row = dims.last().copied().unwrap_or(1);
                let mut l = vec![0, 1, 15, 16, 63, 64, 127, 128, 255, 256, row.saturating_sub(1), row, n / 2, n - 1];
                l.retain(|k| *k < n);
                l.sort();
                l.dedup();
                l.extend(n..n + 4);
                *c.pick(&l)
            } else {
                c.choose(n + 4)
            };
            T::build(dims, |ix| {
                let l = lin(dims, ix);
                F::i(if k == n + 2 { 2 * is_diag(ix) as i64 } else if k == n + 3 { 2 } else if k == n { 1 } else if k > n { (l as i64 * 5 + side as i64) % 7 % 4 } else { (l == k) as i64 })
            })
        },
    }
}

/// Every representation with these contents.
fn reps<B: Kind>(b: &B, t: &T<B::Field>) -> Vec<(&'static str, Spec<B>)>
where
    B::Field: Fld,
{
    let mut l = vec![("raw", Spec::Raw(b.clone()))];
    if let Some(&v) = t.data.first() {
        if t.data.iter().all(|x| *x == v) {
            l.push(("full", Spec::Full(b.shape(), v)));
        }
        if *t == T::build(&t.dims, |ix| if is_diag(ix) { v } else { B::Field::i(0) }) {
            l.push(("diagonal", Spec::Diagonal(b.shape(), v)));
        }
    }
    l
}

struct Two<A, B>(A, B);
use aegir::ids::{X as IdA, Y as IdB};
impl<A, B> AsMut<Two<A, B>> for Two<A, B> {
    fn as_mut(&mut self) -> &mut Self { self }
}
impl<A, B> Context for Two<A, B> {}
impl<A: Buffer, B: Buffer> Read<IdA> for Two<A, B> {
    type Buffer = A;
    fn read(&self, _: IdA) -> Option<A> { Some(self.0.clone()) }
}
impl<A: Buffer, B: Buffer> Read<IdB> for Two<A, B> {
    type Buffer = B;
    fn read(&self, _: IdB) -> Option<B> { Some(self.1.clone()) }
}

fn body<const AX: usize, A, B, F>(c: &mut Ctl, sa: A::Shape, sb: B::Shape, limit: usize)
where
    F: Fld,
    A: Kind<Field = F> + Contract<B, AX>,
    B: Kind<Field = F>,
    A::Output: Kind<Field = F>,
    A::Shape: ShV,
    B::Shape: ShV,
    ShapeOf<A::Output>: ShV,
{
    let (da, db) = (sa.dims(), sb.dims());
    let name = format!("contract<{}> {:?} {:?} <{}>", AX, da, db, std::any::type_name::<F>());
    let n: usize = da.iter().product::<usize>() + db.iter().product::<usize>();
    let m = if limit == 0 { Mode::Few } else if 4usize.saturating_pow(n as u32) <= limit { Mode::All(&[0, 1, 2, 3]) } else if 3usize.saturating_pow(n as u32) <= limit { Mode::All(&[0, 1, 2]) } else if n < 40 && 1usize << n <= limit { Mode::All(&[0, 1]) } else { Mode::Basis };
    let (ta, tb) = (operand::<F>(c, &da, m, 0), operand::<F>(c, &db, m, 1));
    c.desc(|| format!("{} {:?} {:?}", name, ta.data, tb.data));
    c.state((&name, format!("{:?}{:?}", ta.data, tb.data)));
    let nonsquare = AX == 1 && da.len() == 2 && db.len() == 1 && da[0] != da[1];
    let (z, add, mul) = (F::i(0), |a: F, b: F| a + b, |a: F, b: F| a * b);
    let want = if nonsquare { con::mat_vec_by_type(&ta, &tb, z, add, mul) } else { con::contract(AX, &ta, &tb, z, add, mul) };
    let (a, b) = (A::of(&ta), B::of(&tb));
    let mut routes: Vec<(String, Result<Result<T<F>, String>, String>)> = vec![];
    for (ra, fa) in reps(&a, &ta) {
        for (rb, fb) in reps(&b, &tb) {
            routes.push((format!("contract_spec ({} and {})", ra, rb), guarded(|| buffers::contract_spec::<AX, A, B>(fa.clone(), fb.clone()).map(|r| r.unwrap().t()).map_err(|e| format!("{:?}", e)))));
            routes.push((format!("operator on constants ({} and {})", ra, rb), guarded(|| {
                let op: ops::Contract<AX, _, _> = ops::Contract(Constant(fa.clone()), Constant(fb.clone()));
                op.evaluate(Two(0.0, 0.0)).map(|r| r.t()).map_err(|_| "error".to_string())
            })));
        }
    }
    routes.extend([
        ("Contract::contract".to_string(), guarded(|| Contract::<B, AX>::contract(a.clone(), b.clone()).map(|r| r.t()).map_err(|e| format!("{:?}", e)))),
        ("buffers::contract".to_string(), guarded(|| buffers::contract::<AX, A, B>(a.clone(), b.clone()).map(|r| r.t()).map_err(|e| format!("{:?}", e)))),
        ("operator on variables".to_string(), guarded(|| {
            let op: ops::Contract<AX, _, _> = ops::Contract::new(IdA.into_var(), IdB.into_var());
            op.evaluate(Two(a.clone(), b.clone())).map(|r| r.t()).map_err(|_| "error".to_string())
        })),
    ]);
    for (r, got) in routes {
        c.step(1);
        let ok = matches!(&got, Ok(Ok(t)) if *t == want);
        c.check(ok, || {
            let what = if nonsquare {
                // the one defective value that is recorded as a known finding
                let trunc = |a: &T<F>, b: &T<F>| T::build(&[da[1]], |ix| (0..da[1]).fold(z, |s, k| s + a.at(&[ix[0], k]) * b.at(&[k])));
                match &got {
                    Err(_) if da[1] > da[0] => "matrix-vector, more columns than rows: panics".to_string(),
                    Ok(Ok(t)) if da[1] < da[0] && *t == trunc(&ta, &tb) => "matrix-vector, fewer columns than rows: truncated to the leading square".to_string(),
                    _ => format!("{} by {}", name, r),
                }
            } else {
                format!("{} by {}", name, r)
            };
            (what, format!("{:?} with {:?}: got {:?}, expected {:?}", ta.data, tb.data, got, want.data))
        });
    }
    let s = buffers::contract_shape::<AX, A, B>(sa, sb).map(|s| s.dims());
    c.check(s.as_ref().ok() == Some(&want.dims), || (format!("contract_shape {}", name), format!("{:?}", s)));
}

type Case = Box<dyn Fn(&mut Ctl, usize) + Send + Sync>;

fn main() {
    let mut k = Check::new("C05");
    let th = k.thorough();
    k.assume("small pairs: every content over an alphabet of small integers; larger pairs: every pair of basis vectors (a bilinear map is determined by them) plus a dense labelling");
    k.assume("arithmetic is exact: the values stay below every field's range");
    macro_rules! cases { ($F:ty) => { {
        let mut l: Vec<Case> = vec![];
        macro_rules! one { ($ax:literal, $A:ty, $B:ty, $sa:expr, $sb:expr) => { l.push(Box::new(|c, n| body::<$ax, $A, $B, $F>(c, $sa, $sb, n))); } }
        contraction_cases!(one, $F);
        l
    } } }
    macro_rules! go { ($($F:ty, $q:expr, $t:expr;)*) => { $( {
        let l = cases!($F);
        let n = if th { $t } else { $q };
        k.suite(stringify!($F), format!("{} operand shape pairs over {}; all contents up to {} combinations, basis pairs beyond", l.len(), stringify!($F), n), move |c| {
            let i = c.choose(l.len());
            l[i](c, n)
        });
    } )* } }
    go!(f64, 70_000, 2_000_000; i64, 3_000, 300_000; f32, 600, 70_000; usize, 600, 20_000;);
    // signed contents, exhaustively, on the small matrix products
    k.suite("signed", "2x2 . 2x2, 2x2 . 2, 2 . 2x2, 2 (x) 2 over {-1, 0, 1, 2}", |c| {
        static A: [i64; 3] = [-1, 0, 2];
        macro_rules! go { ($ax:literal, $A:ty, $B:ty, $da:expr, $db:expr) => { {
            let (ta, tb) = (operand::<f64>(c, &$da, Mode::All(&A), 0), operand::<f64>(c, &$db, Mode::All(&A), 1));
            c.state((&$da[..], &$db[..], format!("{:?}{:?}", ta.data, tb.data)));
            let want = con::contract($ax, &ta, &tb, 0.0, |a, b| a + b, |a, b| a * b);
            let got = buffers::contract::<$ax, $A, $B>(<$A>::of(&ta), <$B>::of(&tb)).unwrap().t();
            c.step(1);
            c.check(got == want, || (format!("signed contract<{}> {:?} {:?}", $ax, $da, $db), format!("{:?} {:?}: {:?} vs {:?}", ta.data, tb.data, got.data, want.data)))
        } } }
        match c.choose(4) {
            0 => go!(1, [[f64; 2]; 2], [[f64; 2]; 2], [2, 2], [2, 2]),
            1 => go!(1, [[f64; 2]; 2], [f64; 2], [2, 2], [2]),
            2 => go!(1, [f64; 2], [[f64; 2]; 2], [2], [2, 2]),
            _ => go!(0, [f64; 2], [f64; 2], [2], [2]),
        }
    });
    let mut l: Vec<Case> = vec![];
    macro_rules! one { ($ax:literal, $A:ty, $B:ty, $sa:expr, $sb:expr) => { l.push(Box::new(|c, n| body::<$ax, $A, $B, f64>(c, $sa, $sb, n))); } }
    mat_vec_nonsquare!(one, f64);
    k.suite("mat-vec", format!("{} non-square matrix-vector pairs", l.len()), move |c| {
        let i = c.choose(l.len());
        l[i](c, 5000)
    });
    let mut l: Vec<Case> = vec![];
    macro_rules! long { ($F:ty; $($ax:literal, $A:ty, $B:ty, $sa:expr, $sb:expr;)*) => { $( l.push(Box::new(|c, n| body::<$ax, $A, $B, $F>(c, $sa, $sb, n))); )* } }
    macro_rules! dots { ($F:ty; $($n:literal)*) => { long!($F; $(1, [$F; $n], [$F; $n], S1, S1;)*); } }
    dots!(f64; 31 32 33 63 64 65 127 128 129 255 256 257 300 511 512 513 1025);
    dots!(f32; 64 129 256 300);
    dots!(i64; 64 129 256 300);
    long!(f64;
        1, [[f64; 300]; 2], [[f64; 3]; 300], S2, S2; 1, [[f64; 256]; 3], [[f64; 1]; 256], S2, S2; 1, [[f64; 17]; 33], [[f64; 33]; 17], S2, S2; 1, [[f64; 2]; 65], [[f64; 130]; 2], S2, S2; 1, [[f64; 20]; 20], [[f64; 20]; 20], S2, S2;
        1, [f64; 300], [[f64; 2]; 300], S1, S2; 1, [f64; 2], [[f64; 300]; 2], S1, S2; 1, [f64; 65], [[f64; 65]; 65], S1, S2; 1, [[f64; 33]; 33], [f64; 33], S2, S1; 1, [[f64; 65]; 65], [f64; 65], S2, S1; 1, [[f64; 130]; 130], [f64; 130], S2, S1;
        0, [f64; 300], [f64; 3], S1, S1; 0, [f64; 3], [f64; 300], S1, S1; 0, [f64; 65], [f64; 33], S1, S1; 0, f64, [f64; 300], S0, S1; 0, [f64; 300], f64, S1, S0; 0, f64, [[f64; 33]; 17], S0, S2; 0, [[f64; 17]; 33], f64, S2, S0;);
    k.suite("long", format!("{} operand pairs with axes of 31 to 1025: basis vectors at the ends and around boundaries, constant, diagonal and labelled contents", l.len()), move |c| {
        let i = c.choose(l.len());
        l[i](c, 0)
    });
    k.run()
}
