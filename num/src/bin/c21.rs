//! C21: unary operators are accurate over the whole floating-point domain.
use aegir::{buffers::{shapes::{S0, S1, S2}, Buffer, Scalar, Spec}, ids::X, meta::Variable, ops::{special::*, trig::*, *}, Context, Function, Read};
use aegir_num::*;
use mc_core::engine::*;
use num_traits::Float;

struct In<B: Buffer>(Spec<B>);
impl<B: Buffer> AsMut<In<B>> for In<B> {
    fn as_mut(&mut self) -> &mut Self { self }
}
impl<B: Buffer> Context for In<B> {}
impl<B: Buffer + Clone> Read<X> for In<B>
where
    Spec<B>: Clone,
{
    type Buffer = B;
    fn read(&self, _: X) -> Option<B> { Some(self.0.clone().unwrap()) }
    fn read_spec(&self, _: X) -> Option<Spec<B>> { Some(self.0.clone()) }
}

/// One operator over one field, by every kind of operand.
#[derive(Clone, Copy)]
struct Row<F: 'static> {
    scalar: fn(F) -> F,
    /// the same value in another position, representation or buffer: name and result
    routes: fn(F, F) -> [(&'static str, F); 9],
}
macro_rules! rows {
    ($f:ty; $($e:expr),*) => {{
        const ROWS: &[Row<$f>] = &[$(Row {
            scalar: |x| ($e)(Variable(X)).evaluate(In(Spec::Raw(x))).ok().unwrap(),
            routes: |x, y| {
                let f = ($e)(Variable(X));
                let a = f.evaluate(In(Spec::Raw([y, x, y]))).ok().unwrap();
                let m = f.evaluate(In(Spec::Raw([[y, y], [x, y], [y, y]]))).ok().unwrap();
                let v = f.evaluate(In(Spec::Raw(vec![y, y, y, x]))).ok().unwrap();
                let t = f.evaluate(In(Spec::Raw((y, x)))).ok().unwrap();
                let d = f.evaluate_spec(In(Spec::<[[$f; 2]; 2]>::Diagonal(S2, x))).ok().unwrap().unwrap();
                [
                    ("an array", a[1]),
                    ("a matrix", m[1][0]),
                    ("a Vec", v[3]),
                    ("a pair", t.1),
                    ("a lifted scalar", f.evaluate_spec(In(Spec::Raw(x))).ok().unwrap().unwrap()),
                    ("a homogeneous scalar", f.evaluate_spec(In(Spec::<$f>::Full(S0, x))).ok().unwrap().unwrap()),
                    ("a homogeneous array", f.evaluate_spec(In(Spec::<[$f; 3]>::Full(S1, x))).ok().unwrap().unwrap()[2]),
                    ("a homogeneous array, evaluated", f.evaluate(In(Spec::<[$f; 3]>::Full(S1, x))).ok().unwrap()[0]),
                    ("a diagonal matrix", d[1][1]),
                ]
            },
        }),*];
        ROWS
    }};
}
macro_rules! table {
    ($f:ty) => {
        rows!($f; SubOne, OneSub, AddOne, Square, Double, Negate, Dirac, Sign, Abs, Ln, XLnX, Exp, Rabbit, Sigmoid, Cos, Cosh,
            ArcCos, ArcCosh, Sin, Sinh, ArcSin, ArcSinh, Tan, Tanh, ArcTan, ArcTanh, Gamma, DiGamma, LogGamma, Erf, Erfc::erfc)
    };
}

trait Fl: Float + Scalar + std::fmt::LowerExp + 'static {
    const BITS: u32;
    const TINY: f64;
    const TLOSS: f64;
    const NAME: &'static str;
    fn rows() -> &'static [Row<Self>];
    fn of(b: u64) -> Self;
    fn bits(self) -> u64;
    fn f(self) -> f64;
    fn from(x: f64) -> Self;
}
impl Fl for f32 {
    const BITS: u32 = 32;
    const TINY: f64 = 3e-45;
    const TLOSS: f64 = 8192.0;
    const NAME: &'static str = "f32";
    fn rows() -> &'static [Row<f32>] { table!(f32) }
    fn of(b: u64) -> f32 { f32::from_bits(b as u32) }
    fn bits(self) -> u64 { self.to_bits() as u64 }
    fn f(self) -> f64 { self as f64 }
    fn from(x: f64) -> f32 { x as f32 }
}
impl Fl for f64 {
    const BITS: u32 = 64;
    const TINY: f64 = 1e-323;
    const TLOSS: f64 = 1073741824.0;
    const NAME: &'static str = "f64";
    fn rows() -> &'static [Row<f64>] { table!(f64) }
    fn of(b: u64) -> f64 { f64::from_bits(b) }
    fn bits(self) -> u64 { self.to_bits() }
    fn f(self) -> f64 { self }
    fn from(x: f64) -> f64 { x }
}
/// Rounding units allowed, against the scale of the operator.
const K: f64 = 32.0;

/// Defects of the library behind the special functions, told apart from any other wrong result.
fn known<F: Fl>(op: usize, x: f64, v: f64, got: f64) -> Option<&'static str> {
    let (max, single) = (F::max_value().f(), F::BITS == 32);
    let top = 88.72284f32 as f64; // e^x is just beyond the largest f32
    match NAMES[op] {
        "Sin" | "Cos" | "Tan" if x.abs() >= F::TLOSS && got == 0.0 => Some("trigonometric functions of large arguments are zero"),
        "Exp" | "Cosh" | "Sinh" if single && x.abs() == top && got.is_nan() => Some("single-precision exponentials are not a number at 88.72284"),
        "Tanh" if single && x.abs() * 2.0 == top && got.is_nan() => Some("single-precision exponentials are not a number at 88.72284"),
        "Cosh" | "Sinh" if single && x.abs() > top && x.abs() < 89.416 && got == max.copysign(v) => Some("single-precision cosh and sinh overflow early"),
        "Gamma" if !single && x.abs() > 709.78 && got.is_nan() => Some("Gamma of large arguments is not a number"),
        "Gamma" if single && x < 0.0 && x > -6e-21 && (got == -max || (got < 0.0 && (got / v - 1.0).abs() <= 1.0)) => Some("Gamma of the smallest negative arguments is inaccurate"),
        "LogGamma" if single && x > 2.035e36 && got == max => Some("LogGamma of the largest or smallest arguments overflows early"),
        "LogGamma" if !single && x > 0.0 && (x < 1e-307 || x > 2.5563e305) && got == f64::INFINITY => Some("LogGamma of the largest or smallest arguments overflows early"),
        _ => None,
    }
}
/// One value: None if it cannot be judged, else the complaint.
fn judge<F: Fl>(op: usize, x: F) -> Option<Result<F, (String, String)>> {
    let xf = x.f();
    if !x.is_finite() || (F::BITS == 32 && NAMES[op] == "Gamma" && xf.abs() > 1024.0) {
        return None;
    }
    let v = want(op, xf)?;
    let y = (F::rows()[op].scalar)(x);
    let got = y.f();
    let s = scale(op, xf, v);
    let max = F::max_value().f();
    let ok = if v.is_nan() || s.is_nan() {
        return None;
    } else if v.abs() >= max * (1.0 - 1e-5) {
        got.abs() >= max * (1.0 - 1e-4) && got.signum() == v.signum()
    } else {
        // (the Gamma function may flush to zero what is below the smallest normal number)
        let least = if NAMES[op] == "Gamma" { F::min_positive_value().f() } else { 4.0 * F::TINY };
        got.is_finite() && (got - v).abs() <= K * F::epsilon().f() * s + least
    };
    if ok {
        return Some(Ok(y));
    }
    Some(Err(match known::<F>(op, xf, v, got) {
        Some(k) => (k.into(), format!("{}<{}>({:e}) = {:e}, mathematically {:e}", NAMES[op], F::NAME, x, y, v)),
        None => (format!("{} is inaccurate", NAMES[op]), format!("{}<{}>({:e}) = {:e}, mathematically {:e}", NAMES[op], F::NAME, x, y, v)),
    }))
}
/// The same value by every kind of operand.
fn agree<F: Fl>(c: &mut Ctl, op: usize, x: F, y: F, got: F) {
    for (what, r) in (F::rows()[op].routes)(x, y) {
        let same = r.bits() == got.bits() || (r.is_nan() && got.is_nan());
        c.check(same, || (format!("{} of {}", NAMES[op], what), format!("{}<{}>({:e}) = {:e}, but {:e} as an entry of {}", NAMES[op], F::NAME, x, got, r, what)));
    }
}
fn one<F: Fl>(c: &mut Ctl, op: usize, x: F, routes: bool, n: &mut u64) {
    match judge(op, x) {
        None => (),
        Some(r) => {
            *n += 1;
            match r {
                Ok(y) => {
                    if routes {
                        // the other entries differ, but stay where the operator is cheap
                        let o = F::of(x.bits() ^ 1);
                        agree(c, op, x, if o.is_finite() { o } else { x }, y);
                    }
                }
                Err((sig, d)) => c.check(false, || (sig, d)),
            }
        }
    }
}
/// bits of a block's number
const BLOCK: u32 = 13;
/// Every value whose bits start with the block's, at `step` between values and both fillers below.
fn sweep<F: Fl>(c: &mut Ctl, op: usize, block: u64, bits: u32, every: u64) {
    let low = F::BITS - bits;
    let per = 1u64 << (bits - BLOCK);
    let mut n = 0;
    for k in 0..per {
        let b = (block * per + k) << low;
        one(c, op, F::of(b), k % every == 0, &mut n);
        if low > 0 {
            one(c, op, F::of(b | ((1u64 << low) - 1)), k % every == every / 2, &mut n);
        }
    }
    c.step(n);
    c.count("values", n);
    if n > 0 {
        c.validated();
        c.state((F::NAME, op, block));
        c.desc(|| format!("{}<{}> from {:e} on: {} values", NAMES[op], F::NAME, F::of((block * per) << low), n));
    }
}
fn neighbours<F: Fl>(c: &mut Ctl, op: usize) {
    let mut at: Vec<f64> = vec![];
    for k in -200..=200 {
        at.extend([k as f64, k as f64 / 8.0, k as f64 * std::f64::consts::FRAC_PI_4, k as f64 * 0.1, k as f64 * std::f64::consts::LN_2]);
    }
    for k in 0..60 {
        at.extend([10f64.powi(k / 2), -(10f64.powi(k / 2)), 2f64.powi(-k), -(2f64.powi(-k))]);
    }
    at.extend([88.72283, 87.33654, 103.27893, 104.0, 709.782712893384, 708.3964185322641, 745.1332191019411, 746.0, 1.4616321449683623, -0.5040830082644554, 0.46163214496836, 36.04365338911715, 17.328679513998633, 16.635532333438686]);
    let mut n = 0;
    for p in at {
        for p in [p, -p] {
            let b = <F as Fl>::from(p).bits();
            for d in 0..65u64 {
                one(c, op, F::of((b + d).wrapping_sub(32) & (!0u64 >> (64 - F::BITS))), d % 8 == 0, &mut n);
            }
        }
    }
    c.step(n);
    c.count("values", n);
    c.state((F::NAME, op));
    c.validated();
    c.desc(|| format!("{}<{}>: {} values", NAMES[op], F::NAME, n));
}
/// The sigmoid on neighbouring values of the grid.
fn sigmoids<F: Fl>(c: &mut Ctl, block: u64, bits: u32) {
    let low = F::BITS - bits;
    let per = 1u64 << (bits - BLOCK + 1);
    let f = F::rows()[13].scalar;
    let (one, eps) = (F::one(), F::epsilon());
    let mut last: Option<(F, F)> = None;
    let mut n = 0;
    for k in 0..=per {
        let x = F::of((block * per + k) << low);
        if (block * per + k) << low >= 1u64 << (F::BITS - 1) || !x.is_finite() {
            break;
        }
        let (p, m) = (f(x), f(-x));
        n += 2;
        c.check(p <= one && p >= F::zero() && m <= one && m >= F::zero(), || ("sigmoid outside [0, 1]".into(), format!("Sigmoid<{}>({:e}) = {:e}, of its negative {:e}", F::NAME, x, p, m)));
        c.check((p + m - one).abs() <= eps + eps, || ("sigmoid is not symmetric".into(), format!("Sigmoid<{}>({:e}) = {:e}, of its negative {:e}", F::NAME, x, p, m)));
        if let Some((q, l)) = last {
            c.check(p >= q && m <= l || (p >= q - eps && m <= l + l * (eps + eps) && near(p, q, m, l)), || ("sigmoid is not monotone".into(), format!("Sigmoid<{}> falls from {:e} to {:e} (or rises from {:e} to {:e}) at {:e}", F::NAME, q, p, l, m, x)));
            c.count("steps where the sigmoid is exactly monotone", (p >= q && m <= l) as u64);
            c.count("steps where it moves back by a rounding unit", !(p >= q && m <= l) as u64);
        }
        last = Some((p, m));
    }
    c.step(n);
    c.count("values", n);
    c.state((F::NAME, block));
    c.desc(|| format!("Sigmoid<{}>: {} values", F::NAME, n));
    fn near<F: Fl>(p: F, q: F, m: F, l: F) -> bool { (p - q).abs() <= F::epsilon() && (m - l).abs() <= l * (F::epsilon() + F::epsilon()) }
}

fn main() {
    if std::env::var("C21_HANG").is_ok() {
        let x = 33554432f32;
        let r = Gamma(Variable(X)).evaluate(In(Spec::Raw(x))).ok().unwrap();
        std::process::exit(if r >= f32::MAX { 0 } else { 1 });
    }
    let mut check = Check::new("C21");
    let deep = check.thorough();
    check.assume("the references are the platform's libm (loaded at run time: the library linked for the special functions shadows sin, log, ... of every program) and, for DiGamma, recurrence, reflection and the asymptotic series; f32 is judged against double precision");
    check.assume("32 rounding units, relative; for Sin, Cos, Tan, ArcTanh and the Gamma family also per unit of the argument; Erfc is 1 - Erf, judged absolutely. Values beyond the largest finite number may be infinite or the largest. Poles, and LogGamma where Gamma is negative, are outside the domain; Gamma of f32 beyond 1024 is not evaluated (its time grows with the argument, and from 2^24 on it does not return: known finding)");
    let (b32, b64, r32, r64) = if deep { (32, 27, 256, 64) } else { (21, 21, 4, 4) };
    check.suite("single", format!("31 operators, all f32 values with every pattern of the leading {} bits and low bits all 0 or all 1, each {} also in 9 other operand kinds", b32, r32), move |c| {
        let op = c.choose(31);
        let block = c.choose(1 << BLOCK) as u64;
        sweep::<f32>(c, op, block, b32, r32);
    });
    check.suite("double", format!("31 operators, all f64 values with every pattern of the leading {} bits and low bits all 0 or all 1, each {} also in 9 other operand kinds", b64, r64), move |c| {
        let op = c.choose(31);
        let block = c.choose(1 << BLOCK) as u64;
        sweep::<f64>(c, op, block, b64, r64);
    });
    check.suite("neighbourhoods", "31 operators, f32 and f64: 32 values to both sides of 4500 points (integers, eighths, tenths, multiples of pi/4 and ln 2, powers of 2 and 10, overflow and underflow thresholds, extrema)", |c| {
        let op = c.choose(31);
        if c.flag() { neighbours::<f32>(c, op) } else { neighbours::<f64>(c, op) }
    });
    check.suite("sigmoid", format!("range, symmetry and order on consecutive values: every f32 with the leading {} bits, every f64 with the leading {} bits", b32, b64), move |c| {
        let block = c.choose(1 << (BLOCK - 1)) as u64;
        if c.flag() { sigmoids::<f32>(c, block, b32) } else { sigmoids::<f64>(c, block, b64) }
    });
    check.suite("returns", "Gamma of f32 at 2^25, in a process of its own", |c| {
        c.step(1);
        c.state(0);
        let mut p = std::process::Command::new(std::env::current_exe().unwrap()).env("C21_HANG", "1").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
        for _ in 0..50 {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if let Some(s) = p.try_wait().unwrap() {
                c.check(s.success(), || ("Gamma of 2^25".into(), format!("Gamma<f32>(33554432) ends with {}", s)));
                return;
            }
        }
        let _ = p.kill();
        let _ = p.wait();
        c.fail("Gamma of single-precision arguments from 2^24 on does not return", "Gamma<f32>(33554432) is still running after 5 s");
    });
    check.run()
}
