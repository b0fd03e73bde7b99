//! References for the unary operators, from a C library other than the one aegir links.
use std::sync::OnceLock;
extern "C" {
    fn dlopen(p: *const i8, f: i32) -> *mut u8;
    fn dlsym(h: *mut u8, n: *const i8) -> *mut u8;
}
type Fun = extern "C" fn(f64) -> f64;
/// The platform's libm by name: the static library behind `special_fun` shadows `sin`, `log`, ...
pub fn libm(n: &str) -> Fun {
    unsafe {
        let h = dlopen(b"libm.so.6\0".as_ptr() as _, 2);
        assert!(!h.is_null(), "libm.so.6 does not load");
        let p = dlsym(h, format!("{}\0", n).as_ptr() as _);
        assert!(!p.is_null(), "no {} in libm.so.6", n);
        std::mem::transmute(p)
    }
}
macro_rules! funs { ($($n:ident),*) => {
    pub struct Lib { $(pub $n: Fun),* }
    pub fn lib() -> &'static Lib {
        static L: OnceLock<Lib> = OnceLock::new();
        L.get_or_init(|| Lib { $($n: libm(stringify!($n))),* })
    }
} }
funs!(sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, exp, log, tgamma, lgamma, erf, erfc, log1p);

pub fn digamma(mut x: f64) -> f64 {
    let l = lib();
    if x <= 0.0 {
        // reflection; the tangent of the fractional part
        let t = (l.tan)(std::f64::consts::PI * (x - x.round()));
        return digamma(1.0 - x) - std::f64::consts::PI / t;
    }
    let mut s = 0.0;
    while x < 12.0 {
        s -= 1.0 / x;
        x += 1.0;
    }
    let y = 1.0 / (x * x);
    let t = y * (1.0 / 12.0 - y * (1.0 / 120.0 - y * (1.0 / 252.0 - y * (1.0 / 240.0 - y * (1.0 / 132.0 - y * 691.0 / 32760.0)))));
    s + (l.log)(x) - 0.5 / x - t
}

pub const NAMES: [&str; 31] = [
    "SubOne", "OneSub", "AddOne", "Square", "Double", "Negate", "Dirac", "Sign", "Abs", "Ln", "XLnX", "Exp", "Rabbit", "Sigmoid", "Cos", "Cosh",
    "ArcCos", "ArcCosh", "Sin", "Sinh", "ArcSin", "ArcSinh", "Tan", "Tanh", "ArcTan", "ArcTanh", "Gamma", "DiGamma", "LogGamma", "Erf", "Erfc",
];
/// The value at `x`; None outside the domain.
pub fn want(op: usize, x: f64) -> Option<f64> {
    let l = lib();
    match NAMES[op] {
        "SubOne" => Some(x - 1.0),
        "OneSub" => Some(1.0 - x),
        "AddOne" => Some(x + 1.0),
        "Square" => Some(x * x),
        "Double" => Some(2.0 * x),
        "Negate" => Some(-x),
        "Dirac" => Some(if x == 0.0 { f64::INFINITY } else { 0.0 }),
        "Sign" => Some(if x == 0.0 { 0.0 } else { 1f64.copysign(x) }),
        "Abs" => Some(if x < 0.0 { -x } else { x }),
        "Ln" => if x > 0.0 { Some((l.log)(x)) } else { None },
        "XLnX" => Some(if x <= 0.0 { 0.0 } else { x * (l.log)(x) }),
        "Exp" => Some((l.exp)(x)),
        "Rabbit" => Some(x * (1.0 - x)),
        "Sigmoid" => { let z = (l.exp)(-x.abs()); Some(if x >= 0.0 { 1.0 / (1.0 + z) } else { z / (1.0 + z) }) }
        "Cos" => Some((l.cos)(x)),
        "Cosh" => Some((l.cosh)(x)),
        "ArcCos" => if x.abs() <= 1.0 { Some((l.acos)(x)) } else { None },
        "ArcCosh" => if x >= 1.0 { Some((l.acosh)(x)) } else { None },
        "Sin" => Some((l.sin)(x)),
        "Sinh" => Some((l.sinh)(x)),
        "ArcSin" => if x.abs() <= 1.0 { Some((l.asin)(x)) } else { None },
        "ArcSinh" => Some((l.asinh)(x)),
        "Tan" => Some((l.tan)(x)),
        "Tanh" => Some((l.tanh)(x)),
        "ArcTan" => Some((l.atan)(x)),
        "ArcTanh" => if x.abs() < 1.0 { Some((l.atanh)(x)) } else { None },
        "Gamma" => if x > 0.0 || x != x.floor() { Some((l.tgamma)(x)) } else { None },
        "DiGamma" => if x > 0.0 || x != x.floor() { Some(digamma(x)) } else { None },
        "LogGamma" => if x > 0.0 || (x != x.floor() && x.floor() % 2.0 == 0.0) { Some((l.lgamma)(x)) } else { None },
        "Erf" => Some((l.erf)(x)),
        _ => Some((l.erfc)(x)),
    }
}
/// The scale of the error a careful evaluation may make, in units of the rounding unit: relative,
/// and for the operators whose zeros and poles are off the grid also what one unit in the argument
/// does to the result.
pub fn scale(op: usize, x: f64, v: f64) -> f64 {
    let l = lib();
    v.abs()
        + (match NAMES[op] {
            "Cos" => x * (l.sin)(x),
            "Sin" => x * (l.cos)(x),
            "Tan" => x * (1.0 + v * v),
            "ArcTanh" => x / ((1.0 - x) * (1.0 + x)),
            "Gamma" if x.abs() < 1e-3 => v,
            "Gamma" => x * v * digamma(x),
            "LogGamma" if x.abs() < 1e-3 => 1.0,
            "LogGamma" => x * digamma(x),
            "DiGamma" if x > 0.0 => 1.0 + 1.0 / x,
            "DiGamma" => { let s = (l.sin)(std::f64::consts::PI * (x - x.round())); 1.0 + x * 9.87 / (s * s) }
            "Erfc" => 1.0,
            _ => 0.0,
        }).abs()
}
