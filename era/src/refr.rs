//! Reference semantics: every operator's mathematical definition, differentiated by forward-mode
//! nested dual numbers over floats that carry a running error bound.
use crate::{ast::Tr, ops::Meaning};

const EPS: f64 = 2.3e-16;
const BIG: f64 = 1e25;

/// How an exponent depends on the variables.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Dep {
    Leaf,
    Closed,
    Open,
}

/// A real number: value, bound on the absolute rounding error of a sane evaluation, and whether
/// the point is inside the smooth domain (and away from the floating point range limits).
#[derive(Copy, Clone, Debug)]
pub struct Mg {
    pub v: f64,
    pub e: f64,
    pub ok: bool,
}
impl Mg {
    pub fn new(v: f64, e: f64, ok: bool) -> Mg {
        let range = v == 0.0 || (v.abs() < BIG && v.abs() > 1.0 / BIG);
        Mg { v, e, ok: ok && range && e.is_finite() && (v == 0.0 || e < 1e-4 * v.abs().max(1e-6)) }
    }
    /// `got` is the value up to rounding.
    pub fn agrees(&self, got: f64) -> bool { (got - self.v).abs() <= self.tol() }
    /// The tolerance is small enough to mean something.
    pub fn sharp(&self) -> bool { self.ok && self.e * 1e6 < 1e-5 * self.v.abs().max(1.0) }
    pub fn tol(&self) -> f64 { self.e * 1e6 + 1e-15 * if self.v == 0.0 { 1.0 } else { self.v.abs().min(1.0) } }
}

pub trait Rf: Copy {
    const DEPTH: usize;
    fn k(c: f64) -> Self;
    fn re(&self) -> Mg;
    fn bad(self) -> Self;
    fn add(self, o: Self) -> Self;
    fn sub(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
    fn div(self, o: Self) -> Self;
    fn un(self, m: Meaning) -> Self;
    /// psi^(n)
    fn poly(self, n: u32) -> Self;
    fn pow(self, o: Self, d: Dep) -> Self;
    fn powk(self, k: f64) -> Self { self.pow(Self::k(k), Dep::Leaf) }
    fn scale(self, k: f64) -> Self { self.mul(Self::k(k)) }
    fn neg(self) -> Self { self.scale(-1.0) }
}

impl Rf for Mg {
    const DEPTH: usize = 0;
    fn k(c: f64) -> Mg { Mg { v: c, e: 0.0, ok: true } }
    fn re(&self) -> Mg { *self }
    fn bad(self) -> Mg { Mg { ok: false, ..self } }
    fn add(self, o: Mg) -> Mg { Mg::new(self.v + o.v, self.e + o.e + EPS * rnd(self.v + o.v, self, o), self.ok && o.ok) }
    fn sub(self, o: Mg) -> Mg { Mg::new(self.v - o.v, self.e + o.e + EPS * rnd(self.v - o.v, self, o), self.ok && o.ok) }
    fn mul(self, o: Mg) -> Mg {
        let v = self.v * o.v;
        Mg::new(v, self.v.abs() * o.e + o.v.abs() * self.e + EPS * v.abs(), self.ok && o.ok)
    }
    fn div(self, o: Mg) -> Mg {
        let v = self.v / o.v;
        Mg::new(v, (self.e + v.abs() * o.e) / o.v.abs() + EPS * v.abs(), self.ok && o.ok && o.v != 0.0)
    }
    fn un(self, m: Meaning) -> Mg {
        use Meaning::*;
        let x = self.v;
        let c = 4.0 * EPS;
        // (value, derivative, own error, domain)
        let sharp = self.e == 0.0 || x.abs() > 1e6 * self.e;
        let (v, d, own, dom): (f64, f64, f64, bool) = match m {
            Id => (x, 1.0, 0.0, true),
            SubOne => return self.sub(Mg::k(1.0)),
            OneSub => return Mg::k(1.0).sub(self),
            AddOne => return self.add(Mg::k(1.0)),
            Double => return self.add(self),
            Negate => (-x, 1.0, 0.0, true),
            Square => return self.mul(self),
            Rabbit => return self.mul(Mg::k(1.0).sub(self)),
            Dirac => (if x == 0.0 { f64::INFINITY } else { 0.0 }, 0.0, 0.0, sharp && x != 0.0),
            Sign => (if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 }, 0.0, 0.0, sharp),
            Abs => (x.abs(), 1.0, 0.0, sharp),
            Ln => (x.ln(), 1.0 / x, c * x.ln().abs(), x > 0.0),
            XLnX => {
                if x <= 0.0 {
                    (0.0, 0.0, 0.0, sharp)
                } else {
                    let v = x * x.ln();
                    (v, 1.0 + x.ln().abs(), c * v.abs(), sharp)
                }
            },
            Exp => (x.exp(), x.exp(), c * x.exp(), true),
            Sigmoid => {
                let v = if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { x.exp() / (1.0 + x.exp()) };
                (v, v * (1.0 - v), c * v, true)
            },
            Gamma => {
                let v = gamma(x);
                (v, v * poly(0, x), special(v) * if x < 0.0 { 8.0 } else { 1.0 }, (x > 0.05 || between(x)) && x < 20.0)
            },
            Factorial => return self.add(Mg::k(1.0)).un(Gamma),
            DiGamma => return self.poly(0),
            LogGamma => {
                let v = lgamma(x);
                (v, poly(0, x), special(v), x > 0.05)
            },
            Erf => (erf(x), 2.0 / std::f64::consts::PI.sqrt() * (-x * x).exp(), 16.0 * special(erf(x)).min(1e-13), true),
            Erfc => return Mg::k(1.0).sub(self.un(Erf)),
            Cos => (x.cos(), x.sin(), c * x.cos().abs(), x.abs() < 1e6),
            Sin => (x.sin(), x.cos(), c * x.sin().abs(), x.abs() < 1e6),
            Tan => {
                let v = x.tan();
                (v, 1.0 + v * v, c * v.abs(), x.abs() < 1e6)
            },
            Cosh => (x.cosh(), x.sinh(), c * x.cosh(), true),
            Sinh => (x.sinh(), x.cosh(), c * x.sinh().abs(), true),
            Tanh => {
                let v = x.tanh();
                (v, 1.0 - v * v, c * v.abs(), true)
            },
            // at the ends of their domain the inverse functions are exact or nothing
            ArcCos => (x.acos(), edge(self, 1.0 - x * x, -0.5), c * x.acos().max(0.1), x.abs() <= 1.0),
            ArcSin => (x.asin(), edge(self, 1.0 - x * x, -0.5), c * x.asin().abs(), x.abs() <= 1.0),
            ArcCosh => (acosh(x), edge(self, x * x - 1.0, -0.5), c * acosh(x) + 1e-15, x >= 1.0),
            ArcSinh => (asinh(x), (1.0 + x * x).powf(-0.5), c * asinh(x).abs() + 1e-16, true),
            ArcTan => (x.atan(), 1.0 / (1.0 + x * x), c * x.atan().abs(), true),
            ArcTanh => (atanh(x), edge(self, 1.0 - x * x, -1.0), c * atanh(x).abs() + 1e-16, x.abs() < 1.0),
            Add | Sub | Mul | Div | Power => unreachable!(),
        };
        let e = if self.e == 0.0 { 0.0 } else { 2.0 * d.abs() * self.e };
        Mg::new(v, e + own, self.ok && dom && v.is_finite())
    }
    fn poly(self, n: u32) -> Mg {
        let v = poly(n, self.v);
        let e = if self.e == 0.0 { 0.0 } else { 2.0 * poly(n + 1, self.v).abs() * self.e };
        Mg::new(v, e + special(v), self.ok && (self.v > 0.05 || between(self.v)) && self.v < 1e6)
    }
    fn pow(self, o: Mg, _: Dep) -> Mg {
        let (x, y) = (self.v, o.v);
        let ok = self.ok && o.ok;
        if y == 0.0 && o.e == 0.0 {
            return Mg { v: 1.0, e: 0.0, ok };
        }
        if x == 0.0 {
            return Mg { v: 0.0, e: 0.0, ok: ok && self.e == 0.0 && y > 1e6 * o.e && y > 0.0 };
        }
        let v = x.powf(y);
        if x < 0.0 && (y.fract() != 0.0 || o.e != 0.0) {
            return Mg { v: f64::NAN, e: 0.0, ok: false };
        }
        let e = 2.0 * (y * v / x).abs() * self.e + 2.0 * (v * x.abs().ln()).abs() * o.e;
        Mg::new(v, e + 4.0 * EPS * v.abs() * (1.0 + (y * x.abs().ln()).abs()), ok)
    }
}
fn rnd(v: f64, a: Mg, b: Mg) -> f64 {
    // exact operands with an exact sum do not round
    if a.e == 0.0 && b.e == 0.0 && v.fract() == 0.0 && v.abs() < 1e15 && a.v.fract() == 0.0 && b.v.fract() == 0.0 { 0.0 } else { a.v.abs() + b.v.abs() }
}
/// Between the poles of the gamma function, and away from them.
fn between(x: f64) -> bool { x < 0.0 && x > -8.0 && (x - x.round()).abs() > 0.05 }
fn special(v: f64) -> f64 { 1e-14 * v.abs().max(1.0) }
fn edge(a: Mg, d: f64, p: f64) -> f64 {
    // the derivative over the whole interval of uncertainty
    if d <= 4e6 * a.e { f64::INFINITY } else { d.powf(p) }
}
fn asinh(x: f64) -> f64 { let a = x.abs(); (a + a * a / (1.0 + (a * a + 1.0).sqrt())).ln_1p().copysign(x) }
fn acosh(x: f64) -> f64 { ((x - 1.0) + ((x - 1.0) * (x + 1.0)).max(0.0).sqrt()).ln_1p() }
fn atanh(x: f64) -> f64 { 0.5 * (2.0 * x / (1.0 - x)).ln_1p() }

/// ln Gamma by Stirling's series after shifting the argument (x > 0).
pub fn lgamma(x: f64) -> f64 {
    if !x.is_finite() {
        return f64::NAN;
    }
    if x <= 0.0 {
        // reflection
        let s = (std::f64::consts::PI * x).sin().abs();
        return (std::f64::consts::PI / s).ln() - lgamma(1.0 - x);
    }
    if x == 1.0 || x == 2.0 {
        return 0.0;
    }
    let (mut z, mut p, mut acc) = (x, 1.0f64, 0.0f64);
    while z < 25.0 {
        p *= z;
        z += 1.0;
        if p > 1e280 {
            acc += p.ln();
            p = 1.0;
        }
    }
    acc += p.ln();
    let w = 1.0 / (z * z);
    let s = (1.0 / 12.0 + w * (-1.0 / 360.0 + w * (1.0 / 1260.0 + w * (-1.0 / 1680.0 + w * (1.0 / 1188.0 + w * (-691.0 / 360360.0)))))) / z;
    (z - 0.5) * z.ln() - z + 0.918938533204672741780329736406 + s - acc
}
pub fn gamma(x: f64) -> f64 {
    if !(x < 172.0 && x > -200.0) {
        return if x > 0.0 { f64::INFINITY } else { f64::NAN };
    }
    if x <= 0.0 {
        if x.fract() == 0.0 {
            return f64::NAN;
        }
        return std::f64::consts::PI / ((std::f64::consts::PI * x).sin() * gamma(1.0 - x));
    }
    if x.fract() == 0.0 && x < 171.0 {
        let mut r = 1.0;
        let mut i = 2.0;
        while i < x {
            r *= i;
            i += 1.0;
        }
        return r;
    }
    if x < 1.0 {
        return gamma(x + 1.0) / x;
    }
    // product down to (1, 2], then exp(lgamma) is accurate
    let (mut z, mut p) = (x, 1.0f64);
    while z > 2.0 {
        z -= 1.0;
        p *= z;
    }
    p * lgamma(z).exp()
}
/// Polygamma functions by recurrence and their asymptotic series; negative arguments of psi itself
/// by reflection.
pub fn poly(n: u32, x: f64) -> f64 {
    if !(x > -200.0 && x.is_finite()) || x <= 0.0 && x.fract() == 0.0 {
        return f64::NAN;
    }
    if n == 0 && x < 0.0 {
        return poly(0, 1.0 - x) - std::f64::consts::PI / (std::f64::consts::PI * x).tan();
    }
    const B: [f64; 9] = [1.0 / 6.0, -1.0 / 30.0, 1.0 / 42.0, -1.0 / 30.0, 5.0 / 66.0, -691.0 / 2730.0, 7.0 / 6.0, -3617.0 / 510.0, 43867.0 / 798.0];
    let mut z = x;
    let mut acc = 0.0;
    let fact = |k: u32| (1..=k).map(|i| i as f64).product::<f64>();
    let sgn = if n % 2 == 1 { 1.0 } else { -1.0 }; // (-1)^(n+1)
    while z < 30.0 {
        acc += sgn * fact(n) / z.powi(n as i32 + 1);
        z += 1.0;
    }
    let mut s = if n == 0 { z.ln() - 0.5 / z } else { sgn * (fact(n - 1) / z.powi(n as i32) + fact(n) / (2.0 * z.powi(n as i32 + 1))) };
    for (j, bk) in B.iter().enumerate() {
        let k = 2 * (j as u32 + 1);
        let t = if n == 0 { -bk / (k as f64 * z.powi(k as i32)) } else { sgn * bk * fact(k + n - 1) / (fact(k) * z.powi((k + n) as i32)) };
        s += t;
    }
    s + acc
}
/// erf by its Taylor series (small arguments) or the continued fraction of erfc.
pub fn erf(x: f64) -> f64 {
    if x < 0.0 {
        return -erf(-x);
    }
    if x < 2.5 {
        let (mut t, mut s, mut n) = (x, x, 0.0);
        while t.abs() > 1e-18 * s && n < 400.0 {
            n += 1.0;
            t *= -x * x / n;
            s += t / (2.0 * n + 1.0);
        }
        s * 2.0 / std::f64::consts::PI.sqrt()
    } else {
        1.0 - erfc_cf(x)
    }
}
pub fn erfc_cf(x: f64) -> f64 {
    if x > 27.5 {
        return 0.0;
    }
    let mut f = 0.0;
    for k in (1..=120).rev() {
        f = k as f64 / 2.0 / (x + f);
    }
    (-x * x).exp() / (std::f64::consts::PI.sqrt() * (x + f))
}

/// One more derivative: value and its derivative along one direction.
#[derive(Copy, Clone, Debug)]
pub struct D<T> {
    pub v: T,
    pub d: T,
}
impl<T: Rf> Rf for D<T> {
    const DEPTH: usize = T::DEPTH + 1;
    fn k(c: f64) -> Self { D { v: T::k(c), d: T::k(0.0) } }
    fn re(&self) -> Mg { self.v.re() }
    fn bad(self) -> Self { D { v: self.v, d: self.d.bad() } }
    fn add(self, o: Self) -> Self { D { v: self.v.add(o.v), d: self.d.add(o.d) } }
    fn sub(self, o: Self) -> Self { D { v: self.v.sub(o.v), d: self.d.sub(o.d) } }
    fn mul(self, o: Self) -> Self { D { v: self.v.mul(o.v), d: self.d.mul(o.v).add(self.v.mul(o.d)) } }
    fn div(self, o: Self) -> Self {
        let q = self.v.div(o.v);
        D { v: q, d: self.d.div(o.v).sub(q.mul(o.d).div(o.v)) }
    }
    fn un(self, m: Meaning) -> Self {
        use Meaning::*;
        let x = self.v;
        let v = x.un(m);
        let p = self.re();
        let one = T::k(1.0);
        let kink = p.e * 1e6 >= p.v.abs(); // at (or indistinguishable from) zero
        let d = match m {
            Id | SubOne | AddOne => one,
            OneSub | Negate => T::k(-1.0),
            Double => T::k(2.0),
            Square => x.scale(2.0),
            Rabbit => one.sub(x.scale(2.0)),
            Sign => { let z = T::k(0.0); if kink { z.bad() } else { z } },
            Abs => { let s = T::k(p.v.signum()); if kink { s.bad() } else { s } },
            Ln => one.div(x),
            XLnX => { let r = x.un(Ln).add(one); if p.v <= 0.0 || kink { r.bad() } else { r } },
            Exp => v,
            Sigmoid => v.mul(one.sub(v)),
            Gamma => v.mul(x.poly(0)),
            Factorial => v.mul(x.add(one).poly(0)),
            LogGamma => x.poly(0),
            DiGamma => x.poly(1),
            Erf => x.mul(x).neg().un(Exp).scale(2.0 / std::f64::consts::PI.sqrt()),
            Erfc => x.mul(x).neg().un(Exp).scale(-2.0 / std::f64::consts::PI.sqrt()),
            Cos => x.un(Sin).neg(),
            Sin => x.un(Cos),
            Tan => one.add(v.mul(v)),
            Cosh => x.un(Sinh),
            Sinh => x.un(Cosh),
            Tanh => one.sub(v.mul(v)),
            ArcCos => one.sub(x.mul(x)).powk(-0.5).neg(),
            ArcSin => one.sub(x.mul(x)).powk(-0.5),
            ArcCosh => x.mul(x).sub(one).powk(-0.5),
            ArcSinh => x.mul(x).add(one).powk(-0.5),
            ArcTan => one.div(x.mul(x).add(one)),
            ArcTanh => one.div(one.sub(x.mul(x))),
            Dirac => T::k(0.0).bad(),
            Add | Sub | Mul | Div | Power => unreachable!(),
        };
        D { v, d: d.mul(self.d) }
    }
    fn poly(self, n: u32) -> Self { D { v: self.v.poly(n), d: self.v.poly(n + 1).mul(self.d) } }
    fn pow(self, o: Self, dep: Dep) -> Self {
        let v = self.v.pow(o.v, dep);
        let p = self.re();
        let mut d = o.v.mul(self.v.pow(o.v.sub(T::k(1.0)), dep)).mul(self.d);
        if dep == Dep::Open {
            d = d.add(v.mul(self.v.un(Meaning::Ln)).mul(o.d));
        }
        // for bases that are not positive, powers are smooth for constant exponents; expressions
        // of constants in place of an exponent are outside the domain from order two on
        if Self::DEPTH >= 2 && p.v <= 0.0 && dep != Dep::Leaf {
            d = d.bad();
        }
        D { v, d }
    }
}

/// Evaluate the tree over any of these rings.
pub fn eval<T: Rf>(t: &Tr, vars: &[T]) -> T {
    match t {
        Tr::Var(v) => vars[*v as usize],
        Tr::Const(c) => T::k(*c),
        Tr::Adj(b) => T::k(*b as u8 as f64),
        Tr::Cached(_, k) => eval(k, vars),
        Tr::Un(o, k) => eval(k, vars).un(o.mean),
        Tr::Bi(o, k) => {
            bin(o.mean, eval(&k.0, vars), eval(&k.1, vars), k)
        },
    }
}
fn bin<T: Rf>(m: Meaning, l: T, r: T, k: &(Tr, Tr)) -> T {
    match m {
        Meaning::Add => l.add(r),
        Meaning::Sub => l.sub(r),
        Meaning::Mul => l.mul(r),
        Meaning::Div => l.div(r),
        _ => l.pow(r, if k.1.vars() != 0 { Dep::Open } else if k.1.is_leaf() { Dep::Leaf } else { Dep::Closed }),
    }
}
/// All intermediate magnitudes and domains are fine (propagated by `ok`).
pub fn value(t: &Tr, p: &[f64]) -> Mg { eval(t, &p.iter().map(|v| Mg::k(*v)).collect::<Vec<_>>()) }
/// A ring in which every direction is perturbed.
pub trait Probe: Rf {
    fn leaf(c: f64) -> Self;
    fn fine(&self) -> bool;
}
impl Probe for Mg {
    fn leaf(c: f64) -> Mg { Mg::k(c) }
    fn fine(&self) -> bool { self.ok }
}
impl<T: Probe> Probe for D<T> {
    fn leaf(c: f64) -> Self { D { v: T::leaf(c), d: T::k(1.0) } }
    fn fine(&self) -> bool { self.v.fine() && self.d.fine() }
}
/// Every leaf, constants included, is at a point where the expression is smooth in it.
pub fn smooth_n<T: Probe>(t: &Tr, p: &[f64]) -> bool {
    fn go<T: Probe>(t: &Tr, p: &[f64]) -> T {
        match t {
            Tr::Var(v) => T::leaf(p[*v as usize]),
            Tr::Const(c) => T::leaf(*c),
            Tr::Adj(b) => T::k(*b as u8 as f64),
            Tr::Cached(_, k) => go(k, p),
            Tr::Un(o, k) => go::<T>(k, p).un(o.mean),
            Tr::Bi(o, k) => bin(o.mean, go::<T>(&k.0, p), go::<T>(&k.1, p), k),
        }
    }
    go::<T>(t, p).fine()
}
pub fn smooth(t: &Tr, p: &[f64]) -> bool { smooth_n::<D<Mg>>(t, p) }
pub fn smooth2(t: &Tr, p: &[f64]) -> bool { smooth_n::<D<D<Mg>>>(t, p) }
pub fn smooth3(t: &Tr, p: &[f64]) -> bool { smooth_n::<D<D<D<Mg>>>>(t, p) }
pub fn d1(t: &Tr, p: &[f64], a: u8) -> D<Mg> { eval(t, &p.iter().enumerate().map(|(i, v)| D { v: Mg::k(*v), d: Mg::k((i == a as usize) as u8 as f64) }).collect::<Vec<_>>()) }
pub fn d2(t: &Tr, p: &[f64], a: u8, b: u8) -> D<D<Mg>> {
    let one = |i: usize, t: u8| (i == t as usize) as u8 as f64;
    eval(t, &p.iter().enumerate().map(|(i, v)| D { v: D { v: Mg::k(*v), d: Mg::k(one(i, a)) }, d: D { v: Mg::k(one(i, b)), d: Mg::k(0.0) } }).collect::<Vec<_>>())
}
pub fn d3(t: &Tr, p: &[f64], a: u8, b: u8, c: u8) -> D<D<D<Mg>>> {
    let one = |i: usize, t: u8| (i == t as usize) as u8 as f64;
    let z = D { v: Mg::k(0.0), d: Mg::k(0.0) };
    eval(
        t,
        &p.iter()
            .enumerate()
            .map(|(i, v)| D { v: D { v: D { v: Mg::k(*v), d: Mg::k(one(i, a)) }, d: D { v: Mg::k(one(i, b)), d: Mg::k(0.0) } }, d: D { v: D { v: Mg::k(one(i, c)), d: Mg::k(0.0) }, d: z } })
            .collect::<Vec<_>>(),
    )
}
