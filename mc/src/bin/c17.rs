//! C17: dual-number arithmetic is forward-mode differentiation.
//!
//! Every program of a two-register machine over duals, up to the depth bound, runs on the real
//! `Dual` operators and on the reference ring Z[e]/(e^2) carried in i128.
use aegir::buffers::{shapes::*, Buffer, Class, Scalar};
use aegir::{dual, Dual};
use mc_core::{engine::*, tens::*};
use std::fmt::Debug;
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
struct M(i128, i128);
impl M {
    fn op(self, k: usize, o: M) -> M {
        match k {
            0 => M(self.0 + o.0, self.1 + o.1),
            1 => M(self.0 - o.0, self.1 - o.1),
            _ => M(self.0 * o.0, self.1 * o.0 + self.0 * o.1),
        }
    }
}

/// Fields with every operator the dual impls ask for.
trait Fld: Scalar + Neg<Output = Self> + El<F = Self> + Kind<Field = Self> + Debug + PartialEq + 'static + Send + Sync {
    const LIM: i128;
    fn i(x: i128) -> Self;
}
macro_rules! flds { ($($t:ty, $l:expr;)*) => { $(impl Fld for $t { const LIM: i128 = $l; fn i(x: i128) -> $t { x as $t } })* } }
flds!(f64, 1 << 52; f32, 1 << 23; i8, 127; i16, 32767; i32, 0x7fff_ffff; i64, 1 << 62; isize, 1 << 62;);

const VALS: [(i128, i128); 5] = [(2, 1), (-3, 2), (0, 1), (5, 0), (1, -4)];

fn machine<F>(c: &mut Ctl, depth: usize, nvals: usize)
where
    F: Fld,
    for<'a> F: Add<&'a F, Output = F> + Sub<&'a F, Output = F> + Mul<&'a F, Output = F>,
    F: Add<F, Output = F> + Sub<F, Output = F> + Mul<F, Output = F>,
{
    let ty = std::any::type_name::<F>();
    let out = |w: M, a: M, b: M| [w.0, w.1, a.1 * b.0, a.0 * b.1].iter().any(|x| x.abs() > F::LIM);
    let mk = |m: M| Dual { value: F::i(m.0), adjoint: F::i(m.1) };
    let vals = &VALS[..nvals];
    // registers: one of the inputs each
    let i0 = c.choose(vals.len());
    let m0 = M(vals[i0].0, vals[i0].1);
    let mut regs = [mk(m0), mk(M(3, -2))];
    let mut model = [m0, M(3, -2)];
    let mut text = format!("r0 = {:?}; r1 = {:?}", m0, model[1]);
    let mut what = String::new();
    for _ in 0..depth {
        // 0..: r0 := r0 op operand; then the same operand first; then unary
        let ins = c.choose(3 * 5 + 3 + 3);
        let r0 = regs[0];
        let m0 = model[0];
        let (got, want, w, t): (Dual<F>, M, &str, String);
        if ins < 15 {
            let (k, form) = (ins % 3, ins / 3);
            let o = ["+", "-", "*"][k];
            match form {
                0 | 1 => {
                    // a plain value
                    let v = vals[c.choose(vals.len())].0;
                    let p = F::i(v);
                    want = m0.op(k, M(v, 0));
                    if out(want, m0, M(v, 0)) { return c.skipped(); }
                    if form == 0 {
                        got = match k { 0 => r0 + p, 1 => r0 - p, _ => r0 * p };
                        w = ["dual + value", "dual - value", "dual * value"][k];
                    } else {
                        got = match k { 0 => r0 + &p, 1 => r0 - &p, _ => r0 * &p };
                        w = ["dual + &value", "dual - &value", "dual * &value"][k];
                    }
                    t = format!("r0 = r0 {} {}{}", o, if form == 1 { "&" } else { "" }, v);
                },
                2 | 3 => {
                    let (r1, m1) = (regs[1], model[1]);
                    want = m0.op(k, m1);
                    if out(want, m0, m1) { return c.skipped(); }
                    if form == 2 {
                        got = match k { 0 => r0 + r1, 1 => r0 - r1, _ => r0 * r1 };
                        w = ["dual + dual", "dual - dual", "dual * dual"][k];
                    } else {
                        got = match k { 0 => r0 + &r1, 1 => r0 - &r1, _ => r0 * &r1 };
                        w = ["dual + &dual", "dual - &dual", "dual * &dual"][k];
                    }
                    t = format!("r0 = r0 {} {}r1", o, if form == 3 { "&" } else { "" });
                },
                _ => {
                    // itself (or a constant / variable as first operand)
                    want = m0.op(k, m0);
                    if out(want, m0, m0) { return c.skipped(); }
                    got = match k { 0 => r0 + r0, 1 => r0 - &r0, _ => r0 * &r0 };
                    w = ["dual + itself", "dual - itself", "dual * itself"][k];
                    t = format!("r0 = r0 {} r0", o);
                },
            }
        } else if ins < 18 {
            let k = ins - 15;
            let v = vals[c.choose(vals.len())].0;
            let (d, m): (Dual<F>, M) = if k == 1 { (Dual::variable(F::i(v)), M(v, 1)) } else { (Dual::constant(F::i(v)), M(v, 0)) };
            want = m.op(k, m0);
            if out(want, m, m0) { return c.skipped(); }
            got = match k { 0 => d + r0, 1 => d - r0, _ => d * r0 };
            w = ["constant + dual", "variable - dual", "constant * dual"][k];
            t = format!("r0 = {} {} r0", if k == 1 { format!("variable({})", v) } else { format!("constant({})", v) }, ["+", "-", "*"][k]);
        } else {
            match ins - 18 {
                0 => {
                    want = M(-m0.0, -m0.1);
                    got = -r0;
                    w = "-dual";
                },
                1 => {
                    want = M(m0.0, -m0.1);
                    got = r0.conj();
                    w = "conj";
                },
                _ => {
                    want = model[1];
                    got = regs[1];
                    regs[1] = r0;
                    model[1] = m0;
                    w = "swap";
                },
            }
            t = format!("r0 = {}", w);
        }
        c.step(1);
        text = format!("{}; {}", text, t);
        what = w.to_string();
        regs[0] = got;
        model[0] = want;
        c.state((ty, model));
        c.check(got == mk(want), || (format!("{} over {}", what, ty), format!("{}: got ({:?}, {:?}), expected {:?}", text, got.value, got.adjoint, want)));
        if got != mk(want) {
            return;
        }
    }
    c.desc(|| text.clone());
    let _ = what;
}

// exact arithmetic may overflow in the small integers while the reference is in range only in
// intermediate sums; the machine checks the products as well, see above.

fn buffers_of<B>(c: &mut Ctl, shape: B::Shape)
where
    B: Kind + PartialEq + Debug,
    B::Field: Fld,
    B::Shape: ShV,
    <B as Buffer>::Class: Class<B::Shape>,
{
    let dims = shape.dims();
    let name = B::name();
    let b = B::of(&T::build(&dims, |ix| B::Field::i(3 + lin(&dims, ix) as i128)));
    let n = c.choose(4);
    c.state((&name, std::any::type_name::<B::Field>(), n));
    c.step(1);
    match n {
        0 => {
            let d = Dual::variable(b.clone());
            c.check(d.value.t() == b.t() && d.adjoint.t() == T::build(&dims, |_| B::Field::i(1)), || (format!("variable of {}", name), format!("{:?}", d)));
        },
        1 => {
            let (d, e) = (Dual::constant(b.clone()), dual!(b.clone()));
            c.check(d == e && d.value.t() == b.t() && d.adjoint.t() == T::build(&dims, |_| B::Field::i(0)), || (format!("constant of {}", name), format!("{:?}", d)));
        },
        2 => {
            // adjoint of another content, and another type than the value
            let a = B::of(&T::build(&dims, |ix| B::Field::i(7 - 2 * lin(&dims, ix) as i128)));
            let d: Dual<f64, B> = Dual::from((4.0, a.clone()));
            let e = dual!(4.0, a.clone());
            c.check(d == e, || (format!("From/dual! with adjoint {}", name), format!("{:?}", d)));
            let d = d.conj();
            c.check(d.value == 4.0 && d.adjoint.t() == a.t().map(|x| -x), || (format!("conj with adjoint {}", name), format!("{:?}", d)));
        },
        _ => {
            let a = B::of(&T::build(&dims, |ix| B::Field::i(7 - 2 * lin(&dims, ix) as i128)));
            let d = Dual { value: b.clone(), adjoint: a.clone() };
            let e = d.clone().conj();
            c.check(e.value == b && e.adjoint.t() == a.t().map(|x| -x), || (format!("conj of {}", name), format!("{:?}", e)));
            let f = e.conj();
            c.check(f == d, || (format!("conj twice of {}", name), format!("{:?}", f)));
        },
    }
}

// one operation over the range of the floating point numbers
fn floats(c: &mut Ctl) {
    const G: [f64; 14] = [0.0, -0.0, 1.0, -1.0, 0.1, -3.5, 1e-300, 5e-324, -2e-160, 1e10, 16777217.0, -1e160, 1e200, 1.7e308];
    let (a, da) = (*c.pick(&G), *c.pick(&G));
    let (b, db) = (*c.pick(&G), *c.pick(&G));
    c.state((a.to_bits(), da.to_bits(), b.to_bits(), db.to_bits()));
    let (x, y) = (Dual { value: a, adjoint: da }, Dual { value: b, adjoint: db });
    let near = |g: f64, w: f64, mag: f64| !mag.is_finite() || (g - w).abs() <= 8.0 * f64::EPSILON * mag + 1e-322;
    let mut go = |n: &str, r: Dual<f64>, v: (f64, f64), d: (f64, f64)| {
        c.step(1);
        c.check(near(r.value, v.0, v.1) && near(r.adjoint, d.0, d.1), || (format!("{} over the floating point range", n), format!("{:?} {:?}: got {:?}, expected {:?} {:?}", x, y, r, v.0, d.0)));
    };
    let s = |x: f64, y: f64| (x + y, x.abs() + y.abs());
    go("dual + dual", x + y, s(a, b), s(da, db));
    go("dual - dual", x - y, s(a, -b), s(da, -db));
    go("dual * dual", x * y, s(a * b, 0.0), s(da * b, a * db));
    go("dual + &dual", x + &y, s(a, b), s(da, db));
    go("dual - &dual", x - &y, s(a, -b), s(da, -db));
    go("dual * &dual", x * &y, s(a * b, 0.0), s(da * b, a * db));
    go("dual + value", x + b, s(a, b), s(da, 0.0));
    go("dual - value", x - b, s(a, -b), s(da, 0.0));
    go("dual * value", x * b, s(a * b, 0.0), s(da * b, 0.0));
    go("dual + &value", x + &b, s(a, b), s(da, 0.0));
    go("dual - &value", x - &b, s(a, -b), s(da, 0.0));
    go("dual * &value", x * &b, s(a * b, 0.0), s(da * b, 0.0));
    go("-dual", -x, s(-a, 0.0), s(-da, 0.0));
    go("conj", x.conj(), s(a, 0.0), s(-da, 0.0));
}

// a value type and an adjoint type that differ
fn mixed(c: &mut Ctl) {
    let al = [-3i128, 0, 1, 2, 5];
    let (v, a, w) = (*c.pick(&al), *c.pick(&al), *c.pick(&al));
    let d: Dual<f64, f32> = Dual { value: v as f64, adjoint: a as f32 };
    c.state((v, a, w));
    c.step(5);
    let e = d + w as f64;
    c.check(e.value == (v + w) as f64 && e.adjoint == a as f32, || ("Dual<f64, f32> + f64".into(), format!("{:?}", e)));
    let e = d - &(w as f64);
    c.check(e.value == (v - w) as f64 && e.adjoint == a as f32, || ("Dual<f64, f32> - &f64".into(), format!("{:?}", e)));
    let e = d + Dual { value: w as f64, adjoint: v as f32 };
    c.check(e.value == (v + w) as f64 && e.adjoint == (a + v) as f32, || ("Dual<f64, f32> + Dual".into(), format!("{:?}", e)));
    let e = d - Dual { value: w as f64, adjoint: v as f32 };
    c.check(e.value == (v - w) as f64 && e.adjoint == (a - v) as f32, || ("Dual<f64, f32> - Dual".into(), format!("{:?}", e)));
    let e = -d;
    c.check(e.value == -v as f64 && e.adjoint == -a as f32, || ("-Dual<f64, f32>".into(), format!("{:?}", e)));
}

// univariate polynomials by Horner's rule with plain coefficients: value and derivative
fn horner(c: &mut Ctl, deg: usize) {
    let x = *c.pick(&[-2i128, -1, 0, 1, 2, 3]);
    let seed = *c.pick(&[1i128, -2, 0]);
    let co: Vec<i128> = (0..=deg).map(|_| *c.pick(&[-2i128, 0, 1, 3])).collect();
    let d: Dual<f64> = Dual { value: x as f64, adjoint: seed as f64 };
    let mut by_val = Dual::constant(co[deg] as f64);
    let mut by_ref = by_val;
    let mut powers = Dual::constant(co[0] as f64);
    let mut xp = Dual::constant(1.0);
    for k in 0..deg {
        by_val = by_val * d + co[deg - 1 - k] as f64;
        by_ref = by_ref * &d + &(co[deg - 1 - k] as f64);
        xp = xp * d;
        powers = powers + xp * (co[k + 1] as f64);
    }
    let v: i128 = co.iter().rev().fold(0, |s, a| s * x + a);
    let dv: i128 = (1..=deg).rev().fold(0, |s, k| s * x + co[k] * k as i128) * seed;
    c.state((x, seed, &co));
    c.step(4 * deg as u64);
    for (n, r) in [("by value", by_val), ("by reference", by_ref), ("sum of scaled powers", powers)] {
        c.check(r.value == v as f64 && r.adjoint == dv as f64, || (format!("polynomial {}", n), format!("coefficients {:?} at {} seed {}: got {:?}, expected ({}, {})", co, x, seed, r, v, dv)));
    }
}

type Case = Box<dyn Fn(&mut Ctl) + Send + Sync>;

fn main() {
    let mut k = Check::new("C17");
    let th = k.thorough();
    k.assume("exact arithmetic: executions whose exact values leave the field's range are cut (counted as outside the domain)");
    let (d, n) = if th { (4, 4) } else { (3, 4) };
    k.suite("machine f64", format!("two registers, every program of {} instructions (+, -, * with plain values and duals, by value and by reference, either operand first; negation; conjugation; swap) from {} input values", d, n), move |c| machine::<f64>(c, d, n));
    k.suite("machine i64", format!("as above, {} instructions", d), move |c| machine::<i64>(c, d, n));
    k.suite("machine f32, i8, i16, i32, isize", "as above, 2 instructions (3 thorough)", move |c| {
        let d = if th { 3 } else { 2 };
        match c.choose(5) {
            0 => machine::<f32>(c, d, n),
            1 => machine::<i8>(c, d, n),
            2 => machine::<i16>(c, d, n),
            3 => machine::<i32>(c, d, n),
            _ => machine::<isize>(c, d, n),
        }
    });
    k.suite("floats", "every operation on every pair of duals over 14 floating point values from 5e-324 to 1.7e308", floats);
    k.suite("mixed", "value f64, adjoint f32: all triples of 5 values", mixed);
    let deg = if th { 6 } else { 4 };
    k.suite("polynomials", format!("all polynomials of degree {} over 4 coefficients, 6 points, 3 seeds", deg), move |c| horner(c, deg));
    let mut l: Vec<Case> = vec![];
    macro_rules! arr { ($($f:ty),*) => { $(
        l.push(Box::new(|c| buffers_of::<$f>(c, S0)));
        l.push(Box::new(|c| buffers_of::<($f, $f)>(c, S1)));
        for n in [0usize, 1, 2, 3, 8, 17, 33] { l.push(Box::new(move |c| buffers_of::<Vec<$f>>(c, SDynamic([n])))); }
        l.push(Box::new(|c| buffers_of::<[$f; 0]>(c, S1)));
        l.push(Box::new(|c| buffers_of::<[$f; 1]>(c, S1)));
        l.push(Box::new(|c| buffers_of::<[$f; 3]>(c, S1)));
        l.push(Box::new(|c| buffers_of::<[$f; 17]>(c, S1)));
        l.push(Box::new(|c| buffers_of::<[[$f; 2]; 3]>(c, S2)));
        l.push(Box::new(|c| buffers_of::<[[$f; 3]; 3]>(c, S2)));
        l.push(Box::new(|c| buffers_of::<[[[$f; 2]; 1]; 3]>(c, S3)));
        l.push(Box::new(|c| buffers_of::<[[[[$f; 2]; 2]; 1]; 3]>(c, S4)));
    )* } }
    arr!(f64, i64, f32);
    k.suite("buffers", format!("variable, constant, From, dual!, conj over {} buffer kinds", l.len()), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    k.run()
}
