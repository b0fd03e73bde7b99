//! C02: repeated differentiation gives exact higher-order and mixed derivatives.
use aegir::{buffers::Buffer, ids::{X, Y}, ops, ops::*, Differentiable, Function, Identifier, Node};
use mc_core::engine::*;
use mc_era::{ast::*, refr::{self, Mg}, Env, Res, E0, E1, V};

const POINTS: [(f64, f64); 8] = [(0.7, -1.3), (2.0, 0.5), (-1.0, 3.0), (0.0, 1.0), (1.0, -1.0), (0.3, 0.45), (1.75, 1.25), (-0.2, -0.6)];

fn env(p: (f64, f64), form: u8) -> Env { Env::new([Some(p.0), Some(p.1), Some(9.0), None]).with_form([form; 4]) }
fn at(p: (f64, f64)) -> [f64; 3] { [p.0, p.1, 9.0] }

enum Out { Fine, Skip, Bad(String) }
fn judge(want: Option<Mg>, got: &Res<f64>, what: impl FnOnce() -> String) -> Out {
    match want {
        None => Out::Skip,
        Some(w) => match got {
            Ok(g) if w.agrees(*g) => Out::Fine,
            o => Out::Bad(format!("{} is {:?}, expected {} (+- {:e})", what(), o, w.v, w.tol())),
        },
    }
}
/// Reference for the derivative along the given targets; None outside the domain.
fn want(t: &Tr, p: (f64, f64), ts: &[u8]) -> Option<Mg> {
    // a target that does not occur: exactly zero where the expression is that often differentiable
    if ts.iter().any(|a| t.vars() & 1 << a == 0) {
        let all = match ts.len() {
            2 => smooth2(t, p),
            _ => smooth3(t, p),
        };
        return if all { Some(Mg { v: 0.0, e: 0.0, ok: true }) } else { None };
    }
    match ts.len() {
        2 => {
            let r = refr::d2(t, &at(p), ts[0], ts[1]);
            (r.v.v.ok && r.v.d.ok && r.d.v.ok && r.d.d.sharp()).then_some(r.d.d)
        },
        _ => {
            let r = refr::d3(t, &at(p), ts[0], ts[1], ts[2]);
            (r.v.v.v.ok && r.v.v.d.ok && r.v.d.d.ok && r.d.v.d.ok && r.d.d.v.ok && r.d.d.d.sharp()).then_some(r.d.d.d)
        },
    }
}
fn smooth2(t: &Tr, p: (f64, f64)) -> bool { refr::smooth2(t, &at(p)) }
fn smooth3(t: &Tr, p: (f64, f64)) -> bool { refr::smooth3(t, &at(p)) }

fn name(ts: &[u8]) -> String { ts.iter().map(|a| format!("d/d{}", V(*a))).collect::<Vec<_>>().join(" ") }

fn blame2(t: &Tr, p: (f64, f64), ts: &[u8], form: u8) -> Option<String> {
    let kids: Vec<&Tr> = match t {
        Tr::Un(_, k) | Tr::Cached(_, k) => vec![k],
        Tr::Bi(_, k) => vec![&k.0, &k.1],
        _ => vec![],
    };
    for k in kids {
        if let Some(s) = blame2(k, p, ts, form) {
            return Some(s);
        }
    }
    let got = guarded(|| {
        let mut e = env(p, form);
        match ts.len() {
            2 => t.mk2().map(|n| n.0.a2(V(ts[0])).0.a1(V(ts[1])).0.ev(&mut e)),
            _ => t.mk3().map(|n| n.0.a3(V(ts[0])).0.a2(V(ts[1])).0.a1(V(ts[2])).0.ev(&mut e)),
        }
    })
    .ok()??;
    match judge(want(t, p, ts), &got, String::new) {
        Out::Bad(_) => Some(format!("{} of {}", name(ts), t.shape())),
        _ => None,
    }
}
fn note(c: &mut Ctl, o: Out, t: &Tr, p: (f64, f64), ts: &[u8], form: u8) -> bool {
    match o {
        Out::Fine => {
            c.validated();
            true
        },
        Out::Skip => {
            c.skipped();
            false
        },
        Out::Bad(d) => {
            c.validated();
            let sig = blame2(t, p, ts, form).unwrap_or_else(|| format!("{} of {}", name(ts), t.shape()));
            c.fail(sig, d);
            false
        },
    }
}
fn order2(c: &mut Ctl, t: &Tr, points: &[(f64, f64)]) {
    let n = t.mk2().expect("HARNESS: not twice differentiable");
    c.desc(|| format!("{:?}", t));
    c.state(t);
    let first: Vec<E1> = (0..3).map(|a| n.0.a2(V(a))).collect();
    let second: Vec<(u8, u8, E0)> = (0..3u8).flat_map(|a| (0..3u8).map(move |b| (a, b))).filter(|(a, b)| (a | b) < 2 || a + b == 2 && *a != 1).map(|(a, b)| (a, b, first[a as usize].0.a1(V(b)))).collect();
    let mut hit = false;
    for &p in points {
        for form in 0..2u8 {
            for (a, b, n) in &second {
                c.step(1);
                let got = n.0.ev(&mut env(p, form));
                let o = judge(want(t, p, &[*a, *b]), &got, || format!("{} of {:?} at x={} y={}{}", name(&[*a, *b]), t, p.0, p.1, if form == 1 { " (variables lifted)" } else { "" }));
                hit |= note(c, o, t, p, &[*a, *b], form);
            }
        }
    }
    if hit {
        c.count("expressions with a point inside the domain", 1);
    }
}
fn order3(c: &mut Ctl, t: &Tr, points: &[(f64, f64)]) {
    let n = match t.mk3() {
        Some(n) => n,
        None => return c.skipped(),
    };
    c.desc(|| format!("{:?}", t));
    c.state(t);
    let mut hit = false;
    for ts in [[0u8, 0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 1, 1], [1, 0, 1], [1, 1, 0], [1, 1, 1]] {
        let d = n.0.a3(V(ts[0])).0.a2(V(ts[1])).0.a1(V(ts[2]));
        for &p in points {
            c.step(1);
            let got = d.0.ev(&mut env(p, 0));
            let o = judge(want(t, p, &ts), &got, || format!("{} of {:?} at x={} y={}", name(&ts), t, p.0, p.1));
            hit |= note(c, o, t, p, &ts, 0);
        }
    }
    if hit {
        c.count("expressions with a point inside the domain", 1);
    }
}

// ------------------------------------------------------------------ typed, to order four
#[derive(aegir::Context, Clone, Debug)]
struct Ab {
    #[id(X)]
    x: f64,
    #[id(Y)]
    y: f64,
}
type Ev = fn(f64, f64) -> Vec<f64>;
/// xx, xy, yx, yy, xxx, xxyx, yxxy
macro_rules! seven {
    ($e:expr) => {
        (|a: f64, b: f64| {
            let e = $e;
            let mut c = Ab { x: a, y: b };
            vec![
                e.adjoint(X).adjoint(X).evaluate(&mut c).unwrap_or(f64::NAN),
                e.adjoint(X).adjoint(Y).evaluate(&mut c).unwrap_or(f64::NAN),
                e.adjoint(Y).adjoint(X).evaluate(&mut c).unwrap_or(f64::NAN),
                e.adjoint(Y).adjoint(Y).evaluate(&mut c).unwrap_or(f64::NAN),
                e.adjoint(X).adjoint(X).adjoint(X).evaluate(&mut c).unwrap_or(f64::NAN),
                e.adjoint(X).adjoint(X).adjoint(Y).adjoint(X).evaluate(&mut c).unwrap_or(f64::NAN),
                e.adjoint(Y).adjoint(X).adjoint(X).adjoint(Y).evaluate(c).unwrap_or(f64::NAN),
            ]
        }) as Ev
    };
}
macro_rules! five {
    ($e:expr) => {
        (|a: f64, b: f64| {
            let e = $e;
            let mut c = Ab { x: a, y: b };
            vec![
                e.adjoint(X).adjoint(X).evaluate(&mut c).unwrap_or(f64::NAN),
                e.adjoint(X).adjoint(Y).evaluate(&mut c).unwrap_or(f64::NAN),
                e.adjoint(Y).adjoint(X).evaluate(&mut c).unwrap_or(f64::NAN),
                e.adjoint(Y).adjoint(Y).evaluate(&mut c).unwrap_or(f64::NAN),
                e.adjoint(X).adjoint(X).adjoint(X).evaluate(&mut c).unwrap_or(f64::NAN),
            ]
        }) as Ev
    };
}
const MULTI: [(&str, (u32, u32)); 7] = [("xx", (2, 0)), ("xy", (1, 1)), ("yx", (1, 1)), ("yy", (0, 2)), ("xxx", (3, 0)), ("xxyx", (3, 1)), ("yxxy", (2, 2))];
/// Expressions with closed-form derivatives of every order: (name, code, d^(i+j)/dx^i dy^j).
fn typed() -> Vec<(&'static str, Ev, fn(f64, f64, u32, u32) -> f64)> {
    fn vx_() -> aegir::meta::Variable<X> { X.into_var() }
    fn vy_() -> aegir::meta::Variable<Y> { Y.into_var() }
    fn k(c: f64) -> aegir::meta::Constant<f64> { c.into_constant() }
    fn fall(n: f64, i: u32) -> f64 { (0..i).map(|j| n - j as f64).product() }
    vec![
        ("x y", seven!(vx_().mul(vy_())), |x, y, i, j| match (i, j) { (1, 1) => 1.0, (0, 0) => x * y, _ => 0.0 }),
        ("x^2 y^3", five!(vx_().pow(k(2.0)).mul(vy_().pow(k(3.0)))), |x, y, i, j| fall(2.0, i) * x.powi(2 - i as i32) * fall(3.0, j) * y.powi(3 - j as i32)),
        ("exp(2x - y)", five!(Exp(k(2.0).mul(vx_()).sub(vy_()))), |x, y, i, j| 2f64.powi(i as i32) * (-1f64).powi(j as i32) * (2.0 * x - y).exp()),
        ("sin(x + 3y)", seven!(ops::trig::Sin(vx_().add(k(3.0).mul(vy_())))), |x, y, i, j| 3f64.powi(j as i32) * (x + 3.0 * y + (i + j) as f64 * std::f64::consts::FRAC_PI_2).sin()),
        ("cos(x) exp(y)", seven!(ops::trig::Cos(vx_()).mul(Exp(vy_()))), |x, y, i, _| (x + i as f64 * std::f64::consts::FRAC_PI_2).cos() * y.exp()),
        ("ln(2x + y)", five!(Double(vx_()).add(vy_()).ln()), |x, y, i, j| 2f64.powi(i as i32) * -(-1f64).powi((i + j) as i32) * fall((i + j - 1) as f64, i + j - 1) / (2.0 * x + y).powi((i + j) as i32)),
        ("x / y", five!(vx_().div(vy_())), |x, y, i, j| (if i == 0 { x } else if i == 1 { 1.0 } else { 0.0 }) * fall(-1.0, j) * y.powi(-1 - j as i32)),
        ("square(x y)", seven!(vx_().mul(vy_()).squared()), |x, y, i, j| fall(2.0, i) * x.powi(2 - i as i32) * fall(2.0, j) * y.powi(2 - j as i32)),
        ("2.5^(x) y", five!(k(2.5).pow(vx_()).mul(vy_())), |x, y, i, j| 2.5f64.ln().powi(i as i32) * 2.5f64.powf(x) * (if j == 0 { y } else if j == 1 { 1.0 } else { 0.0 })),
        ("neg(1 - x) rabbit(y)", five!(OneSub(vx_()).neg().mul(Rabbit(vy_()))), |x, y, i, j| (if i == 0 { x - 1.0 } else if i == 1 { 1.0 } else { 0.0 }) * (match j { 0 => y * (1.0 - y), 1 => 1.0 - 2.0 * y, 2 => -2.0, _ => 0.0 })),
        ("x^(5/2) + 7 y", five!(vx_().pow(k(2.5)).add(k(7.0).mul(vy_()))), |x, y, i, j| match (i, j) { (_, 0) => fall(2.5, i) * x.powf(2.5 - i as f64) + if i == 0 { 7.0 * y } else { 0.0 }, (0, 1) => 7.0, _ => 0.0 }),
        ("xlnx(x) + y", five!(XLnX(vx_()).add(vy_())), |x, _, i, j| match (i, j) { (1, 0) => x.ln() + 1.0, (i, 0) => (-1f64).powi(i as i32) * fall((i - 2) as f64, i - 2) / x.powi(i as i32 - 1), (0, 1) => 1.0, _ => 0.0 }),
    ]
}

fn main() {
    let mut ck = Check::new("C02");
    let th = ck.thorough();
    ck.assume("Smooth domain and rounding as in C01; for powers of order two and more with a base that is not positive, the exponent is a constant leaf.");
    let leaves = || vec![x(), y(), k(2.0), k(-1.0)];
    let a2 = Alphabet::full(2, leaves());
    ck.suite("order2", format!("{}; 8 points, 7 pairs of targets, dense and lifted variables", a2.bound(2)), move |c| {
        let t = a2.gen(c, 2);
        order2(c, &t, &POINTS);
    });
    let ch = if th { 5 } else { 4 };
    let chains = Alphabet { bi: vec![], ..Alphabet::full(2, vec![x(), b("Mul", x(), y()), b("Power", x(), y()), b("Div", x(), y()), b("Sub", y(), x())]) };
    ck.suite("chains", format!("{}; 8 points", chains.bound(ch)), move |c| {
        let t = chains.gen(c, ch);
        order2(c, &t, &POINTS);
    });
    let sc = Alphabet::full(2, vec![x(), y(), k(1e-12), k(3e8)]);
    ck.suite("scales", format!("{}: derivatives as small as 1e-24 and as large as 1e17; 4 points, 7 pairs of targets", sc.bound(2)), move |c| {
        let t = sc.gen(c, 2);
        order2(c, &t, &[(0.7, -1.3), (2e-9, 0.5), (-3.0, 4e7), (5e8, -1.25e-11)]);
    });
    let a3 = Alphabet::full(3, vec![x(), y(), k(2.0)]);
    let np = 8;
    ck.suite("order3", format!("{}; {} points, 8 triples of targets", a3.bound(2), np), move |c| {
        let t = a3.gen(c, 2);
        order3(c, &t, &POINTS[..np]);
    });
    let d3 = Alphabet::of(vec![x(), y()], &["Sin"], &["Mul", "Power"]);
    ck.suite("order3-deep", format!("{}; 3 points, 8 triples of targets", d3.bound(3)), move |c| {
        let t = d3.gen(c, 3);
        order3(c, &t, &POINTS[..3]);
    });
    if th {
        let d2 = Alphabet::of(vec![x(), y()], &["Ln"], &["Mul", "Div", "Power"]);
        ck.suite("order2-deep", format!("{}; 5 points, 7 pairs of targets", d2.bound(3)), move |c| {
            let t = d2.gen(c, 3);
            order2(c, &t, &POINTS[..5]);
        });
    }
    ck.suite("typed", "statically typed expressions with closed-form derivatives, mixed derivatives up to order 3 or 4, at 4 points", |c| {
        let l = typed();
        let (n, f, r) = c.pick(&l);
        let p = *c.pick(&[(0.7, 1.3), (2.0, 0.5), (1.5, 3.0), (0.25, 2.25)]);
        let got = f(p.0, p.1);
        c.step(7);
        c.state((n, p.0.to_bits()));
        for ((w, (i, j)), g) in MULTI.iter().zip(got) {
            let e = r(p.0, p.1, *i, *j);
            c.check((g - e).abs() <= 1e-8 * e.abs().max(1.0), || (format!("typed: derivative {} of {}", w, n), format!("derivative {} of {} at x={} y={} is {}, expected {}", w, n, p.0, p.1, g, e)));
        }
    });
    ck.run()
}
