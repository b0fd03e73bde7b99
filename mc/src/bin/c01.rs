//! C01: symbolic adjoints are the exact partial derivatives (scalar expressions).
use aegir::{ids::{X, Y, Z}, buffers::Buffer, ops, ops::*, Differentiable, Function, Identifier, Node};
#[path = "../names.rs"]
mod names;
use mc_core::engine::*;
use mc_era::{ast::*, refr, Env, Res, V};

const POINTS: [(f64, f64); 10] = [(0.7, -1.3), (2.0, 0.5), (-1.0, 3.0), (0.0, 1.0), (1.0, -1.0), (-2.5, 0.0), (0.3, 0.45), (1.75, 1.25), (-0.2, -0.6), (3.0, 2.0)];
/// Points of very different magnitudes.
const SCALED: [(f64, f64); 6] = [(0.7, -1.3), (2e-9, 0.5), (3.0, 4e7), (-1e-10, -6e5), (5e8, 1.25e-11), (-4e9, 3e-7)];

enum Out { Fine, Skip, Bad(String) }

fn judge(t: &Tr, got: Res<f64>, p: (f64, f64), a: u8, how: &str) -> Out {
    if t.vars() & 1 << a == 0 {
        // a target that does not occur: exactly zero wherever the value exists
        if !refr::smooth(t, &[p.0, p.1, 9.0]) {
            return Out::Skip;
        }
        return match got {
            Ok(g) if g == 0.0 => Out::Fine,
            o => Out::Bad(format!("{}: d/d{} of {:?} at x={} y={} is {:?}, and the target does not occur: exactly 0 expected", how, V(a), t, p.0, p.1, o)),
        };
    }
    if let Tr::Var(_) = t {
        return match got {
            Ok(g) if g == 1.0 => Out::Fine,
            o => Out::Bad(format!("{}: d/d{0} of itself is {:?}, not 1", how, o)),
        };
    }
    let r = refr::d1(t, &[p.0, p.1, 9.0], a);
    if !r.v.ok || !r.d.sharp() {
        return Out::Skip;
    }
    match got {
        Ok(g) if r.d.agrees(g) => Out::Fine,
        o => Out::Bad(format!("{}: d/d{} of {:?} at x={} y={} is {:?}, expected {} (+- {:e})", how, V(a), t, p.0, p.1, o, r.d.v, r.d.tol())),
    }
}
fn env(p: (f64, f64), form: u8) -> Env { Env::new([Some(p.0), Some(p.1), Some(9.0), None]).with_form([form; 4]) }

/// The smallest subtree whose own derivative is wrong.
fn blame(t: &Tr, p: (f64, f64), a: u8) -> Option<String> {
    let kids: Vec<&Tr> = match t {
        Tr::Un(_, k) | Tr::Cached(_, k) => vec![k],
        Tr::Bi(_, k) => vec![&k.0, &k.1],
        _ => vec![],
    };
    for k in kids {
        if let Some(s) = blame(k, p, a) {
            return Some(s);
        }
    }
    let n = t.mk1()?;
    let got = guarded(|| n.0.a1(V(a)).0.ev(&mut env(p, 0))).ok()?;
    match judge(t, got, p, a, "") {
        Out::Bad(_) => Some(format!("d/d{} of {}", V(a), t.shape())),
        _ => None,
    }
}

fn body(c: &mut Ctl, t: &Tr, points: &[(f64, f64)]) {
    let n = t.mk1().expect("HARNESS: not differentiable");
    c.desc(|| format!("{:?}", t));
    let adj = [n.0.a1(V(0)), n.0.a1(V(1)), n.0.a1(V(2))];
    let mut hit = false;
    c.state(t);
    for &p in points {
        for a in 0..3u8 {
            let forms = if a == 2 { 1 } else { 2 };
            for f in 0..forms {
                c.step(1);
                let got = adj[a as usize].0.ev(&mut env(p, f));
                let o = judge(t, got, p, a, if f == 0 { "adjoint(..).evaluate" } else { "adjoint(..).evaluate, variables lifted" });
                match o {
                    Out::Fine => {
                        hit |= a < 2;
                        c.validated()
                    },
                    Out::Skip => c.skipped(),
                    Out::Bad(d) => {
                        c.validated();
                        let sig = blame(t, p, a).unwrap_or_else(|| format!("d/d{} of {} (lifted: {})", V(a), t.shape(), f));
                        c.fail(sig, d);
                    },
                }
            }
        }
    }
    if hit {
        c.count("expressions with a point inside the domain", 1);
    }
}

// ------------------------------------------------------------------ typed expressions
#[derive(aegir::Context, Clone, Debug)]
struct Abc {
    #[id(X)]
    x: f64,
    #[id(Y)]
    y: f64,
    #[id(Z)]
    z: f64,
}
fn three<N, A, B, C>(e: &N, a: f64, b: f64) -> (f64, f64, f64)
where
    N: Differentiable<X, Adjoint = A> + Differentiable<Y, Adjoint = B> + Differentiable<Z, Adjoint = C>,
    A: Function<Abc, Value = f64>,
    B: Function<Abc, Value = f64>,
    C: Function<Abc, Value = f64>,
{
    let mut c = Abc { x: a, y: b, z: 9.0 };
    (
        Differentiable::<X>::adjoint(e, X).evaluate(&mut c).unwrap_or(f64::NAN),
        Differentiable::<Y>::adjoint(e, Y).evaluate(&mut c).unwrap_or(f64::NAN),
        Differentiable::<Z>::adjoint(e, Z).evaluate(c).unwrap_or(f64::NAN),
    )
}
type Ex = (&'static str, fn(f64, f64) -> (f64, f64, f64), fn() -> Tr);
macro_rules! typed {
    ($($e:expr => $t:expr;)*) => {{
        let v: Vec<Ex> = vec![$((stringify!($e), |a: f64, b: f64| {
            let e = $e;
            three(&e, a, b)
        }, || $t)),*];
        v
    }};
}
fn vx() -> aegir::meta::Variable<X> { X.into_var() }
fn vy() -> aegir::meta::Variable<Y> { Y.into_var() }
fn kk() -> aegir::meta::Constant<f64> { 2.5f64.into_constant() }

fn typed_list() -> Vec<Ex> {
    macro_rules! un2 {
        ($($n:literal $f:path;)*) => {{
            let mut v: Vec<Ex> = vec![];
            $( v.extend(typed! {
                $f(vx()) => u($n, x());
                $f(vx().mul(vy())) => u($n, b("Mul", x(), y()));
                $f(vx().add(kk())).mul(vy()) => b("Mul", u($n, b("Add", x(), k(2.5))), y());
                $f(Square(vx())).sub($f(vy())) => b("Sub", u($n, u("Square", x())), u($n, y()));
            }); )*
            v
        }};
    }
    let mut v = un2! {
        "Negate" ops::Negate; "Square" ops::Square; "Exp" ops::Exp; "Ln" ops::Ln; "Sin" ops::trig::Sin; "Cos" ops::trig::Cos;
        "Sigmoid" ops::Sigmoid; "Rabbit" ops::Rabbit; "XLnX" ops::XLnX; "OneSub" ops::OneSub; "SubOne" ops::SubOne; "AddOne" ops::AddOne;
        "Double" ops::Double; "Sum" ops::Sum; "Abs" ops::Abs; "Sign" ops::Sign; "Gamma" ops::special::Gamma; "LogGamma" ops::special::LogGamma;
        "Factorial" ops::special::Factorial::factorial;
    };
    v.extend(typed! {
        vx() => x();
        vy() => y();
        kk() => k(2.5);
        vx().add(vy()) => b("Add", x(), y());
        vx().sub(vy()) => b("Sub", x(), y());
        vy().sub(vx()) => b("Sub", y(), x());
        vx().mul(vy()) => b("Mul", x(), y());
        vx().div(vy()) => b("Div", x(), y());
        vy().div(vx()) => b("Div", y(), x());
        vx().pow(vy()) => b("Power", x(), y());
        vx().pow(kk()) => b("Power", x(), k(2.5));
        kk().pow(vx()) => b("Power", k(2.5), x());
        vx().pow(vx()) => b("Power", x(), x());
        vx().pow(2.0f64.into_constant()) => b("Power", x(), k(2.0));
        vx().dot(vy()) => b("TensorDot", x(), y());
        TensorProduct::new(vx(), vx().sub(kk())) => b("TensorProduct", x(), b("Sub", x(), k(2.5)));
        vx().div(vx().add(kk())).squared() => u("Square", b("Div", x(), b("Add", x(), k(2.5))));
        vx().mul(vx()).mul(vx()).sub(vy().div(vx())) => b("Sub", b("Mul", b("Mul", x(), x()), x()), b("Div", y(), x()));
    });
    v
}

fn main() {
    let mut ck = Check::new("C01");
    let th = ck.thorough();
    ck.assume("The smooth domain is where the reference derivative is defined and well conditioned: ln, x ln x, ln gamma: positive arguments; gamma: arguments above 0.05, or between its poles and 0.05 away from them (down to -8); |x|, sgn: nonzero arguments; powers: positive base, or exponent constant (integral for a negative base, at least 1 for a zero base).");
    ck.assume("Reals are compared within a running error bound (10^6 rounding errors, relative to the operands at hand however small they are); points whose bound exceeds 1e-5 of the value, or with intermediate magnitudes beyond 1e25, count as outside the domain.");
    let leaves = || vec![x(), y(), k(2.0), k(0.5), k(-1.0)];
    let a2 = Alphabet::full(1, leaves());
    ck.suite("trees", format!("{}; 10 points, 3 targets, dense and lifted variables", a2.bound(2)), move |c| {
        let t = a2.gen(c, 2);
        body(c, &t, &POINTS);
    });
    let chains = Alphabet { bi: vec![], ..Alphabet::full(1, vec![x(), b("Mul", x(), y()), b("Power", x(), y()), b("Div", x(), y()), b("Sub", y(), x())]) };
    let ch = if th { 5 } else { 4 };
    // chains deeper than the second derivative level of |x| and gamma do not matter here: one derivative
    ck.suite("chains", format!("{}; 10 points", chains.bound(ch)), move |c| {
        let t = chains.gen(c, ch);
        body(c, &t, &POINTS);
    });
    let sc = Alphabet::full(1, vec![x(), y(), k(1e-12), k(3e8)]);
    ck.suite("scales", format!("{}: derivatives as small as 1e-24 and as large as 1e17; 6 points", sc.bound(2)), move |c| {
        let t = sc.gen(c, 2);
        body(c, &t, &SCALED);
    });
    let a3 = Alphabet::of(vec![x(), y()], if th { &["Square", "Ln"] } else { &["Ln"] }, if th { &["Sub", "Mul", "Div", "Power"] } else { &["Mul", "Div", "Power"] });
    ck.suite("deep", format!("{}; 3 points", a3.bound(3)), move |c| {
        let t = a3.gen(c, 3);
        body(c, &t, &POINTS[..3]);
    });
    ck.suite("typed", "expressions over statically typed operands, predefined identifiers and the context literal, against the reference; 10 points, 3 targets", |c| {
        let l = typed_list();
        let (name, f, t) = c.pick(&l);
        let p = *c.pick(&POINTS);
        let t = t();
        c.step(3);
        c.desc(|| format!("{} at {:?}", name, p));
        c.state((name, p.0.to_bits(), p.1.to_bits()));
        let (dx, dy, dz) = f(p.0, p.1);
        for (a, g) in [(0u8, dx), (1, dy), (2, dz)] {
            match judge(&t, Ok(g), p, a, name) {
                Out::Fine => c.validated(),
                Out::Skip => c.skipped(),
                Out::Bad(d) => {
                    c.validated();
                    c.fail(format!("typed: d/d{} of {}", V(a), name), d)
                },
            }
        }
    });
    let l = names::scalars();
    ck.suite("same name", format!("{} expressions over two identifiers that print alike (of two types, and of one type), derivatives by both", l.len()), move |c| names::values(c, &l));
    ck.run()
}
