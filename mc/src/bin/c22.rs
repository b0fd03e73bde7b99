//! C22: equivalent ways of asking for the same thing agree.
use aegir::{
    buffers::{Buffer, Spec},
    ids::{X, Y},
    meta::{Constant, Variable},
    ops::{self, special::*, Contract, TensorDot, TensorDoubleDot, TensorProduct},
    errors::BinaryError, Context, Differentiable, Dual, Function, Identifier, Node, Read,
};
use mc_core::engine::*;
use mc_era::{ast::*, DErr, Env, Mute, Res, E0, E1, N0, N1, V};
use std::any::{type_name, type_name_of_val, TypeId};
use std::fmt::Debug;
use std::rc::Rc;

fn eq(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
fn eqr(a: &Res<f64>, b: &Res<f64>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => eq(*a, *b),
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
fn on(side: u8, e: &DErr) -> DErr {
    let mut e = e.clone();
    e.path.insert(0, side);
    e
}

const POINTS: [(f64, f64); 5] = [(0.7, 1.3), (0.0, 1.0), (1.0, 0.0), (-2.0, -1.0), (3.0, 0.25)];

/// Everything there is to ask of a node and its derivative, in every way.
fn ways(c: &mut Ctl, n: &dyn N1, t: V, env: &dyn Fn() -> Env, what: &dyn Fn() -> (String, String)) {
    let run = |f: &mut dyn FnMut(&mut Env) -> Res<f64>| f(&mut env());
    let mut bad = |c: &mut Ctl, way: &str, got: String, want: String| {
        let (s, d) = what();
        c.fail(format!("{}: {}", way, s), format!("{}: {} gives {}, expected {}", d, way, got, want));
    };
    let val = run(&mut |e| n.ev(e));
    let adj = n.a1(t);
    let der = run(&mut |e| adj.0.ev(e));
    let ways: [(&str, Res<f64>, &Res<f64>); 7] = [
        ("evaluate by value", n.ev_val(env()), &val),
        ("evaluate_spec().unwrap()", run(&mut |e| n.sp(e).map(|s| s.unwrap())), &val),
        ("evaluate_spec().unwrap() by value", n.sp_val(env()).map(|s| s.unwrap()), &val),
        ("evaluate_spec().unwrap() of the adjoint", run(&mut |e| adj.0.sp(e).map(|s| s.unwrap())), &der),
        ("evaluate of the adjoint by value", adj.0.ev_val(env()), &der),
        ("evaluate_adjoint", run(&mut |e| n.ev_adj(t, e)), &der),
        ("evaluate_adjoint by value", n.ev_adj_val(t, env()), &der),
    ];
    c.step(11);
    for (way, got, want) in &ways {
        c.validated();
        if !eqr(got, want) {
            bad(c, way, format!("{:?}", got), format!("{:?}", want));
        }
    }
    let want: Res<(f64, f64)> = match (&val, &der) {
        (Err(e), _) => Err(on(b'L', e)),
        (Ok(_), Err(e)) => Err(on(b'R', e)),
        (Ok(v), Ok(d)) => Ok((*v, *d)),
    };
    for (way, got) in [("evaluate_dual", n.ev_dual(t, &mut env())), ("evaluate_dual by value", n.ev_dual_val(t, env()))] {
        c.validated();
        let ok = match (&got, &want) {
            (Ok(a), Ok(b)) => eq(a.0, b.0) && eq(a.1, b.1),
            (Err(a), Err(b)) => a == b,
            _ => false,
        };
        if !ok {
            bad(c, way, format!("{:?}", got), format!("{:?}", want));
        }
    }
}

// ------------------------------------------------------------------ named constructions
/// (what, node, type, the operator it stands for, its type)
struct Named {
    what: &'static str,
    node: (E0, Vec<E0>),
    ty: &'static str,
    want: (E0, Vec<E0>),
    want_ty: &'static str,
}
/// A node and its derivatives by x and y.
fn e1<N: N1 + 'static>(n: N) -> ((E0, Vec<E0>), &'static str) {
    let t = type_name_of_val(&n);
    let d = vec![n.a1(V(0)), n.a1(V(1))];
    ((E0(Rc::new(n)), d), t)
}
/// A node that has no derivative.
fn e0<N: N0 + 'static>(n: N) -> ((E0, Vec<E0>), &'static str) {
    let t = type_name_of_val(&n);
    ((E0(Rc::new(n)), vec![]), t)
}
macro_rules! named {
    ($($f:ident $what:literal: $a:expr, $b:expr;)*) => { vec![$({
        let ((node, ty), (want, want_ty)) = ($f($a), $f($b));
        Named { what: $what, node, ty, want, want_ty }
    }),*] }
}
fn unary_named(a: &E1) -> Vec<Named> {
    let a = || a.clone();
    named! {
        e1 "abs": a().abs(), ops::Abs(a());
        e1 "neg": a().neg(), ops::Negate(a());
        e1 "ln": a().ln(), ops::Ln(a());
        e1 "squared": a().squared(), ops::Square(a());
        e1 "sigmoid": a().sigmoid(), ops::Sigmoid(a());
        e1 "sum": Mute(a().sum()), Mute(ops::Sum(a()));
        e1 "cached": Mute(a().cached(V(2))), Mute(aegir::meta::Cached { node: a(), ident: V(2) });
        e1 "Factorial::factorial": Factorial::factorial(a()), Gamma(ops::AddOne(a()));
        e0 "Erfc::erfc": Erfc::erfc(a()), ops::OneSub(Erf(a()));
        e0 "Erf::complement": Erf(a()).complement(), ops::OneSub(Erf(a()));
    }
}
fn binary_named(a: &E1, b: &E1) -> Vec<Named> {
    let (a, b) = (|| a.clone(), || b.clone());
    named! {
        e1 "add": a().add(b()), ops::Add(a(), b());
        e1 "sub": a().sub(b()), ops::Sub(a(), b());
        e1 "mul": a().mul(b()), ops::Mul(a(), b());
        e1 "div": a().div(b()), ops::Div(a(), b());
        e1 "pow": a().pow(b()), ops::Power(a(), b());
        e1 "dot": a().dot(b()), Contract::<1, _, _>(a(), b());
        e1 "TensorDot::new": TensorDot::new(a(), b()), Contract::<1, _, _>(a(), b());
        e1 "TensorProduct::new": TensorProduct::new(a(), b()), Contract::<0, _, _>(a(), b());
    }
}
fn compare(c: &mut Ctl, l: Vec<Named>, of: &dyn Fn() -> String) {
    for n in l {
        c.step(1);
        c.check(n.ty == n.want_ty, || (format!("{}: type", n.what), format!("{} of {}: is a {}, expected {}", n.what, of(), n.ty, n.want_ty)));
        let (d, w) = (n.node.0 .0.debug(), n.want.0 .0.debug());
        c.check(d == w, || (format!("{}: structure", n.what), format!("{} of {}: builds {}, expected {}", n.what, of(), d, w)));
        for p in POINTS {
            let env = || Env::new([Some(p.0), Some(p.1), None, None]);
            c.step(4);
            let (a, b) = (n.node.0 .0.ev(&mut env()), n.want.0 .0.ev(&mut env()));
            c.check(eqr(&a, &b), || (format!("{}: value", n.what), format!("{} of {}: {:?} at {:?}, expected {:?}", n.what, of(), a, p, b)));
            for (t, (a, b)) in n.node.1.iter().zip(&n.want.1).enumerate() {
                let t = V(t as u8);
                let (a, b) = (a.0.ev(&mut env()), b.0.ev(&mut env()));
                c.check(eqr(&a, &b), || (format!("{}: derivative", n.what), format!("{} of {}: d/d{} is {:?} at {:?}, expected {:?}", n.what, of(), t, a, p, b)));
            }
        }
        // what it stands for is also what it prints
        let (a, b) = (n.node.0 .0.show(), n.want.0 .0.show());
        c.check(a == b, || (format!("{}: display", n.what), format!("{} of {}: displays {:?}, expected {:?}", n.what, of(), a, b)));
    }
}
fn leaves() -> Vec<(&'static str, bool)> {
    let same = |a: String, b: String| a == b;
    vec![
        ("into_var", same(format!("{:?}", X.into_var()), format!("{:?}", Variable(X))) && type_name_of_val(&X.into_var()) == type_name::<Variable<X>>()),
        ("into_var (own identifier)", V(1).into_var() == Variable(V(1)) && V(0).into_var() != Variable(V(1))),
        ("Variable::from", Variable::from(V(1)) == Variable(V(1)) && type_name_of_val(&Variable::from(Y)) == type_name::<Variable<Y>>()),
        ("into_constant (scalar)", 2.5f64.into_constant() == Constant(2.5) && type_name_of_val(&2.5f32.into_constant()) == type_name::<Constant<f32>>()),
        ("into_constant (array)", [1.0, 2.0].into_constant() == Constant([1.0, 2.0]) && [1.0, 2.0].into_constant() != Constant([2.0, 1.0])),
        ("into_constant (tuple)", (1.0, 2.0).into_constant() == Constant((1.0, 2.0))),
        ("into_constant (vector)", vec![1.0, 2.0].into_constant() == Constant(vec![1.0, 2.0])),
        ("TensorDot", TypeId::of::<TensorDot<X, Y>>() == TypeId::of::<Contract<1, X, Y>>()),
        ("TensorProduct", TypeId::of::<TensorProduct<X, Y>>() == TypeId::of::<Contract<0, X, Y>>()),
        ("TensorDoubleDot", TypeId::of::<TensorDoubleDot<X, Y>>() == TypeId::of::<Contract<2, X, Y>>()),
        ("Factorial", TypeId::of::<Factorial<X>>() == TypeId::of::<Gamma<ops::AddOne<X>>>()),
        ("Erfc", TypeId::of::<Erfc<X>>() == TypeId::of::<ops::OneSub<Erf<X>>>()),
        ("AdjointOf", TypeId::of::<aegir::AdjointOf<Variable<X>, Y>>() == TypeId::of::<aegir::meta::VariableAdjoint<X, Y>>()),
        ("Dual::from", Dual::from((1.0, 2.0)) == Dual { value: 1.0, adjoint: 2.0 }),
        ("dual!", aegir::dual!(1.0, 2.0) == Dual { value: 1.0, adjoint: 2.0 } && aegir::dual!(3.0) == Dual { value: 3.0, adjoint: 0.0 }),
    ]
}

// ------------------------------------------------------------------ typed expressions
#[derive(Clone)]
struct Two<A, B>(Option<A>, Option<B>);
impl<A, B> AsMut<Two<A, B>> for Two<A, B> {
    fn as_mut(&mut self) -> &mut Two<A, B> { self }
}
impl<A, B> Context for Two<A, B> {}
impl<A: Buffer, B: Buffer> Read<X> for Two<A, B> {
    type Buffer = A;
    fn read(&self, _: X) -> Option<A> { self.0.clone() }
}
impl<A: Buffer, B: Buffer> Read<Y> for Two<A, B> {
    type Buffer = B;
    fn read(&self, _: Y) -> Option<B> { self.1.clone() }
}
type Found = Vec<(&'static str, String, String)>;
fn text<T: Debug, E: Debug>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(e) => format!("Err({:?})", e),
    }
}
fn tvals<A: Buffer, B: Buffer, N>(a: &A, b: &B, n: &N) -> Found
where
    N: Function<Two<A, B>>,
    N::Value: Debug,
{
    let mut out = vec![];
    for m in 0..4u8 {
        let ctx = || Two((m & 1 == 0).then(|| a.clone()), (m & 2 == 0).then(|| b.clone()));
        let v = text(n.evaluate(&mut ctx()));
        for (w, g) in [("evaluate by value", text(n.evaluate(ctx()))), ("evaluate_spec().unwrap()", text(n.evaluate_spec(&mut ctx()).map(|s| s.unwrap()))), ("evaluate_spec().unwrap() by value", text(n.evaluate_spec(ctx()).map(Spec::unwrap)))] {
            out.push((w, g, v.clone()));
        }
    }
    out
}
fn tdual<A: Buffer, B: Buffer, T: Identifier, N>(a: &A, b: &B, n: &N, t: T) -> Found
where
    N: Function<Two<A, B>> + Differentiable<T>,
    N::Value: Debug,
    N::Adjoint: Function<Two<A, B>>,
    <N::Adjoint as Function<Two<A, B>>>::Value: Debug,
{
    let mut out = tvals(a, b, n);
    out.extend(tvals(a, b, &n.adjoint(t)));
    for m in 0..4u8 {
        let ctx = || Two((m & 1 == 0).then(|| a.clone()), (m & 2 == 0).then(|| b.clone()));
        let v = n.evaluate(ctx());
        let d = n.adjoint(t).evaluate(ctx());
        let want = match (v, text(d)) {
            (Err(e), _) => format!("Left({:?})", e),
            (Ok(v), d) => match d.strip_prefix("Err(") {
                Some(e) => format!("Right({}", e),
                None => format!("({:?}, {})", v, d),
            },
        };
        let show = |r: Result<Dual<N::Value, <N::Adjoint as Function<Two<A, B>>>::Value>, BinaryError<N::Error, <N::Adjoint as Function<Two<A, B>>>::Error, aegir::errors::NoError>>| match r {
            Ok(d) => format!("({:?}, {:?})", d.value, d.adjoint),
            Err(BinaryError::Left(e)) => format!("Left({:?})", e),
            Err(BinaryError::Right(e)) => format!("Right({:?})", e),
            Err(BinaryError::Output(e)) => match e {},
        };
        out.push(("evaluate_dual", show(n.evaluate_dual(t, &mut ctx())), want.clone()));
        out.push(("evaluate_dual by value", show(n.evaluate_dual(t, ctx())), want));
        let d = text(n.adjoint(t).evaluate(ctx()));
        out.push(("evaluate_adjoint", text(n.evaluate_adjoint(t, &mut ctx())), d.clone()));
        out.push(("evaluate_adjoint by value", text(n.evaluate_adjoint(t, ctx())), d));
    }
    out
}
type Case = (&'static str, &'static str, fn() -> Found);
macro_rules! typed {
    ($k:literal $a:expr, $b:expr; vals: $($e:expr,)* ; dual: $($f:expr, $t:expr;)*) => {{
        let v: Vec<Case> = vec![
            $((stringify!($e), $k, || tvals(&$a, &$b, &$e)),)*
            $((concat!(stringify!($f), " by ", stringify!($t)), $k, || tdual(&$a, &$b, &$f, $t)),)*
        ];
        v
    }}
}
fn x_() -> Variable<X> { X.into_var() }
fn y_() -> Variable<Y> { Y.into_var() }
fn typed_list() -> Vec<Case> {
    let mut v = typed! { "x: f64, y: [f64; 3]" 0.5f64, [1.0f64, 0.0, -2.0]; vals: x_().mul(y_()), y_().div(x_()), y_().sigmoid(), y_().mul(x_()).sum(), ;
    dual:
        x_().mul(y_()), X; x_().mul(y_().sum()), X; y_().add(x_()), X; x_().squared(), X; x_().squared(), Y; y_(), X; y_(), Y; y_().sum(), Y; y_().sum(), X;
        ops::Double(y_()), Y; y_().neg(), Y; y_().squared(), X; ops::Exp(y_()), X; [1.0f64, 2.0, 3.0].into_constant().mul(x_()), X;
        [1.0f64, 2.0, 3.0].into_constant().dot(y_()), Y; TensorProduct::new(x_(), y_()), Y; y_().dot(y_()), Y; };
    v.extend(typed! { "x: [f64; 2], y: [f64; 2]" [0.5f64, -1.0], [2.0f64, 0.0]; vals: x_().mul(y_()), x_().div(y_()), x_().ln(), ;
    dual:
        x_().add(y_()), X; x_().sub(y_()), Y; x_().dot(y_()), X; x_().dot(y_()), Y; x_().add(y_()).sum(), Y; x_().neg(), X; x_(), X; x_(), Y;
        [3.0f64, 4.0].into_constant(), X; x_().add([1.0f64, 1.0].into_constant()), X; });
    v.extend(typed! { "x: [[f64; 2]; 2], y: f64" [[0.5f64, -1.0], [2.0, 3.0]], 0.25f64; vals: x_().mul(y_()), x_().abs(), x_().dot(x_()), ;
    dual:
        x_(), X; x_(), Y; x_().mul(y_()), Y; y_().mul(x_()), Y; x_().sum(), X; x_().add(x_()), X; ops::trig::Sin(x_()), Y; x_().add(y_()), Y; });
    v.extend(typed! { "x: (f64, f64), y: f64" (0.5f64, -1.0), 4.0f64; vals: x_().mul(x_()), x_().add(x_()), x_().sum(), x_().squared(), ;
    dual:
        x_(), Y; x_().sub(x_()), Y; x_().add((1.0f64, 2.0).into_constant()), Y; y_().squared(), Y; x_().sum(), Y; });
    v.extend(typed! { "x: Vec<f64>, y: Vec<f64>" vec![0.5f64, -1.0], vec![2.0f64, 0.0]; vals: x_(), x_().add(y_()), x_().sub(y_()), x_().mul(y_()), x_().div(y_()), x_().sum(), x_().sigmoid(), x_().neg(), x_().squared().add(y_()), ; dual: });
    v.extend(typed! { "x: Vec<f64>, y: f64" vec![0.5f64, -1.0, 3.0], 2.0f64; vals: x_().add(y_()), y_().sub(x_()), x_().mul(y_()), x_().div(y_()), y_().div(x_()), x_().mul(0.0f64.into_constant()), x_().add(1.0f64.into_constant()), ; dual: });
    v.extend(typed! { "x: f32, y: f32" 0.5f32, 2.0f32; vals: x_().mul(y_()), ; dual: x_().mul(y_()), X; x_().div(y_()), Y; x_().pow(y_()), X; x_().pow(2.0f32.into_constant()), X; x_().sigmoid(), X; });
    v
}

fn main() {
    let mut ck = Check::new("C22");
    let th = ck.thorough();
    ck.assume("Values are compared with ==, any NaN with any NaN.");
    let a = Alphabet::full(1, if th { vec![x(), y(), k(2.0), k(0.0)] } else { vec![x(), y(), k(2.0)] });
    ck.suite("ways", format!("{}; targets x, y, z; {} points, 3 representations of the variables, every one of x, y, z missing or present", a.bound(2), POINTS.len()), move |c| {
        let t = a.gen(c, 2);
        c.desc(|| format!("{:?}", t));
        let n = t.mk1().unwrap();
        for v in 0..3u8 {
            c.state((&t, v));
            let mut go = |c: &mut Ctl, p: (f64, f64), form: u8, missing: u8| {
                let env = || Env::new([(missing & 1 == 0).then_some(p.0), (missing & 2 == 0).then_some(p.1), (missing & 4 == 0).then_some(1.5), None]).with_form([form; 4]);
                ways(c, &*n.0, V(v), &env, &|| (t.shape(), format!("{:?} by {} at x={} y={} (representation {}, missing {:03b})", t, V(v), p.0, p.1, form, missing)));
            };
            if v < 2 {
                for p in POINTS {
                    for form in 0..3 {
                        go(c, p, form, 4);
                    }
                }
            }
            for missing in 0..8 {
                go(c, POINTS[0], 0, missing);
            }
        }
    });
    let a0 = Alphabet::full(0, vec![x(), y(), k(2.0), k(0.0)]);
    ck.suite("lifted", format!("evaluate against evaluate_spec().unwrap() for {}; {} points, 3 representations", a0.bound(2), POINTS.len()), move |c| {
        let t = a0.gen(c, 2);
        c.state(&t);
        c.desc(|| format!("{:?}", t));
        let n = t.mk0().unwrap();
        for p in POINTS {
            for form in 0..3 {
                let env = || Env::new([Some(p.0), Some(p.1), None, None]).with_form([form; 4]);
                let (v, s) = (n.0.ev(&mut env()), n.0.sp(&mut env()).map(|s| s.unwrap()));
                c.step(2);
                c.check(eqr(&v, &s), || (format!("evaluate_spec().unwrap(): {}", t.shape()), format!("{:?} at {:?} (representation {}): evaluate gives {:?}, evaluate_spec().unwrap() {:?}", t, p, form, v, s)));
            }
        }
    });
    let pool = Alphabet::full(1, vec![x(), y(), k(2.0)]).only(|o| o.shows);
    let p2 = pool.clone();
    ck.suite("builders", format!("every builder method and named constructor over every operand (pair) of {}, {} points, 2 targets", pool.bound(1), POINTS.len()), move |c| {
        let a = pool.gen(c, 1);
        c.state(&a);
        c.desc(|| format!("{:?}", a));
        compare(c, unary_named(&a.mk1().unwrap()), &|| format!("{:?}", a));
    });
    ck.suite("binary builders", format!("every two-operand builder over every pair of operands of {}", p2.bound(1)), move |c| {
        let a = p2.gen(c, 1);
        let b = if c.thorough() { p2.gen(c, 1) } else { c.pick(&[x(), y(), k(2.0), u("Sin", x()), u("Double", y()), mc_era::ast::b("Sub", x(), y()), mc_era::ast::b("Mul", y(), x())]).clone() };
        c.state((&a, &b));
        c.desc(|| format!("{:?} and {:?}", a, b));
        compare(c, binary_named(&a.mk1().unwrap(), &b.mk1().unwrap()), &|| format!("{:?} and {:?}", a, b));
        compare(c, binary_named(&b.mk1().unwrap(), &a.mk1().unwrap()), &|| format!("{:?} and {:?}", b, a));
    });
    ck.suite("names", "every leaf constructor and type alias", |c| {
        let l = leaves();
        let (n, ok) = *c.pick(&l);
        c.state(n);
        c.desc(|| n.into());
        c.check(ok, || (format!("name: {}", n), format!("{} does not denote what it stands for", n)));
    });
    ck.suite("sigmoid function", "sigmoid(x) and Sigmoid at every f32 of a 16-bit grid and every f64 of a 16-bit grid", |c| {
        let hi = c.choose(256) as u32;
        c.state(hi);
        c.desc(|| format!("bits {:02x}..", hi));
        for lo in 0..256u32 {
            let bits = hi << 8 | lo;
            let a = f32::from_bits(bits << 16);
            let b = f64::from_bits((bits as u64) << 48);
            c.step(4);
            let ga = ops::Sigmoid(x_()).evaluate(Two(Some(a), Some(a))).unwrap();
            let gb = ops::Sigmoid(x_()).evaluate(Two(Some(b), Some(b))).unwrap();
            c.check(eq(ga as f64, ops::sigmoid(a) as f64), || ("sigmoid (f32)".into(), format!("Sigmoid at {:?} is {:?}, sigmoid is {:?}", a, ga, ops::sigmoid(a))));
            c.check(eq(gb, ops::sigmoid(b)), || ("sigmoid (f64)".into(), format!("Sigmoid at {:?} is {:?}, sigmoid is {:?}", b, gb, ops::sigmoid(b))));
        }
    });
    ck.suite("typed", "typed expressions over scalars (f32, f64), arrays, matrices, tuples and vectors, each by every way and target, every subset of x, y missing", |c| {
        let l = typed_list();
        let (n, k, f) = c.pick(&l);
        c.state((n, k));
        c.desc(|| format!("{} over {}", n, k));
        for (way, got, want) in f() {
            c.step(2);
            c.check(got == want, || (format!("typed: {} of {} over {}", way, n, k), format!("{} over {}: {} gives {}, expected {}", n, k, way, got, want)));
        }
    });
    ck.run()
}
