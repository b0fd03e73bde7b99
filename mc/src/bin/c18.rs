//! C18: the displayed formula means the expression it was printed from.
use aegir::{ids::{X, Y}, ops::{self, special, trig}, Context, Function, Identifier, Node, Read};
use mc_core::{con, engine::*, tens::*};
use mc_era::{ast::*, dbg, ops::Meaning, refr::{self, Mg}, show, N0};

const POINTS: [(f64, f64); 9] = [(0.7, 1.3), (2.0, 0.5), (1.5, -1.25), (-2.0, 3.0), (0.3, -0.45), (3.5, 2.0), (1.0, 2.5), (-0.6, -1.75), (2.0, 0.0)];

/// The value of a tree, its domain without what only a convention defines (x ln x for x <= 0).
fn value(t: &Tr, p: &[f64]) -> Mg {
    let mut r = refr::value(t, p);
    if !t.all(&mut |s| !matches!(s, Tr::Un(o, k) if o.mean == Meaning::XLnX && !(refr::value(k, p).v > 0.0))) {
        r.ok = false;
    }
    // a rounded exponent of a negative base tells nothing
    if !t.all(&mut |s| !matches!(s, Tr::Bi(o, k) if o.mean == Meaning::Power && !k.1.is_leaf() && refr::value(&k.0, p).v < 0.0)) {
        r.ok = false;
    }
    r
}
fn finite(t: &Tr) -> bool { t.all(&mut |s| !matches!(s, Tr::Const(c) if !c.is_finite())) }
/// Does the text denote the expression? (None: no point tells)
fn same(text: &Tr, of: &Tr, hits: &mut u64) -> Result<(), String> {
    let defined = finite(text);
    for p in POINTS {
        let p = [p.0, p.1];
        let w = value(of, &p);
        if !w.sharp() {
            continue;
        }
        let g = refr::value(text, &p);
        if !defined || g.v.is_nan() {
            *hits += 1;
            return Err(format!("the text has no value at x={} y={}, the expression has the value {}", p[0], p[1], w.v));
        }
        if !g.sharp() {
            continue;
        }
        *hits += 1;
        if (g.v - w.v).abs() > 4.0 * (g.tol() + w.tol()) {
            return Err(format!("the text denotes {} at x={} y={}, the expression {}", g.v, p[0], p[1], w.v));
        }
    }
    Ok(())
}
fn judge(n: &dyn N0, of: &Tr, hits: &mut u64) -> Result<(), String> {
    let (shown, expr) = (n.show(), n.ex().to_string());
    for s in if shown == expr { vec![shown] } else { vec![shown, expr] } {
        let t = show::scalar(&s).map_err(|e| format!("{:?} is displayed as {:?}, which is no formula: {}", of, s, e))?;
        same(&t, of, hits).map_err(|e| format!("{:?} is displayed as {:?}: {}", of, s, e))?;
    }
    Ok(())
}
/// The smallest part that is displayed wrongly.
fn blame(t: &Tr) -> Option<(String, String)> {
    let kids: Vec<&Tr> = match t {
        Tr::Un(_, k) | Tr::Cached(_, k) => vec![k],
        Tr::Bi(_, k) => vec![&k.0, &k.1],
        _ => vec![],
    };
    for k in kids {
        if let Some(s) = blame(k) {
            return Some(s);
        }
    }
    judge(&*t.mk0()?.0, t, &mut 0).err().map(|d| (t.shape(), d))
}
fn look(c: &mut Ctl, n: &dyn N0, of: &Tr) {
    let mut hits = 0;
    c.step(1);
    let r = judge(n, of, &mut hits);
    if hits == 0 && r.is_ok() {
        c.skipped();
    }
    c.check(r.is_ok(), || {
        let d = r.unwrap_err();
        let (s, d) = blame(of).unwrap_or((of.shape(), d));
        (format!("text of {}", s), d)
    });
    if hits > 0 {
        c.count("texts with a point that tells", 1);
    }
}
fn derived(c: &mut Ctl, t: &Tr, order: usize) {
    c.state(t);
    c.desc(|| format!("{:?}", t));
    for i in 0..2u8 {
        let v = mc_era::V(i);
        if order == 1 {
            let a = t.mk1().unwrap().0.a1(v);
            look(c, &*a.0, &dbg::parse(&a.0.debug()).tree());
        } else {
            for j in 0..2u8 {
                let a = t.mk2().unwrap().0.a2(v).0.a1(mc_era::V(j));
                look(c, &*a.0, &dbg::parse(&a.0.debug()).tree());
            }
        }
    }
}

/// An operator over known operands: its text denotes the value of the implementation, infinities
/// included (at zero the gamma function and its kin have a pole of either sign: any infinity).
fn known(c: &mut Ctl, t: &Tr) {
    const P: [f64; 2] = [2.0, 1.3];
    c.state(t);
    c.desc(|| format!("{:?}", t));
    let n = t.mk0().unwrap().0;
    let v = n.ev(&mut mc_era::Env::xy(P[0], P[1])).unwrap();
    let text = n.show();
    // a purely imaginary value: read the factor of the imaginary unit
    let factor = text.replace("\u{1D456}\u{3C0}", "\u{3C0}").replace("\u{1D456}", "1");
    let read = |s: &str| show::scalar(s).map(|g| refr::value(&g, &P).v);
    c.step(1);
    let root = match t {
        Tr::Un(o, _) | Tr::Bi(o, _) => Some(o.mean),
        _ => None,
    };
    let ok = match (read(&text), root) {
        (Err(_), _) => false,
        (Ok(g), Some(Meaning::Gamma | Meaning::DiGamma)) if !(v.abs() < 1e300) => !g.is_finite(),
        (Ok(_), Some(Meaning::ArcCosh)) if v.is_nan() => factor != text && read(&factor).map_or(false, |g| (g - std::f64::consts::FRAC_PI_2).abs() < 1e-12),
        (Ok(_), _) if v.is_nan() => return c.skipped(),
        (Ok(g), _) => g == v || (g - v).abs() <= 1e-12 * v.abs().max(1e-2),
    };
    c.check(ok, || (format!("text of {}", t.shape()), format!("{:?} is displayed as {:?}, its value is {}", t, text, v)));
}

// ------------------------------------------------------------------ buffers
#[derive(Clone)]
struct Two<A, B>(A, B);
impl<A, B> AsMut<Two<A, B>> for Two<A, B> {
    fn as_mut(&mut self) -> &mut Two<A, B> { self }
}
impl<A, B> Context for Two<A, B> {}
impl<A: aegir::buffers::Buffer, B> Read<X> for Two<A, B> {
    type Buffer = A;
    fn read(&self, _: X) -> Option<A> { Some(self.0.clone()) }
}
impl<A, B: aegir::buffers::Buffer> Read<Y> for Two<A, B> {
    type Buffer = B;
    fn read(&self, _: Y) -> Option<B> { Some(self.1.clone()) }
}
/// The value of a formula over tensors: scalars are repeated, functions apply entry by entry.
fn tensor(e: &show::Sx, x: &T<f64>, y: &T<f64>) -> Result<T<f64>, String> {
    use show::Sx::*;
    Ok(match e {
        Var(n) => if n == "x" { x.clone() } else { y.clone() },
        Num(c) => T::scalar(*c),
        Pi => T::scalar(std::f64::consts::PI),
        E => T::scalar(1f64.exp()),
        Undefined(_) => return Err("undefined".into()),
        Sum(e) => T::scalar(tensor(e, x, y)?.data.iter().sum()),
        Fun(n, e) => {
            let e = tensor(e, x, y)?;
            let f = mc_era::ops::un(n).mean;
            e.map(|v| <Mg as refr::Rf>::un(<Mg as refr::Rf>::k(v), f).v)
        },
        Op(o, k) => {
            let (l, r) = (tensor(&k.0, x, y)?, tensor(&k.1, x, y)?);
            match o {
                't' => contract(&l, &r, 0),
                'd' => contract(&l, &r, 1),
                ':' => contract(&l, &r, 2),
                o => {
                    if !(l.dims == r.dims || l.dims.is_empty() || r.dims.is_empty()) {
                        return Err(format!("shapes {:?} and {:?} do not fit", l.dims, r.dims));
                    }
                    let o = *o;
                    l.zip(&r, move |a, b| match o { '+' => a + b, '-' => a - b, '*' => a * b, '/' => a / b, _ => a.powf(b) }).unwrap()
                },
            }
        },
    })
}
fn contract(l: &T<f64>, r: &T<f64>, axes: usize) -> T<f64> {
    if l.dims.is_empty() || r.dims.is_empty() {
        return l.zip(r, |a, b| a * b).unwrap();
    }
    con::contract(axes, l, r, 0.0, |a, b| a + b, |a, b| a * b)
}
type Row = (&'static str, fn() -> (String, Result<T<f64>, String>, T<f64>, T<f64>));
macro_rules! row {
    ($A:ty, $da:expr, $B:ty, $db:expr, $e:expr) => {
        (concat!(stringify!($e), " over ", stringify!($A), " and ", stringify!($B)), || {
            let ta = T::build(&$da, |ix| 1.25 + lin(&$da, ix) as f64 * 0.5);
            let tb = T::build(&$db, |ix| 2.0 - 0.75 * lin(&$db, ix) as f64);
            let n = $e;
            let v = guarded(|| n.evaluate(Two(<$A as Kind>::of(&ta), <$B as Kind>::of(&tb))).map(|r| r.t()).map_err(|e| format!("{:?}", e)));
            (n.to_string(), v.and_then(|r| r), ta, tb)
        })
    };
}
fn vx() -> aegir::meta::Variable<X> { X.into_var() }
fn vy() -> aegir::meta::Variable<Y> { Y.into_var() }
fn typed() -> Vec<Row> {
    type V2 = [f64; 2];
    type M2 = [[f64; 2]; 2];
    macro_rules! vecs { ($($e:expr;)*) => { vec![ $( row!(V2, [2], V2, [2], $e), row!(f64, [0; 0], V2, [2], $e), row!(Vec<f64>, [3], Vec<f64>, [3], $e) ),* ] } }
    macro_rules! mats { ($($e:expr;)*) => { vec![ $( row!(M2, [2, 2], M2, [2, 2], $e) ),* ] } }
    macro_rules! dots { ($($e:expr;)*) => { vec![ $( row!(V2, [2], V2, [2], $e) ),* ] } }
    let mut l: Vec<Row> = vecs![
        ops::Sum(vx()); ops::Sum(vx().add(vy())); ops::Sum(vx().sub(vy().sub(vx()))); ops::Sum(ops::Double(vx()).div(vy()));
        ops::Sum(ops::Sum(vx())); ops::Sum(vx().neg().mul(vy())); ops::Sum(trig::Cos(vx().mul(vy())));
        vx().add(vy()); vx().sub(vy()); vx().mul(vy()).sub(vy()); vx().div(vy().div(vx())); trig::Sin(vx()).sub(ops::Exp(vy().neg())); special::Erf(vx()).mul(vy().abs());
    ];
    l.extend::<Vec<Row>>(mats![
        ops::Sum(vx()); ops::Sum(vx().sub(vy()));
        ops::TensorDot::new(vx(), vy()); ops::TensorDot::new(ops::TensorDot::new(vx(), vy()), vx().sub(vy())); vx().sub(ops::TensorDot::new(vy(), vx()));
    ]);
    l.extend::<Vec<Row>>(dots![
        ops::TensorDot::new(vx(), vy()); ops::TensorDot::new(vx().sub(vy()), vy().mul(vy())); ops::TensorDot::new(ops::Double(vx()), vy().neg()); ops::TensorProduct::new(vx(), vy());
        ops::TensorProduct::new(vx().add(vy()), vy()); ops::TensorProduct::new(vx(), ops::Double(vy())); ops::TensorDot::new(vx(), vy()).sub(vx()); vy().div(ops::TensorDot::new(vx(), vx()));
    ]);
    l
}
/// The double inner product cannot be evaluated for any buffer; its text can be read all the same.
fn double() -> Vec<(&'static str, Vec<String>)> {
    use aegir::fmt::ToExpr;
    macro_rules! l { ($($f:literal = $e:expr;)*) => { vec![$( ($f, { let n = $e; vec![n.to_string(), n.to_expr().to_string()] }) ),*] } }
    l![
        "x : y" = ops::TensorDoubleDot::new(vx(), vy());
        "(x + y) : y" = ops::TensorDoubleDot::new(vx().add(vy()), vy());
        "x : (x - y)" = ops::TensorDoubleDot::new(vx(), vx().sub(vy()));
        "x : (-y)" = ops::TensorDoubleDot::new(vx(), vy().neg());
        "x : (x : y)" = ops::TensorDoubleDot::new(vx(), ops::TensorDoubleDot::new(vx(), vy()));
        "(x : y) : x" = ops::TensorDoubleDot::new(ops::TensorDoubleDot::new(vx(), vy()), vx());
        "x - (x : y)" = vx().sub(ops::TensorDoubleDot::new(vx(), vy()));
        "(x : y) / y" = ops::TensorDoubleDot::new(vx(), vy()).div(vy());
        "y / (x : y)" = vy().div(ops::TensorDoubleDot::new(vx(), vy()));
        "cos(x : (2 \u{2218} y))" = trig::Cos(ops::TensorDoubleDot::new(vx(), ops::Double(vy())));
    ]
}
fn double_body(c: &mut Ctl, l: &[(&'static str, Vec<String>)]) {
    let (f, texts) = c.pick(l).clone();
    c.state(f);
    c.desc(|| f.to_string());
    let d = [2, 2];
    let (x, y) = (T::build(&d, |ix| 1.25 + lin(&d, ix) as f64 * 0.5), T::build(&d, |ix| 2.0 - 0.75 * lin(&d, ix) as f64));
    let value = |t: &str| show::read(t, &["x", "y"]).and_then(|e| tensor(&e, &x, &y));
    let want = value(f).unwrap();
    for t in texts {
        let got = value(&t);
        c.step(1);
        let ok = matches!(&got, Ok(g) if g.dims == want.dims && g.data.iter().zip(&want.data).all(|(a, b)| (a - b).abs() <= 1e-9 * b.abs().max(1.0)));
        c.check(ok, || (format!("text of {}", f), format!("the double inner product {} is displayed as {:?}, which denotes {:?}, not {:?}", f, t, got, want)));
    }
}
fn kind(c: &mut Ctl, l: &[Row]) {
    let (n, f) = *c.pick(l);
    c.state(n);
    c.desc(|| n.to_string());
    let (text, v, x, y) = f();
    c.step(1);
    let want = match v {
        Ok(v) => v,
        Err(_) => return c.skipped(),
    };
    let got = show::read(&text, &["x", "y"]).and_then(|e| tensor(&e, &x, &y));
    let ok = matches!(&got, Ok(g) if g.dims == want.dims && g.data.iter().zip(&want.data).all(|(a, b)| (a - b).abs() <= 1e-9 * b.abs().max(1.0)));
    c.check(ok, || (format!("text of {}", n), format!("{} is displayed as {:?}, which denotes {:?}, the expression {:?}", n, text, got, want)));
}

fn main() {
    let mut ck = Check::new("C18");
    let th = ck.thorough();
    ck.assume("Conventions of reading: powers group from the right and before a sign, products and quotients from the left to the right. Points where the expression is undefined (or defined by convention only: x ln x for x <= 0) are skipped. Sum and Cached have no rendering inside other scalar operators.");
    let all = |lv: u8, leaves: Vec<Tr>| Alphabet::full(lv, leaves).only(|o| o.shows);
    let (one, zero) = (Tr::Adj(true), Tr::Adj(false));
    let mut leaves = vec![x(), y(), k(2.0), k(-1.5), one.clone(), zero.clone()];
    if th {
        leaves.extend([k(0.0), k(1.0), k(-2.0), k(0.5)]);
    }
    let a = all(0, leaves);
    ck.suite("expressions", format!("{} (leaves include nodes known to be 0 or 1); {} points", a.bound(2), POINTS.len()), move |c| {
        let t = a.gen(c, 2);
        c.state(&t);
        c.desc(|| format!("{:?}", t));
        look(c, &*t.mk0().unwrap().0, &t)
    });
    let a = Alphabet::of(vec![x(), y()], if th { &["Negate", "Square", "Exp"] } else { &["Negate", "Double"] }, if th { &["Add", "Sub", "Div", "Power"] } else { &["Sub", "Div", "Power"] });
    ck.suite("deeper", format!("{}; {} points", a.bound(3), POINTS.len()), move |c| {
        let t = a.gen(c, 3);
        c.state(&t);
        c.desc(|| format!("{:?}", t));
        look(c, &*t.mk0().unwrap().0, &t)
    });
    let a = all(1, if th { vec![x(), y(), k(-1.5), k(2.0)] } else { vec![x(), y(), k(2.0)] });
    ck.suite("derivatives", format!("first derivatives of {}; {} points", a.bound(2), POINTS.len()), move |c| {
        let t = a.gen(c, 2);
        derived(c, &t, 1)
    });
    let a = all(2, vec![x(), y(), k(3.0)]);
    let h = if th { 2 } else { 1 };
    ck.suite("second", format!("second derivatives of {}; {} points", a.bound(h), POINTS.len()), move |c| {
        let t = a.gen(c, h);
        derived(c, &t, 2)
    });
    let a = all(0, vec![one, zero, x()]);
    ck.suite("known operands", format!("{} (two of them known to be 0 and 1, one a positive variable): where the value is a convention or infinite, the text says so", a.bound(1)), move |c| {
        let t = a.gen(c, 1);
        known(c, &t)
    });
    let l = typed();
    ck.suite("buffers", format!("{} expressions over arrays, matrices and vectors: sums, inner and outer products", l.len()), move |c| kind(c, &l));
    let l = double();
    ck.suite("double", format!("{} expressions with double inner products, read over 2 x 2 matrices", l.len()), move |c| double_body(c, &l));
    ck.run()
}
