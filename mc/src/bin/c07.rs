//! C07: predicted shape, lifted shape and value shape always agree.
#![recursion_limit = "512"]
#[macro_use]
#[path = "../arr.rs"]
mod arr;
include!("../worlds.rs");
use aegir::{
    buffers::{shapes::*, ZipMap},
    buffers::{Buffer, Class},
    ids::{X, Y},
    meta::Constant,
    ops::{self, special, trig},
    Identifier,
};
use arr::*;
use mc_era::{ast, vecs, Env, N0, V};

/// The three answers of one node: if there is a value, the other two describe it.
fn judge(c: &mut Ctl, got: &Result<Got, String>, want: Option<&[usize]>, sig: &dyn Fn() -> String, text: &dyn Fn() -> String) {
    c.step(3);
    let g = match got {
        Ok(g) => g,
        Err(e) => return c.fail(format!("panics: {}", sig()), format!("{}: {}", text(), e)),
    };
    c.validated();
    let v = match &g.ev {
        Ok(v) => v,
        Err(_) => return c.count("no value", 1),
    };
    if v.dims.iter().product::<usize>() != v.data.len() || want.map_or(false, |w| w != v.dims) {
        c.fail(format!("shape of the value: {}", sig()), format!("{}: the value has shape {:?} and {} entries, expected {:?}", text(), v.dims, v.data.len(), want));
    }
    match &g.sh {
        Ok(s) if *s == v.dims => {},
        Ok(s) => c.fail(format!("evaluate_shape: {}", sig()), format!("{}: evaluate_shape is {:?}, the value's shape {:?}", text(), s, v.dims)),
        Err(e) => c.fail(format!("evaluate_shape fails: {}", sig()), format!("{}: evaluate_shape is {:?} although the value is {:?}", text(), e, v)),
    }
    match &g.sp {
        Ok((s, d)) if *s == v.dims && d.dims == v.dims && d.data.len() == v.data.len() => {},
        Ok((s, d)) => c.fail(format!("shape of the lifted value: {}", sig()), format!("{}: the lifted value has shape {:?} and unwraps to {:?}, the value's shape is {:?}", text(), s, d.dims, v.dims)),
        Err(e) => c.fail(format!("evaluate_spec fails: {}", sig()), format!("{}: evaluate_spec is {:?} although the value is {:?}", text(), e, v)),
    }
}

// ------------------------------------------------------------------ scalars
const POINTS: [(f64, f64); 4] = [(0.7, 1.3), (0.0, 1.0), (1.0, 0.0), (-2.0, -1.0)];
fn scalar(c: &mut Ctl, n: &dyn N0, what: &dyn Fn() -> (String, String), slots: u8) {
    for p in POINTS {
        for form in 0..3u8 {
            for miss in 0..3 {
                let mut env = Env::new([Some(p.0), Some(p.1), None, None]).with_form([form; 4]);
                if miss < 2 {
                    env.vals[miss] = None;
                }
                for s in 2..2 + slots {
                    env.vals[s as usize] = Some(3.5);
                }
                c.step(3);
                if guarded(|| n.ev(&mut env.clone())).map_or(true, |r| r.is_err()) {
                    continue;
                }
                let sh = guarded(|| n.sh(&mut env.clone()));
                let sp = guarded(|| n.sp(&mut env.clone()));
                c.check(matches!(sh, Ok(Ok(_))), || (format!("evaluate_shape fails: {}", what().0), format!("{} at x={} y={} (representation {}): evaluate_shape is {:?} although there is a value", what().1, p.0, p.1, form, sh)));
                c.check(matches!(sp, Ok(Ok(_))), || (format!("evaluate_spec fails: {}", what().0), format!("{} at x={} y={} (representation {}): evaluate_spec is {:?} although there is a value", what().1, p.0, p.1, form, sp)));
            }
        }
    }
}

// ------------------------------------------------------------------ vectors
fn vec_judge(c: &mut Ctl, t: &vecs::Vt, n: &vecs::Any, k: &vecs::Consts, env: &vecs::Venv) {
    let text = || format!("{} with lengths x {} y {} const {}{}, forms {:?}", t.text(), env.vecs[0].as_ref().map_or(0, Vec::len), env.vecs[1].as_ref().map_or(0, Vec::len), k.vec.len(), env.vecs[2].as_ref().map_or(String::new(), |v| format!(" cached {}", v.len())), env.form);
    c.state((t, env.vecs.iter().map(|v| v.as_ref().map(Vec::len)).collect::<Vec<_>>(), k.vec.len(), env.form));
    c.desc(text);
    let all = vecs::ask_any(n, env);
    c.step(all.len() as u64);
    for (way, at) in [("by reference", 0), ("by value", 1)] {
        let dims = match &all[at].got {
            Ok((d, _)) => d.clone(),
            Err(_) => continue,
        };
        for a in &all {
            c.validated();
            let ok = match &a.got {
                Ok((d, v)) => *d == dims && v.as_ref().map_or(true, |v| v.len() == dims.iter().product::<usize>()),
                Err(_) => false,
            };
            c.check(ok, || (format!("{}: {}", a.what, t.shape()), format!("{}: {} answers {:?}, the value ({}) has shape {:?}", text(), a.what, a.got.as_ref().map(|g| (&g.0, g.1.as_ref().map(Vec::len))), way, dims)));
        }
    }
}
fn vec_contexts(c: &mut Ctl, t: &vecs::Vt, lens: &[usize], forms: &[[u8; 3]]) {
    let form = *c.pick(forms);
    let zero = c.flag();
    let (lx, ly, lc) = (*c.pick(lens), *c.pick(lens), *c.pick(lens));
    let uses = |v: &vecs::Vt| uses(t, v);
    if (!uses(&vecs::Vt::Vec(0)) && (lx != lens[0] || form[0] != 0)) || (!uses(&vecs::Vt::Vec(1)) && (ly != lens[0] || form[1] != 0)) || (!uses(&vecs::Vt::CVec) && lc != lens[0]) || (!uses(&vecs::Vt::Sca) && form[2] != 0) || (zero && form == [0; 3]) {
        return;
    }
    let b = if zero { 0.0 } else { 2.0 };
    let k = vecs::Consts { vec: vecs::fill(lc, 0, 5.0), sca: 1.5 };
    let mut env = vecs::Venv { vecs: [Some(vecs::fill(lx, form[0], b)), Some(vecs::fill(ly, form[1], b)), None], s: if zero && form[2] > 0 { 0.0 } else { 1.25 }, form };
    let n = t.mk(&k);
    vec_judge(c, t, &n, &k, &env);
    if t.has_cached() {
        env.vecs[2] = Some(vecs::fill(*c.pick(lens), 0, 7.0));
        vec_judge(c, t, &n, &k, &env);
    }
}
fn uses(t: &vecs::Vt, v: &vecs::Vt) -> bool {
    use vecs::Vt;
    t == v
        || match t {
            Vt::Un(_, a) | Vt::Sum(a) | Vt::Cached(a) => uses(a, v),
            Vt::Bi(_, a, b) => uses(a, v) || uses(b, v),
            _ => false,
        }
}
fn vec_trees(un: usize, height: usize) -> Vec<vecs::Vt> {
    let mut all = vecs::leaves();
    let mut seen: std::collections::BTreeSet<_> = all.iter().cloned().collect();
    for h in 0..height {
        for t in vecs::grow(&all, if h == 0 { un } else { 2 }, true) {
            if seen.insert(t.clone()) {
                all.push(t);
            }
        }
    }
    all
}
const VFORMS: [[u8; 3]; 9] = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0], [2, 0, 0], [0, 2, 1], [1, 2, 1], [0, 0, 1], [1, 1, 1]];

// ------------------------------------------------------------------ every operator over every kind
type C1<A> = Two<A, f64>;
/// dims are what the buffer has at run time
fn env_of<A: Kind<Field = f64>>(c: &mut Ctl, dims: &[usize]) -> (C1<A>, [u8; 2], bool) {
    let form = [c.choose(3) as u8, c.choose(3) as u8];
    let zero = form != [0, 0] && c.flag();
    (Two { x: A::of(&entries(dims, 0, form[0], zero)), y: entries(&[], 3, form[1], zero).data[0], form }, form, zero)
}
macro_rules! unary_fn { ([$($op:path),* $(,)?]) => {
fn unary<A: Kind<Field = f64> + 'static>(c: &mut Ctl, dims: &[usize])
where A::Shape: ShV {
    let (env, form, zero) = env_of::<A>(c, dims);
    c.state((A::name(), dims, form, zero));
    c.desc(|| format!("unary operators over {} {:?}, representation {:?}{}", A::name(), dims, form, if zero { " of zero" } else { "" }));
    $( {
        let text = || format!("{} over {} {:?}, representation {:?}{}", stringify!($op), A::name(), dims, form, if zero { " of zero" } else { "" });
        let ns: [(&str, std::rc::Rc<dyn NF<C1<A>, A>>); 5] = [
            ("x", std::rc::Rc::new($op(X.into_var()))),
            ("constant", std::rc::Rc::new($op(Constant(env.x.clone())))),
            ("lifted constant", std::rc::Rc::new($op(Constant(lift_of(&env.x, form[0]))))),
            ("-x", std::rc::Rc::new($op(ops::Negate(X.into_var())))),
            ("exp x", std::rc::Rc::new(ops::Double($op(ops::Exp(X.into_var()))))),
        ];
        for (of, n) in ns {
            judge(c, &guarded(|| ask::<C1<A>, A>(&*n, &env)), Some(dims), &|| format!("{} of {} over {}", stringify!($op), of, A::name()), &|| format!("{} of {}", text(), of));
        }
    } )*
    let ns: [(&str, std::rc::Rc<dyn NF<C1<A>, f64>>); 3] = [("Sum of x", std::rc::Rc::new(ops::Sum(X.into_var()))), ("Sum of constant", std::rc::Rc::new(ops::Sum(Constant(env.x.clone())))), ("Exp of Sum of -x", std::rc::Rc::new(ops::Exp(ops::Sum(ops::Negate(X.into_var())))))];
    for (of, n) in ns {
        judge(c, &guarded(|| ask::<C1<A>, f64>(&*n, &env)), Some(&[]), &|| format!("{} over {}", of, A::name()), &|| format!("{} over {} {:?}, representation {:?}", of, A::name(), dims, form));
    }
}
} }
fn lift_of<A: Kind<Field = f64>>(a: &A, form: u8) -> aegir::buffers::Spec<A> {
    use aegir::buffers::Spec;
    let v = a.t().data.first().copied().unwrap_or(0.0);
    match form {
        0 => Spec::Raw(a.clone()),
        1 => Spec::Full(a.shape(), v),
        _ => Spec::Diagonal(a.shape(), v),
    }
}
unary_fn!([
    ops::SubOne, ops::OneSub, ops::AddOne, ops::Square, ops::Double, ops::Negate, ops::Dirac, ops::Sign, ops::Abs, ops::Ln, ops::XLnX, ops::Exp, ops::Rabbit, ops::Sigmoid,
    special::Gamma, special::DiGamma, special::LogGamma, special::Erf, special::Factorial::factorial, special::Erfc::erfc,
    trig::Cos, trig::Cosh, trig::ArcCos, trig::ArcCosh, trig::Sin, trig::Sinh, trig::ArcSin, trig::ArcSinh, trig::Tan, trig::Tanh, trig::ArcTan, trig::ArcTanh,
]);

/// A buffer x combined with a scalar y, on either side, nested, with itself.
fn with_scalar<A, S, CL>(c: &mut Ctl, dims: &[usize])
where
    S: Shape + ShV + Broadcast<S, Shape = S> + Broadcast<S0, Shape = S>,
    S0: Broadcast<S, Shape = S>,
    CL: Class<S, Buffer<f64> = A>,
    A: Kind<Field = f64, Shape = S, Class = CL> + ZipMap<A, Output<f64> = A> + ZipMap<f64, Output<f64> = A> + 'static,
    f64: ZipMap<A, Output<f64> = A>,
    IncompatibleShapes<S, S>: vecs::IntoV,
    IncompatibleShapes<S, S0>: vecs::IntoV,
    IncompatibleShapes<S0, S>: vecs::IntoV,
{
    let (env, form, zero) = env_of::<A>(c, dims);
    c.state((A::name(), dims, form, zero, 1));
    c.desc(|| format!("binary operators over {} {:?}, representation {:?}{}", A::name(), dims, form, if zero { " of zero" } else { "" }));
    let (x, y) = (|| X.into_var(), || Y.into_var());
    macro_rules! go { ($($n:expr;)*) => { $( {
        let n = $n;
        judge(c, &guarded(|| ask::<C1<A>, A>(&n, &env)), Some(dims), &|| format!("{} over {}", stringify!($n), A::name()), &|| format!("{} over {} {:?}, representations {:?}{}", stringify!($n), A::name(), dims, form, if zero { " of zero" } else { "" }));
    } )* } }
    macro_rules! each { ($($o:ident)*) => { $( go! {
        ops::$o(x(), x());
        ops::$o(x(), y());
        ops::$o(y(), x());
        ops::$o(ops::$o(x(), y()), x());
        ops::$o(y(), ops::$o(y(), x()));
        ops::$o(ops::Exp(x()), ops::Sigmoid(y()));
        ops::$o(ops::Sum(x()), x());
        ops::$o(Constant(env.x.clone()), y());
        ops::$o(Constant(env.y), x());
        ops::$o(Constant(lift_of(&env.x, form[0])), Constant(lift_of(&env.y, form[1])));
    } )* } }
    each!(Add Sub Mul Div);
}
/// A pair of kinds without scalars in between (tuples).
fn tuples(c: &mut Ctl) {
    let dims = [2];
    let (env, form, zero) = env_of::<(f64, f64)>(c, &dims);
    c.state(("tuple", form, zero));
    macro_rules! go { ($($o:ident)*) => { $( {
        let n = ops::$o(X.into_var(), ops::Negate(X.into_var()));
        judge(c, &guarded(|| ask::<C1<(f64, f64)>, (f64, f64)>(&n, &env)), Some(&dims), &|| format!("{} over tuples", stringify!($o)), &|| format!("{} over tuples, representations {:?}", stringify!($o), form));
        let n = ops::$o(Constant((1.0, 0.5)), X.into_var());
        judge(c, &guarded(|| ask::<C1<(f64, f64)>, (f64, f64)>(&n, &env)), Some(&dims), &|| format!("{} over tuples", stringify!($o)), &|| format!("{} over tuples, representations {:?}", stringify!($o), form));
    } )* } }
    go!(Add Sub Mul Div);
}

// ------------------------------------------------------------------ contractions
fn contracts(c: &mut Ctl) {
    macro_rules! con { ($($ax:literal $A:ty, $B:ty => $O:ty, $want:expr;)*) => {{
        let k = c.choose([$($ax),*].len());
        let mut i = 0;
        $(
            if i == k {
                let form = [c.choose(3) as u8, c.choose(3) as u8];
                let zero = form != [0, 0] && c.flag();
                let (da, db) = (dims_of::<$A>(), dims_of::<$B>());
                let env: Two<$A, $B> = Two { x: <$A as Kind>::of(&entries(&da, 0, form[0], zero)), y: <$B as Kind>::of(&entries(&db, 3, form[1], zero)), form };
                let want: Vec<usize> = $want.to_vec();
                c.state(($ax, &da, &db, form, zero));
                let text = || format!("Contract<{}> of {} and {}, representations {:?}{}", $ax, stringify!($A), stringify!($B), form, if zero { ", zero" } else { "" });
                c.desc(text);
                let sig = || format!("Contract<{}> of ranks {} and {}", $ax, da.len(), db.len());
                judge(c, &guarded(|| ask::<_, $O>(&ops::Contract::<$ax, _, _>(X.into_var(), Y.into_var()), &env)), Some(&want), &sig, &text);
                judge(c, &guarded(|| ask::<_, $O>(&ops::Contract::<$ax, _, _>(Constant(env.x.clone()), ops::Negate(Y.into_var())), &env)), Some(&want), &sig, &text);
                judge(c, &guarded(|| ask::<_, $O>(&ops::Exp(ops::Contract::<$ax, _, _>(ops::Double(X.into_var()), Constant(lift_of(&env.y, form[1])))), &env)), Some(&want), &sig, &text);
                return;
            }
            i += 1;
        )*
        let _ = i;
    }} }
    con! {
        0 f64, f64 => f64, []; 1 f64, f64 => f64, [];
        0 f64, [f64; 3] => [f64; 3], [3]; 0 [f64; 3], f64 => [f64; 3], [3]; 0 f64, [f64; 0] => [f64; 0], [0]; 0 [f64; 17], f64 => [f64; 17], [17];
        0 [f64; 3], [f64; 2] => [[f64; 2]; 3], [3, 2]; 0 [f64; 2], [f64; 3] => [[f64; 3]; 2], [2, 3]; 0 [f64; 1], [f64; 4] => [[f64; 4]; 1], [1, 4]; 0 [f64; 0], [f64; 2] => [[f64; 2]; 0], [0, 2]; 0 [f64; 2], [f64; 0] => [[f64; 0]; 2], [2, 0]; 0 [f64; 17], [f64; 33] => [[f64; 33]; 17], [17, 33];
        0 f64, [[f64; 3]; 2] => [[f64; 3]; 2], [2, 3]; 0 [[f64; 3]; 2], f64 => [[f64; 3]; 2], [2, 3]; 0 f64, [[f64; 0]; 2] => [[f64; 0]; 2], [2, 0];
        1 [f64; 3], [f64; 3] => f64, []; 1 [f64; 0], [f64; 0] => f64, []; 1 [f64; 1], [f64; 1] => f64, []; 1 [f64; 129], [f64; 129] => f64, [];
        1 [f64; 2], [[f64; 3]; 2] => [f64; 3], [3]; 1 [f64; 3], [[f64; 2]; 3] => [f64; 2], [2]; 1 [f64; 2], [[f64; 2]; 2] => [f64; 2], [2]; 1 [f64; 0], [[f64; 2]; 0] => [f64; 2], [2]; 1 [f64; 2], [[f64; 0]; 2] => [f64; 0], [0];
        1 [[f64; 2]; 2], [f64; 2] => [f64; 2], [2]; 1 [[f64; 3]; 3], [f64; 3] => [f64; 3], [3]; 1 [[f64; 1]; 1], [f64; 1] => [f64; 1], [1]; 1 [[f64; 16]; 16], [f64; 16] => [f64; 16], [16];
        1 [[f64; 3]; 2], [[f64; 4]; 3] => [[f64; 4]; 2], [2, 4]; 1 [[f64; 2]; 3], [[f64; 3]; 2] => [[f64; 3]; 3], [3, 3]; 1 [[f64; 1]; 4], [[f64; 3]; 1] => [[f64; 3]; 4], [4, 3]; 1 [[f64; 0]; 2], [[f64; 3]; 0] => [[f64; 3]; 2], [2, 3]; 1 [[f64; 2]; 2], [[f64; 2]; 2] => [[f64; 2]; 2], [2, 2]; 1 [[f64; 17]; 5], [[f64; 9]; 17] => [[f64; 9]; 5], [5, 9];
    }
}

// ------------------------------------------------------------------ typed worlds (values and derivatives)
const FORMS: [([u8; 2], bool); 7] = [([0, 0], false), ([1, 0], false), ([0, 1], false), ([1, 1], false), ([2, 2], false), ([1, 0], true), ([0, 1], true)];
fn world_suite(check: &mut Check, w: &'static dyn World) {
    let th = check.thorough();
    let l = leaves(w);
    let h1 = dedup([l.clone(), grow(w, &l, &l, LIN.len(), NON.len())].concat());
    let n = if th { 3 } else { 1 };
    let small = dedup([l.clone(), grow(w, &l, &l, n, n)].concat());
    let all: Vec<Typed> = dedup([h1.clone(), grow(w, &small, &small, if th { LIN.len() } else { 2 }, if th { NON.len() } else { 2 })].concat());
    let sums: Vec<Typed> = h1.into_iter().map(|t| Typed { s: u8::MAX, t: At::Sum(std::sync::Arc::new(t.t)) }).collect();
    let all = [all, sums].concat();
    let many = all.len();
    check.suite(format!("typed, {}", w.name()), format!("{} expressions of height <= 2 (and the sums of those of height 1), value and derivative x 7 representations of the variables", many), move |c| {
        let t = c.pick(&all).clone();
        let (form, zero) = *c.pick(&FORMS);
        c.state((w.name(), &t.t, form, zero));
        let text = |d: bool| format!("{}{} in {} (representations {:?}{})", if d { "derivative of " } else { "" }, t.t.text(w), w.name(), form, if zero { ", zero" } else { "" });
        c.desc(|| text(false));
        let (v, d) = w.run(&t.t, form, zero);
        let want: Vec<usize> = if t.s == u8::MAX { vec![] } else { w.dims(t.s) };
        judge(c, &v, Some(&want), &|| format!("{} in {}", t.t.name(), w.name()), &|| text(false));
        // the value of a derivative may panic (C03's K03); its shape is C03's
        if d.is_ok() {
            judge(c, &d, None, &|| format!("derivative of {} in {}", t.t.name(), w.name()), &|| text(true));
        } else {
            c.skipped();
        }
    });
}

type Case = Box<dyn Fn(&mut Ctl) + Send + Sync>;
fn main() {
    let mut ck = Check::new("C07");
    let th = ck.thorough();
    ck.assume("an operator cannot tell an erased operand from a typed one (it is generic in its operands)");
    ck.assume("nothing is demanded of the other routes where evaluation itself reports an error; whether it should is C08's and C09's");
    // ---- run-time sizes
    let h1 = vec_trees(5, 1);
    let lens: Vec<usize> = if th { (0..=8).chain([15, 16, 17, 31, 32, 33, 64, 255, 256, 1000]).collect() } else { vec![0, 1, 2, 3, 4, 7, 16, 17, 33, 255] };
    let l = lens.clone();
    ck.suite("vectors", format!("{} expressions of height <= 1 x lengths {:?} x 9 representations, zero and non-zero; 6 entry points", h1.len(), lens), move |c| {
        let t = c.pick(&h1).clone();
        vec_contexts(c, &t, &l, &VFORMS)
    });
    let h2 = vec_trees(if th { 5 } else { 3 }, 2);
    let (forms, lens): (Vec<[u8; 3]>, Vec<usize>) = if th { (VFORMS.to_vec(), vec![2, 0, 1, 3]) } else { (vec![VFORMS[0], VFORMS[3], VFORMS[5]], vec![2, 0, 1]) };
    ck.suite("vectors, two operators", format!("{} expressions of height <= 2 x lengths {:?} of x, y, constant (and slot) x {} representations, zero and non-zero; 6 entry points", h2.len(), lens, forms.len()), move |c| {
        let t = c.pick(&h2).clone();
        vec_contexts(c, &t, &lens, &forms)
    });
    // ---- every operator over every kind
    let mut l: Vec<Case> = vec![];
    macro_rules! un { ($($A:ty, $d:expr;)*) => { $( l.push(Box::new(|c| unary::<$A>(c, &$d))); )* } }
    un!(f64, []; (f64, f64), [2]; [f64; 0], [0]; [f64; 1], [1]; [f64; 3], [3]; [f64; 17], [17]; [f64; 65], [65]; [[f64; 0]; 3], [3, 0]; [[f64; 3]; 0], [0, 3]; [[f64; 3]; 2], [2, 3]; [[f64; 1]; 1], [1, 1]; [[[f64; 3]; 2]; 1], [1, 2, 3];
        [[[[f64; 2]; 1]; 2]; 3], [3, 2, 1, 2]; [[[[[f64; 2]; 1]; 2]; 1]; 2], [2, 1, 2, 1, 2]; Vec<f64>, [0]; Vec<f64>, [1]; Vec<f64>, [2]; Vec<f64>, [5]; Vec<f64>, [16]; Vec<f64>, [129];);
    let n = l.len();
    ck.suite("unary", format!("33 operators over {} kinds: of a variable, of constants, and nested; 9 representations, zero and non-zero", n), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    let mut l: Vec<Case> = vec![];
    macro_rules! bi { ($($A:ty, $d:expr;)*) => { $( l.push(Box::new(|c| with_scalar::<$A, _, _>(c, &$d))); )* } }
    bi!(f64, []; [f64; 0], [0]; [f64; 1], [1]; [f64; 3], [3]; [f64; 17], [17]; [f64; 129], [129]; [[f64; 0]; 3], [3, 0]; [[f64; 3]; 2], [2, 3]; [[f64; 1]; 1], [1, 1]; [[[f64; 3]; 2]; 1], [1, 2, 3];
        [[[[f64; 2]; 1]; 2]; 3], [3, 2, 1, 2]; [[[[[f64; 2]; 1]; 2]; 1]; 2], [2, 1, 2, 1, 2]; Vec<f64>, [0]; Vec<f64>, [1]; Vec<f64>, [2]; Vec<f64>, [5]; Vec<f64>, [16]; Vec<f64>, [129];);
    l.push(Box::new(tuples));
    let n = l.len();
    ck.suite("binary", format!("Add, Sub, Mul, Div over {} kinds: with itself, with a scalar on either side, nested, constants; 9 representations, zero and non-zero", n), move |c| {
        let i = c.choose(l.len());
        l[i](c)
    });
    ck.suite("contractions", "36 pairs of kinds (all implemented rank pairs; sizes 0, 1, unequal, 16 and more) x 9 representations, zero and non-zero", contracts);
    // ---- typed worlds
    let ws: [&'static dyn World; 15] = [&by_scalar::W, &by_scalar_rank3::W, &by_scalar_tuple::W, &by_vector::W, &by_vector2::W, &by_vector1::W, &by_vector0::W, &by_matrix::W, &by_matrix_square::W, &by_rank3::W, &by_tuple::W, &tuple_by_vector::W, &by_scalar_large::W, &by_vector_large::W, &by_matrix_large::W];
    for w in ws {
        world_suite(&mut ck, w);
    }
    // ---- scalars
    let a = ast::Alphabet::full(0, vec![ast::x(), ast::y(), ast::k(2.0), ast::k(0.0)]);
    ck.suite("scalar expressions", format!("{}; 4 points, 3 representations, x or y missing or none", a.bound(2)), move |c| {
        let t = a.gen(c, 2);
        c.state(&t);
        c.desc(|| format!("{:?}", t));
        scalar(c, &*t.mk0().unwrap().0, &|| (t.shape(), format!("{:?}", t)), 0)
    });
    let a = ast::Alphabet::full(0, vec![ast::x(), ast::y(), ast::k(1.0)]);
    ck.suite("cached", format!("{}; every placement of cached nodes; slots empty, one filled, both filled", a.bound(1)), move |c| {
        let t = a.gen(c, 1);
        let v = c.choose(ast::cache_variants(&t));
        let t = ast::with_cache(t, v);
        let slots = c.choose(3) as u8;
        c.state((&t, slots));
        c.desc(|| format!("{:?}, {} slots filled", t, slots));
        scalar(c, &*t.mk0().unwrap().0, &|| (t.shape(), format!("{:?}, {} slots filled", t, slots)), slots)
    });
    let a = ast::Alphabet::full(1, vec![ast::x(), ast::y(), ast::k(2.0)]);
    ck.suite("scalar derivatives", format!("{}, targets x and y; 4 points, 3 representations", a.bound(2)), move |c| {
        let t = a.gen(c, 2);
        c.desc(|| format!("{:?}", t));
        let n = t.mk1().unwrap();
        for v in 0..2 {
            c.state((&t, v));
            scalar(c, &*n.0.a1(V(v)).0, &|| (format!("derivative of {}", t.shape()), format!("d/d{} of {:?}", V(v), t)), 0)
        }
    });
    let h = if th { 2 } else { 1 };
    let a = ast::Alphabet::full(2, vec![ast::x(), ast::y(), ast::k(2.0)]);
    ck.suite("scalar second derivatives", format!("{}, pairs of targets", a.bound(h)), move |c| {
        let t = a.gen(c, h);
        c.desc(|| format!("{:?}", t));
        let n = t.mk2().unwrap();
        for (u, v) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
            c.state((&t, u, v));
            scalar(c, &*n.0.a2(V(u)).0.a1(V(v)).0, &|| (format!("second derivative of {}", t.shape()), format!("d/d{} d/d{} of {:?}", V(v), V(u), t)), 0)
        }
    });
    ck.run()
}
