//! C03: the adjoint of a tensor expression has shape value ++ target and is the Jacobian.
#![recursion_limit = "512"]
#[macro_use]
#[path = "../arr.rs"]
mod arr;
#[path = "../names.rs"]
mod names;
include!("../worlds.rs");
use aegir::{buffers::Buffer, ids::{X, Y}, meta::Constant, ops, Differentiable, Identifier};
use arr::*;
use mc_era::refr::Mg;

fn agrees(w: &Mg, g: f64) -> bool { w.agrees(g) || (w.v == g) }

/// The derivative of one expression in one context.
fn judge(c: &mut Ctl, w: &dyn World, t: &At, form: [u8; 2], zero: bool) {
    let (x, y) = inputs(w, form, zero);
    let r = eval(t, w, &x, &y);
    let text = || format!("{}; {} (representations {:?}{})", w.name(), t.text(w), form, if zero { ", zero" } else { "" });
    c.desc(text);
    let want = join(&r.tan, &x.dims, &r.val.dims);
    if want.data.iter().chain(&r.val.data).any(|m| !m.sharp()) {
        return c.skipped();
    }
    c.step(2);
    c.state((w.name(), t, form, zero));
    c.outcome((r.site, want.dims.clone(), want.data.iter().map(|m| m.v == 0.0).collect::<Vec<_>>()));
    let (_, got) = w.run(t, form, zero);
    let at = format!("{} of rank {} by rank {}", t.name(), r.val.dims.len(), x.dims.len());
    let sum = matches!(t, At::Sum(_));
    let known = r.site && match (&got, &r.alt) {
        (Err(_), None) => true,
        (Ok(Got { ev: Ok(g), .. }), Some(alt)) => {
            let alt = join(alt, &x.dims, &r.val.dims);
            alt.dims == g.dims && alt.data.iter().zip(&g.data).all(|(w, g)| !w.ok || agrees(w, *g))
        },
        _ => false,
    };
    let unreduced = |g: &T<f64>| match t {
        At::Sum(a) => {
            let a = eval(a, w, &x, &y);
            let u = join(&a.tan, &x.dims, &a.val.dims);
            !a.val.dims.is_empty() && u.dims == g.dims && u.data.iter().zip(&g.data).all(|(w, g)| agrees(w, *g))
        },
        _ => false,
    };
    let good = matches!(&got, Ok(Got { ev: Ok(g), .. }) if g.dims == want.dims && want.data.iter().zip(&g.data).all(|(w, g)| agrees(w, *g)));
    c.validated();
    if good {
        return;
    }
    let wv: Vec<f64> = want.data.iter().map(|m| m.v).collect();
    match &got {
        Ok(Got { ev: Ok(g), .. }) if sum && unreduced(g) => c.fail("the derivative of a sum is not summed", format!("{}: {:?} {:?}, expected {:?} {:?}", text(), g.dims, g.data, want.dims, wv)),
        _ if sum => c.fail(format!("derivative of {}", at), format!("{}: {:?}, expected {:?}", text(), got, wv)),
        Ok(_) if known => c.fail("product rule contracts the wrong axis of the left derivative", format!("{}: {:?}, expected {:?}", text(), got.map(|g| g.ev), wv)),
        Err(e) if known => c.fail("product rule contracts the wrong axis of the left derivative: panics", format!("{}: {}", text(), e)),
        Err(e) => c.fail(format!("derivative panics: {}", at), format!("{}: {}", text(), e)),
        Ok(Got { ev: Err(e), .. }) => c.fail(format!("derivative fails: {}", at), format!("{}: {:?}", text(), e)),
        Ok(Got { ev: Ok(g), .. }) if g.dims != want.dims => c.fail(format!("shape of the derivative: {}", at), format!("{}: {:?}, expected {:?}", text(), g.dims, want.dims)),
        Ok(Got { ev: Ok(g), .. }) => c.fail(format!("entries of the derivative: {}", at), format!("{}: {:?}, expected {:?}", text(), g.data, wv)),
    }
}
const FORMS: [([u8; 2], bool); 7] = [([0, 0], false), ([1, 0], false), ([0, 1], false), ([1, 1], false), ([2, 2], false), ([1, 0], true), ([0, 1], true)];

fn one(check: &mut Check, w: &'static dyn World) {
    let th = check.thorough();
    let l = leaves(w);
    let h1 = dedup([l.clone(), grow(w, &l, &l, LIN.len(), NON.len())].concat());
    let all: Vec<At> = {
        let n = if th { 3 } else { 1 };
        let small = dedup([l.clone(), grow(w, &l, &l, n, n)].concat());
        let h2 = if th { grow(w, &small, &small, LIN.len(), NON.len()) } else { grow(w, &small, &small, 2, 2) };
        dedup([h1.clone(), h2].concat()).into_iter().map(|t| t.t).collect()
    };
    let sums: Vec<At> = h1.into_iter().map(|t| At::Sum(std::sync::Arc::new(t.t))).collect();
    let (n, m) = (all.len(), sums.len());
    check.suite(format!("derivatives, {}", w.name()), format!("{} expressions ({}) x 7 representations of the variables", n, if th { "all of height 2, every operator over operands from 3 linear, 3 other and every binary operator" } else { "all of height 2 over operands from 1 linear, 1 other and every binary operator" }), move |c| {
        let t = c.pick(&all).clone();
        let (form, zero) = *c.pick(&FORMS);
        judge(c, w, &t, form, zero)
    });
    check.suite(format!("sums, {}", w.name()), format!("the sum of each of {} expressions of height <= 1 x 7 representations", m), move |c| {
        let t = c.pick(&sums).clone();
        let (form, zero) = *c.pick(&FORMS);
        judge(c, w, &t, form, zero)
    });
}
fn main() {
    let mut check = Check::new("C03");
    check.assume("an operator cannot tell an erased operand from a typed one (it is generic in its operands)");
    let ws: [&'static dyn World; 15] = [&by_scalar::W, &by_scalar_rank3::W, &by_scalar_tuple::W, &by_vector::W, &by_vector2::W, &by_vector1::W, &by_vector0::W, &by_matrix::W, &by_matrix_square::W, &by_rank3::W, &by_tuple::W, &tuple_by_vector::W, &by_scalar_large::W, &by_vector_large::W, &by_matrix_large::W];
    for w in ws {
        one(&mut check, w);
    }
    check.suite("second derivatives", "48 expressions that are linear in the target: variables, constants, sums; value ranks 0..=3, target ranks 0..=2, total rank <= 5", |c| second(c));
    let l = names::arrays();
    check.suite("same name", format!("{} array expressions over two identifiers that print alike (of two types, and of one type), derivatives by both", l.len()), move |c| names::values(c, &l));
    check.run()
}
/// The derivative of the derivative of something linear: zero, of shape value ++ target ++ target.
fn twice<A: Kind<Field = f64>, B: Kind<Field = f64>, D2: Kind<Field = f64>, N>(c: &mut Ctl, what: &str, n: N)
where
    N: Differentiable<X>,
    N::Adjoint: Differentiable<X>,
    <N::Adjoint as Differentiable<X>>::Adjoint: NF<Two<A, B>, D2>,
    N: NF<Two<A, B>, B>,
    A: DimsOf,
    B: DimsOf,
    B::Shape: ShV,
    D2::Shape: ShV,
{
    let form = *c.pick(&[[0u8, 0], [1, 1], [2, 2]]);
    let (da, db) = (A::dims_of(), B::dims_of());
    let env = Two { x: A::of(&entries(&da, 0, form[0], false)), y: B::of(&entries(&db, 3, form[1], false)), form };
    c.state((what, &da, &db, form));
    c.desc(|| format!("d2 {} / dx2, x of shape {:?}, value of shape {:?}", what, da, db));
    c.step(1);
    let got = guarded(|| ask::<Two<A, B>, D2>(&n.adjoint(X).adjoint(X), &env));
    let want = [db.clone(), da.clone(), da.clone()].concat();
    let ok = matches!(&got, Ok(Got { ev: Ok(g), sp: Ok((sd, sg)), sh: Ok(sh) }) if g.dims == want && g.data.iter().all(|v| *v == 0.0) && *sd == want && sg == g && *sh == want);
    c.check(ok, || (format!("second derivative of {} of rank {} by rank {}", what, db.len(), da.len()), format!("{:?}, expected zeroes of shape {:?}", got, want)));
}
fn second(c: &mut Ctl) {
    macro_rules! cases {
        ($($A:ty, $B:ty => $D2:ty;)*) => {{
            let k = c.choose([$(stringify!($A)),*].len());
            let mut i = 0;
            $(
                if k == i {
                    match c.choose(4) {
                        0 => twice::<$A, $B, $D2, _>(c, "y", Y.into_var()),
                        1 => {
                            let dims = <$B as DimsOf>::dims_of();
                            twice::<$A, $B, $D2, _>(c, "a constant", Constant(<$B as Kind>::of(&entries(&dims, 5, 0, false))))
                        },
                        2 => twice::<$A, $B, $D2, _>(c, "y - -y", ops::Sub(Y.into_var(), ops::Negate(Y.into_var()))),
                        _ => twice::<$A, $B, $D2, _>(c, "2y + 1", ops::AddOne(ops::Double(Y.into_var()))),
                    }
                    return;
                }
                i += 1;
            )*
            let _ = i;
        }};
    }
    cases! {
        f64, f64 => f64;
        f64, [f64; 3] => [f64; 3];
        f64, (f64, f64) => (f64, f64);
        f64, [[f64; 3]; 2] => [[f64; 3]; 2];
        f64, [[[f64; 3]; 2]; 4] => [[[f64; 3]; 2]; 4];
        [f64; 2], f64 => [[f64; 2]; 2];
        [f64; 3], [f64; 2] => [[[f64; 3]; 3]; 2];
        [f64; 2], [[f64; 3]; 4] => [[[[f64; 2]; 2]; 3]; 4];
        [f64; 2], [[[f64; 1]; 3]; 2] => [[[[[f64; 2]; 2]; 1]; 3]; 2];
        [f64; 3], (f64, f64) => [[[f64; 3]; 3]; 2];
        [[f64; 3]; 2], f64 => [[[[f64; 3]; 2]; 3]; 2];
        [[f64; 3]; 2], [f64; 4] => [[[[[f64; 3]; 2]; 3]; 2]; 4];
    }
}
