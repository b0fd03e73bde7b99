//! C08: incompatible run-time shapes give the documented error, never a panic.
use aegir::buffers::{shapes::*, ZipFold, ZipMap};
use mc_core::{engine::*, tens::*};
use mc_era::vecs::*;

fn agrees(a: f64, b: f64) -> bool {
    // exact, except that a lifted zero absorbs a NaN or an infinity (C06) and that exp and a
    // repeated sum may round
    a == b || a.is_nan() || b.is_nan() || a.is_infinite() || b.is_infinite() || (a - b).abs() <= 1e-9 * (a.abs() + b.abs() + 1.0)
}

/// One expression in one context: ask in all six ways and compare with the model.
fn judge(c: &mut Ctl, t: &Vt, n: &Any, k: &Consts, env: &Venv) {
    let full = t.model(k, env, false);
    let blind = if t.has_sum() { t.model(k, env, true) } else { full.clone() };
    let text = || format!("{} with lengths x {} y {} const {}{}, forms {:?}", t.text(), env.vecs[0].as_ref().map_or(0, Vec::len), env.vecs[1].as_ref().map_or(0, Vec::len), k.vec.len(), env.vecs[2].as_ref().map_or(String::new(), |v| format!(" cached {}", v.len())), env.form);
    c.state((t, env.vecs.iter().map(|v| v.as_ref().map(Vec::len)).collect::<Vec<_>>(), k.vec.len(), env.form));
    c.desc(text);
    for a in ask_any(n, env) {
        c.step(1);
        c.validated();
        let by_shape = a.what.starts_with("evaluate_shape");
        let like = |m: &M| match (m, &a.got) {
            (M::No(ok), Err(e)) => ok.contains(e),
            (m, Ok(g)) => m.dims().as_ref() == Some(&g.0),
            _ => false,
        };
        if by_shape && full != blind && !like(&full) && like(&blind) {
            c.count("answers for a sum that does not look at its operand", 1);
            continue;
        }
        match (&full, &a.got) {
            (M::No(ok), Ok(g)) => {
                let at = t.follow(&ok[0].path).map_or("?".into(), Vt::shape);
                c.fail(format!("{}: succeeds: {}", a.what, at), format!("{}: {} succeeds with shape {:?}, expected the error {:?}", text(), a.what, g.0, ok[0]));
            },
            (M::No(ok), Err(e)) => {
                if !ok.iter().any(|w| w == e) {
                    let at = t.follow(&e.path).map_or("?".into(), Vt::shape);
                    let kind = if ok.iter().any(|w| w.path == e.path) { "wrong shapes" } else { "wrong operator" };
                    c.fail(format!("{}: {}: {}", a.what, kind, at), format!("{}: {} reports {:?}, expected {}", text(), a.what, e, ok.iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>().join(" or ")));
                }
            },
            (_, Err(e)) => {
                let at = t.follow(&e.path).map_or("?".into(), Vt::shape);
                c.fail(format!("{}: fails although everything fits: {}", a.what, at), format!("{}: {} reports {:?}", text(), a.what, e));
            },
            (m, Ok((dims, vals))) => {
                let want = m.dims().unwrap();
                c.check(*dims == want, || (format!("{}: wrong length: {}", a.what, t.shape()), format!("{}: {} has shape {:?}, expected {:?}", text(), a.what, dims, want)));
                if let Some(v) = vals {
                    let w = match m {
                        M::S(x) => std::slice::from_ref(x),
                        M::V(v) => v,
                        M::No(_) => unreachable!(),
                    };
                    let ok = v.len() == w.len() && v.iter().zip(w).all(|(a, b)| agrees(*a, *b));
                    c.check(ok, || (format!("{}: wrong value: {}", a.what, t.shape()), format!("{}: {} is {:?}, expected {:?}", text(), a.what, v, w)));
                }
            },
        }
    }
}

/// Every context for the given lengths and representations.
fn context(c: &mut Ctl, t: &Vt, lens: &[usize], forms: &[[u8; 3]]) {
    let mut k = Consts { vec: vec![], sca: 1.5 };
    let form = *c.pick(forms);
    let zero = c.flag();
    let base = if zero { 0.0 } else { 2.0 };
    let ly = *c.pick(lens);
    let lx = *c.pick(lens);
    let lc = *c.pick(lens);
    let uses = |v: &Vt| uses(t, v);
    // what an expression does not mention cannot matter
    if (!uses(&Vt::Vec(0)) && (lx != lens[0] || form[0] != 0)) || (!uses(&Vt::Vec(1)) && (ly != lens[0] || form[1] != 0)) || (!uses(&Vt::CVec) && lc != lens[0]) || (!uses(&Vt::Sca) && form[2] != 0) || (zero && form == [0; 3]) {
        return;
    }
    k.vec = fill(lc, 0, 5.0);
    let mut env = Venv { vecs: [Some(fill(lx, form[0], base)), Some(fill(ly, form[1], if zero { 0.0 } else { 3.0 })), None], s: if zero && form[2] > 0 { 0.0 } else { 1.25 }, form };
    let n = t.mk(&k);
    judge(c, t, &n, &k, &env);
    if t.has_cached() {
        let l = *c.pick(lens);
        env.vecs[2] = Some(fill(l, 0, 7.0));
        judge(c, t, &n, &k, &env);
    }
}
fn uses(t: &Vt, v: &Vt) -> bool {
    t == v
        || match t {
            Vt::Un(_, a) | Vt::Sum(a) | Vt::Cached(a) => uses(a, v),
            Vt::Bi(_, a, b) => uses(a, v) || uses(b, v),
            _ => false,
        }
}
const FORMS: [[u8; 3]; 9] = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0], [2, 0, 0], [0, 2, 1], [1, 2, 1], [0, 0, 1], [1, 1, 1]];

fn trees(l0: Vec<Vt>, un: usize, cached: bool, height: usize) -> Vec<Vt> {
    let mut seen: std::collections::BTreeSet<Vt> = l0.iter().cloned().collect();
    let mut all = l0;
    for h in 0..height {
        let next = grow(&all, if h == 0 { un } else { un.min(2) }, cached);
        for t in next {
            if seen.insert(t.clone()) {
                all.push(t);
            }
        }
    }
    all
}

// ------------------------------------------------------------------ the buffers themselves
fn zips(c: &mut Ctl, max: usize) {
    let n = c.choose(max + 1);
    let m = c.choose(max + 1);
    let a: Vec<i64> = (0..n as i64).map(|i| 3 + i * i).collect();
    let b: Vec<i64> = (0..m as i64).map(|i| 100 + 7 * i).collect();
    c.state((n, m));
    c.desc(|| format!("vectors of lengths {} and {}", n, m));
    let f = |x: i64, y: i64| 1000 * x + y;
    let sh = |s: Result<Vec<i64>, IncompatibleShapes<SDynamic<1>>>| s.map_err(|e| (e.left.0[0], e.right.0[0]));
    let zip: Vec<i64> = a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect();
    let fit = |w: Vec<i64>| if n == m { Ok(w) } else { Err((n, m)) };
    let fold = a.zip_fold(&b, 17i64, |acc, (x, y)| acc.wrapping_mul(31).wrapping_add(f(x, y))).map(|x| vec![x]);
    let wf = a.iter().zip(&b).fold(17i64, |acc, (x, y)| acc.wrapping_mul(31).wrapping_add(f(*x, *y)));
    let got = [
        ("zip_map", sh(a.clone().zip_map(&b, f)), fit(zip.clone())),
        ("zip_map_id", sh(a.clone().zip_map_id(&b, f)), fit(zip)),
        ("zip_shape", sh(ZipMap::<Vec<i64>>::zip_shape(a.clone(), SDynamic([m]))), fit(a.clone())),
        ("zip_fold", sh(fold), fit(vec![wf])),
        ("dot", sh(a.zip_fold(&b, 0i64, |z, (x, y)| z + x * y).map(|x| vec![x])), fit(vec![a.iter().zip(&b).map(|(x, y)| x * y).sum()])),
    ];
    for (what, got, want) in got {
        c.step(1);
        c.check(got == want, || (format!("{}: {}", what, if n == m { "equal lengths" } else { "different lengths" }), format!("{} of vectors of lengths {} and {}: {:?}, expected {:?}", what, n, m, got, want)));
    }
    // scalars fit everything
    let s = 5i64;
    let e = |s: Result<Vec<i64>, IncompatibleShapes<SDynamic<1>, S0>>| s.ok();
    let r = |s: Result<Vec<i64>, IncompatibleShapes<S0, SDynamic<1>>>| s.ok();
    let got = [
        ("zip_map (vec, scalar)", e(a.clone().zip_map(&s, f)), a.iter().map(|x| f(*x, s)).collect::<Vec<_>>()),
        ("zip_map_id (vec, scalar)", e(a.clone().zip_map_id(&s, f)), a.iter().map(|x| f(*x, s)).collect()),
        ("zip_shape (vec, scalar)", e(ZipMap::<i64>::zip_shape(a.clone(), S0)), a.clone()),
        ("zip_map (scalar, vec)", r(s.zip_map(&b, f)), b.iter().map(|y| f(s, *y)).collect()),
        ("zip_map_id (scalar, vec)", r(s.zip_map_id(&b, f)), b.iter().map(|y| f(s, *y)).collect()),
        ("zip_shape (scalar, vec)", r(ZipMap::<Vec<i64>>::zip_shape(s, SDynamic([m]))), vec![s; m]),
    ];
    for (what, got, want) in got {
        c.step(1);
        c.check(got.as_ref() == Some(&want), || (what.to_string(), format!("{} at lengths {} and {}: {:?}, expected {:?}", what, n, m, got, want)));
    }
}
fn broadcast<const N: usize>(c: &mut Ctl, max: usize)
where SDynamic<N>: ShV {
    let a: [usize; N] = std::array::from_fn(|_| c.choose(max + 1));
    let b: [usize; N] = std::array::from_fn(|_| c.choose(max + 1));
    c.state((a, b));
    c.desc(|| format!("shapes {:?} and {:?}", a, b));
    c.step(4);
    let (sa, sb) = (SDynamic(a), SDynamic(b));
    let got = sa.broadcast(sb).map(|s| s.0).map_err(|e| (e.left.0, e.right.0));
    let want = if a == b { Ok(a) } else { Err((a, b)) };
    c.check(got == want, || (format!("broadcast: rank {}", N), format!("broadcast({:?}, {:?}) is {:?}, expected {:?}", a, b, got, want)));
    let got = sa.broadcast(S0).map(|s| s.0).ok();
    c.check(got == Some(a), || (format!("broadcast with S0: rank {}", N), format!("broadcast({:?}, S0) is {:?}", a, got)));
    let got = S0.broadcast(sa).map(|s| s.0).ok();
    c.check(got == Some(a), || (format!("broadcast of S0: rank {}", N), format!("broadcast(S0, {:?}) is {:?}", a, got)));
    let e = IncompatibleShapes { left: sa, right: sb }.reverse();
    c.check(e.left.0 == b && e.right.0 == a, || (format!("reverse: rank {}", N), format!("reverse of ({:?}, {:?}) is ({:?}, {:?})", a, b, e.left.0, e.right.0)));
    // the message carries both shapes, left first
    let text = IncompatibleShapes { left: sa, right: sb }.to_string();
    let (p, q) = (format!("{:?}", a), format!("{:?}", b));
    let ok = text.find(&p).map_or(false, |i| text[i + p.len()..].contains(&q));
    c.check(ok, || (format!("message: rank {}", N), format!("the error for ({:?}, {:?}) reads {:?}", a, b, text)));
}

fn main() {
    let mut check = Check::new("C08");
    check.assume("evaluating the shape of a sum (always a scalar) need not look at its operand");
    check.assume("when several operators have operands that do not fit, any innermost one may be reported");
    let th = check.thorough();
    let h1 = trees(leaves(), 5, true, 1);
    let lens: Vec<usize> = if th { (0..=8).chain([15, 16, 17, 31, 32, 33, 64, 255, 256, 1000]).collect() } else { vec![0, 1, 2, 3, 4, 7, 16, 17, 33, 255] };
    let l = lens.clone();
    check.suite("one operator", format!("{} expressions of height <= 1 x lengths {:?} x 9 representations, zero and non-zero; 6 entry points", h1.len(), lens), move |c| {
        let t = c.pick(&h1).clone();
        context(c, &t, &l, &FORMS)
    });
    let h2 = trees(leaves(), 5, true, 2);
    let (forms, lens): (Vec<[u8; 3]>, Vec<usize>) = if th { (FORMS.to_vec(), vec![2, 0, 1, 3]) } else { (FORMS[..4].to_vec(), vec![2, 0, 1]) };
    check.suite("two operators", format!("{} expressions of height <= 2 x lengths {:?} of x, y, constant (and slot) x {} representations, zero and non-zero; 6 entry points", h2.len(), lens, forms.len()), move |c| {
        let t = c.pick(&h2).clone();
        context(c, &t, &lens, &forms)
    });
    // errors travel through chains of any length unchanged
    let deep = if th { 5 } else { 4 };
    check.suite("chains", format!("the seven one-hole steps (op with a scalar or a vector on either side, unary, sum) up to {} deep around x + y", deep), move |c| {
        let mut t = Vt::Bi(c.choose(4) as u8, Box::new(Vt::Vec(0)), Box::new(Vt::Vec(1)));
        for _ in 0..deep {
            let b = Box::new(t.clone());
            t = match c.choose(7) {
                0 => break,
                1 => Vt::Bi(c.choose(4) as u8, b, Box::new(Vt::Sca)),
                2 => Vt::Bi(c.choose(4) as u8, Box::new(Vt::CSca), b),
                3 => Vt::Bi(c.choose(4) as u8, b, Box::new(Vt::Vec(0))),
                4 => Vt::Bi(c.choose(4) as u8, Box::new(Vt::Vec(1)), b),
                5 => Vt::Un(1, b),
                _ => Vt::Sum(b),
            };
        }
        let form = *c.pick(&FORMS[..4]);
        let (lx, ly) = *c.pick(&[(2, 3), (2, 2), (0, 1), (3, 2)]);
        let k = Consts { vec: vec![], sca: 1.5 };
        let env = Venv { vecs: [Some(fill(lx, form[0], 2.0)), Some(fill(ly, form[1], 3.0)), None], s: 1.25, form };
        judge(c, &t, &t.mk(&k), &k, &env)
    });
    let max = if th { 130 } else { 34 };
    check.suite("vectors", format!("zip_map, zip_map_id, zip_shape, zip_fold, dot; all pairs of lengths 0..={}", max), move |c| zips(c, max));
    let m = if th { 3 } else { 2 };
    check.suite("shapes", format!("SDynamic<1..=3>: all pairs with dimensions 0..={} (rank 1: 0..=40); broadcast, reverse and the message", m), move |c| match c.choose(3) {
        0 => broadcast::<1>(c, 40),
        1 => broadcast::<2>(c, m + 1),
        _ => broadcast::<3>(c, m),
    });
    check.run()
}
