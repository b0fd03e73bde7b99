//! Formulas of the DSL and the method calls they stand for.
#[derive(Clone)]
pub enum Fo {
    /// source, method-call text, value text (if it is a plain f64 expression), kind
    Leaf(String, String, Option<String>, Kind),
    Bin(usize, Box<Fo>, Box<Fo>),
    /// redundant parentheses
    Par(Box<Fo>),
}
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Other,
    /// literally 2 or 2.0
    Two,
    /// some other spelling of two (or a parenthesised two): a square or a power
    Twoish,
}
use Fo::*;
const OPS: [(&str, &str, u8); 4] = [("+", "add", 2), ("-", "sub", 2), ("*", "mul", 3), ("^", "pow", 1)];

fn prec(f: &Fo) -> u8 {
    match f {
        Bin(o, ..) => OPS[*o].2,
        _ => 9,
    }
}
/// infix text, parentheses where precedence and left associativity need them (or everywhere)
pub fn infix(f: &Fo, full: bool) -> String {
    match f {
        Leaf(s, ..) => s.clone(),
        Par(f) => format!("({})", infix(f, full)),
        Bin(o, l, r) => {
            let p = OPS[*o].2;
            let wrap = |f: &Fo, need: bool| if need || (full && prec(f) < 9) { format!("({})", infix(f, full)) } else { infix(f, full) };
            format!("{} {} {}", wrap(l, prec(l) < p), OPS[*o].0, wrap(r, prec(r) <= p))
        },
    }
}
fn twoish(f: &Fo) -> bool {
    match f {
        Leaf(_, _, _, k) => *k != Kind::Other,
        Par(f) => twoish(f),
        _ => false,
    }
}
pub fn ambiguous(f: &Fo) -> bool {
    match f {
        Leaf(..) => false,
        Par(f) => ambiguous(f),
        Bin(o, l, r) => (*o == 3 && twoish(r) && !matches!(**r, Leaf(_, _, _, Kind::Two))) || ambiguous(l) || ambiguous(r),
    }
}
pub fn method(f: &Fo, square: bool) -> String {
    match f {
        Leaf(_, m, ..) => m.clone(),
        Par(f) => method(f, square),
        Bin(3, l, r) if matches!(**r, Leaf(_, _, _, Kind::Two)) || (square && twoish(r)) => format!("{}.squared()", method(l, square)),
        Bin(o, l, r) => format!("{}.{}({})", method(l, square), OPS[*o].1, method(r, square)),
    }
}
pub fn value(f: &Fo) -> Option<String> {
    Some(match f {
        Leaf(_, _, v, _) => v.clone()?,
        Par(f) => value(f)?,
        Bin(3, l, r) => format!("f64::powf({}, {})", value(l)?, value(r)?),
        Bin(o, l, r) => format!("({} {} {})", value(l)?, OPS[*o].0, value(r)?),
    })
}
fn var(n: &str) -> Fo { Leaf(n.into(), n.into(), Some(format!("v.{}", n)), Kind::Other) }
fn lit(s: &str, k: Kind) -> Fo {
    let float = s.contains(['.']) || s.contains("f64") || (s.contains('e') && !s.starts_with("0x"));
    let t = if float { "f64" } else { "i64" };
    Leaf(s.into(), format!("aegir::meta::Constant::<{}>({})", t, s), if float { Some(format!("({}f64)", s.trim_end_matches("f64").trim_end_matches('_').trim_end_matches('.'))) } else { None }, k)
}
fn complex() -> Vec<Fo> {
    let c = |a: &str, b: &str, v: Option<&str>| Leaf(a.into(), b.into(), v.map(String::from), Kind::Other);
    vec![
        c("id(x - y)", "id(x.sub(y))", Some("(v.x - v.y)")),
        c("id(2.0 * (x + y) ^ 2.0)", "id(aegir::meta::Constant::<f64>(2.0).mul(x.add(y)).squared())", Some("f64::powf(2.0 * (v.x + v.y), 2.0)")),
        c("two(x ^ y, y ^ 2)", "two(x.pow(y), y.squared())", Some("(f64::powf(v.x, v.y) - v.y * v.y)")),
        c("x.mul(y - z)", "x.mul(y.sub(z))", Some("(v.x * (v.y - v.z))")),
        c("x.mul(2.0 - z).sub(y ^ 2)", "x.mul(aegir::meta::Constant::<f64>(2.0).sub(z)).sub(y.squared())", Some("(v.x * (2.0 - v.z) - v.y * v.y)")),
        c("(x + y).squared()", "x.add(y).squared()", Some("f64::powf(v.x + v.y, 2.0)")),
        c("((x ^ 2) - y).abs()", "x.squared().sub(y).abs()", Some("(v.x * v.x - v.y).abs()")),
        c("X.into_var()", "X.into_var()", Some("v.x")),
        c("aegir::ids::Y.into_var().neg()", "Y.into_var().neg()", Some("(-v.y)")),
        c("ops::Sigmoid(x - z)", "ops::Sigmoid(x.sub(z))", None),
        c("{ x - y * z }", "x.sub(y.mul(z))", Some("(v.x - v.y * v.z)")),
        c("{ let t = x - y; t * t }", "{ let t = x.sub(y); t.mul(t) }", Some("((v.x - v.y) * (v.x - v.y))")),
        c("{ let t = 2.0 * x; { let u = t ^ 2; u - t } }", "{ let t = aegir::meta::Constant::<f64>(2.0).mul(x); { let u = t.squared(); u.sub(t) } }", Some("(4.0 * v.x * v.x - 2.0 * v.x)")),
        c("{ 3.0 * x }", "aegir::meta::Constant::<f64>(3.0).mul(x)", Some("(3.0 * v.x)")),
        c("({ 3.0 } - x)", "aegir::meta::Constant::<f64>(3.0).sub(x)", Some("(3.0 - v.x)")),
        c("if flag { x - 4.0 } else { x - 3.0 }", "{ if flag { x.sub(aegir::meta::Constant::<f64>(4.0)) } else { x.sub(aegir::meta::Constant::<f64>(3.0)) } }", None),
        c("match flag { true => 4.0 * x, _ => 3.0 * x }", "{ match flag { true => aegir::meta::Constant::<f64>(4.0).mul(x), _ => aegir::meta::Constant::<f64>(3.0).mul(x) } }", None),
        c("(|t: Variable<Z>| t - x * y)(z)", "(|t: Variable<Z>| t.sub(x.mul(y)))(z)", None),
        c("pair.0", "pair.0", Some("v.x")),
        c("pair.1.sub(pair.0 ^ 2)", "pair.1.sub(pair.0.squared())", Some("(v.y - v.x * v.x)")),
        c("(x, y - z).1", "y.sub(z)", Some("(v.y - v.z)")),
        c("ops::Double(ops::Negate(x * y))", "ops::Double(ops::Negate(x.mul(y)))", Some("(-2.0 * v.x * v.y)")),
        c("unsafe { x - y }", "x.sub(y)", Some("(v.x - v.y)")),
    ]
}
fn literals() -> Vec<Fo> {
    let mut v = vec![lit("2", Kind::Two), lit("2.0", Kind::Two)];
    v.extend(["2.", "2.0f64", "2i64", "2_i64", "0x2", "2.00", "2e0", "0b10"].map(|s| lit(s, Kind::Twoish)));
    v.extend(["0", "1", "3", "10", "1_000", "9223372036854775807", "0x1F", "7i64", "0.0", "1.0", "0.5", "3.0", "10.25", "1e3", "1.5e-3", "2.5", "20.0", "22.0", "12.0", "2.01", "2.5f64", "22", "20", "12"].map(|s| lit(s, Kind::Other)));
    v
}
fn bin(o: usize, l: &Fo, r: &Fo) -> Fo { Bin(o, Box::new(l.clone()), Box::new(r.clone())) }
fn par(f: &Fo) -> Fo { Par(Box::new(f.clone())) }

/// all trees with these leaves in order
fn shapes(l: &[Fo], out_ops: &[usize]) -> Vec<Fo> {
    // out_ops: operator between leaf i and leaf i + 1
    if l.len() == 1 {
        return vec![l[0].clone()];
    }
    let mut v = vec![];
    for k in 0..out_ops.len() {
        for a in shapes(&l[..=k], &out_ops[..k]) {
            for b in shapes(&l[k + 1..], &out_ops[k + 1..]) {
                v.push(bin(out_ops[k], &a, &b));
            }
        }
    }
    v
}
fn words(k: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..k {
        v = v.iter().flat_map(|w: &Vec<usize>| (0..4).map(move |o| [w.clone(), vec![o]].concat())).collect();
    }
    v
}
struct Out {
    s: String,
    fns: usize,
    inner: usize,
    seen: std::collections::BTreeSet<String>,
}
impl Out {
    fn case(&mut self, suite: usize, f: &Fo, full: bool, eval: bool) {
        let src = infix(f, full);
        if !self.seen.insert(src.clone()) {
            return;
        }
        if self.inner == 0 {
            if self.fns > 0 {
                self.s.push_str("    out\n}\n");
            }
            self.s.push_str(&format!("#[rustfmt::skip]\nfn part{}() -> Vec<Case> {{\n    let mut out: Vec<Case> = vec![];\n", self.fns));
            self.fns += 1;
        }
        self.inner = (self.inner + 1) % 40;
        let alt = ambiguous(f);
        let a = if alt { format!("sig(&{{ {} }})", method(f, true)) } else { "None".into() };
        let val = match (eval, value(f)) {
            (true, Some(v)) => format!("{{ let v = v.v; num(aegir!({}), {}) }}", src, v),
            _ => "None".into(),
        };
        self.s.push_str(&format!("    out.push(Case {{ suite: {}, text: {:?}, run: |v| {{ let Vars {{ x, y, z, w, u, pair, flag, .. }} = *v; (sig(&aegir!({})), sig(&{{ {} }}), {}, {}) }} }});\n", suite, src, src, method(f, false), a, val));
    }
    fn end(mut self) -> String {
        self.s.push_str("    out\n}\npub fn parts() -> Vec<fn() -> Vec<Case>> { vec![");
        for i in 0..self.fns {
            self.s.push_str(&format!("part{}, ", i));
        }
        self.s.push_str("] }\n");
        self.s
    }
}
fn new() -> Out { Out { s: String::new(), fns: 0, inner: 0, seen: Default::default() } }
const NAMES: [&str; 5] = ["x", "y", "z", "w", "u"];
pub fn text() -> (String, String) {
    let mut o = new();
    let (x, y) = (var("x"), var("y"));
    let lits = literals();
    let cs = complex();
    // 0: one operand
    for f in lits.iter().chain(&cs).chain([&x]) {
        o.case(0, f, false, true);
        o.case(0, &par(f), false, true);
        o.case(0, &par(&par(f)), false, false);
    }
    // 1: one operator, every operand (and redundant parentheses) on either side
    let block = cs[10].clone();
    let few = [x.clone(), y.clone(), lits[1].clone(), lits[0].clone(), block];
    for op in 0..4 {
        for f in lits.iter().chain(&cs).chain([&x]) {
            for g in &few {
                for (a, b) in [(f, g), (g, f)] {
                    // an `if`, `match` or block on the left of an operator at the start of a statement
                    // is not an operand in Rust; inside the macro it is an expression
                    o.case(1, &bin(op, a, b), false, true);
                    o.case(1, &bin(op, &par(a), b), false, false);
                    o.case(1, &bin(op, a, &par(b)), false, false);
                }
            }
        }
    }
    // 2: two operators, variables and literals in every position, every grouping
    for w in words(2) {
        for k in 0..125 {
            let pick = |i: usize, d: usize| match d {
                0 => var(NAMES[i]),
                1 => lits[1].clone(),
                2 => lit("3.0", Kind::Other),
                3 => lits[0].clone(),
                _ => lit("5", Kind::Other),
            };
            let l = [pick(0, k % 5), pick(1, k / 5 % 5), pick(2, k / 25)];
            if [k % 5, k / 5 % 5, k / 25].iter().filter(|d| **d > 2).count() > 1 {
                continue;
            }
            for f in shapes(&l, &w) {
                o.case(2, &f, false, true);
                o.case(2, &f, true, false);
            }
        }
    }
    // 3: three operators
    for w in words(3) {
        for k in 0..5 {
            let l: Vec<Fo> = (0..4).map(|i| if i + 1 == k { lits[1].clone() } else { var(NAMES[i]) }).collect();
            for f in shapes(&l, &w) {
                o.case(3, &f, false, k == 0);
                if k == 0 {
                    o.case(3, &f, true, false);
                }
            }
        }
    }
    // nested: a block or call in every position of two operators
    for w in words(2) {
        for (ci, c) in cs.iter().enumerate() {
            let pos = ci % 3;
            let l: Vec<Fo> = (0..3).map(|i| if i == pos { c.clone() } else { var(NAMES[i]) }).collect();
            for f in shapes(&l, &w) {
                o.case(4, &f, false, false);
            }
        }
    }
    let quick = o.end();
    let mut o = new();
    for w in words(4) {
        for k in 0..2 {
            let l: Vec<Fo> = (0..5).map(|i| if k == 1 && i % 2 == 1 { lits[1].clone() } else { var(NAMES[i]) }).collect();
            for f in shapes(&l, &w) {
                o.case(5, &f, false, false);
            }
        }
    }
    (quick, o.end())
}
