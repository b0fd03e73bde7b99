//! Layouts of contexts: every struct layout within the bounds for the derive, every list of
//! (modifier, identifier) for `ctx_type!` and every list of kinds for `ctx!`.
#[derive(Clone, Copy, PartialEq)]
enum F {
    Plain(usize),
    Cache(usize, usize),   // kind, spelling of Option
    Generic,               // T
    GenericCache(usize),   // Option<T>
    Loose(usize),          // untagged
}
use F::*;
const KINDS: [&str; 8] = ["f64", "[f64; 2]", "(f64, f64)", "Vec<f64>", "[[f64; 3]; 2]", "f32", "[[[f64; 2]; 1]; 2]", "[f64; 0]"];
const OPTION: [&str; 4] = ["Option", "std::option::Option", "::core::option::Option", "::std::option::Option"];
const LOOSE: [(&str, &str); 4] = [("String", "String::from(\"note\")"), ("f64", "-7.5"), ("Option<f64>", "Some(-8.5)"), ("Vec<[u8; 2]>", "vec![[1, 2]]")];
const IDS: [&str; 5] = ["A", "B", "D", "Xy", "Θ"];
const NAMES: [[&str; 5]; 4] = [
    ["a", "b", "d", "xy", "θ"],
    ["b", "a", "xy", "d", "theta"],            // fields named after other identifiers
    ["fid", "value", "spec", "buf", "ident"],  // fields named after things in the generated code
    ["_0", "self_", "ctx", "r#type", "shape"],
];
pub struct Out {
    pub code: String,
    pub bodies: Vec<(usize, String)>,
}
impl Out {
    /// one derived struct
    fn derived(&mut self, suite: usize, fs: &[F], style: usize) {
        let k = self.bodies.len();
        let (mut params, mut args, mut body, mut init, mut slots, mut loose, mut text) = (vec![], vec![], String::new(), String::new(), String::new(), String::new(), vec![]);
        let mut id = 0;
        for (i, f) in fs.iter().enumerate() {
            let name = NAMES[(style + k) % NAMES.len()][i];
            let tag = IDS[id % 5];
            let vis = if (k + i) % 3 == 0 { "pub " } else { "" };
            let attr = |cache: bool| match ((style + i) % 4, cache) {
                (0, true) => format!("#[cache] #[id({})] ", tag),
                (1, true) => format!("#[id({})] #[cache] ", tag),
                (2, true) => format!("/// documented\n #[id({})] #[allow(dead_code)] #[cache] ", tag),
                (_, true) => format!("#[allow(dead_code)] #[cache] /** documented */ #[id({})] ", tag),
                (0, false) | (1, false) => format!("#[id({})] ", tag),
                (2, false) => format!("/// documented\n #[id({})] #[allow(dead_code)] ", tag),
                (_, false) => format!("#[allow(dead_code)] #[id({})] ", tag),
            };
            let mut gen = || {
                let t = format!("T{}", params.len());
                let kind = KINDS[[3, 0, 4, 2, 1][(k + i) % 5]];
                params.push(t.clone());
                args.push(kind);
                (t, kind)
            };
            let (ty, kind, cache) = match *f {
                Plain(n) => (KINDS[n].to_string(), KINDS[n], false),
                Cache(n, o) => (format!("{}<{}>", OPTION[o], KINDS[n]), KINDS[n], true),
                Generic => { let (t, kind) = gen(); (t, kind, false) }
                GenericCache(o) => { let (t, kind) = gen(); (format!("{}<{}>", OPTION[o], t), kind, true) }
                Loose(n) => {
                    text.push(format!("{}: {}", name, LOOSE[n].0));
                    body.push_str(&format!(" {}{}: {},\n", vis, name, LOOSE[n].0));
                    init.push_str(&format!("{}: {}, ", name, LOOSE[n].1));
                    loose.push_str(&format!(" && l.{} == {}", name, LOOSE[n].1));
                    continue;
                }
            };
            text.push(format!("{}{}: {}", attr(cache).replace("\n", " "), name, ty));
            body.push_str(&format!(" {}{}{}: {},\n", attr(cache), vis, name, ty));
            // a cache field starts empty or full by turns
            let full = (k + i) % 2 == 0;
            match (cache, full) {
                (false, _) => {
                    init.push_str(&format!("{}: val::<{}>({}), ", name, kind, id));
                    slots.push_str(&format!("plain({:?}, {}, |l| &mut l.{}, {}), ", tag, tag, name, id));
                }
                (true, f) => {
                    init.push_str(&if f { format!("{}: Some(val::<{}>({})), ", name, kind, id) } else { format!("{}: None, ", name) });
                    slots.push_str(&format!("cache({:?}, {}, |l| &mut l.{}, {}), ", tag, tag, name, if f { format!("Some({})", id) } else { "None".into() }));
                }
            }
            id += 1;
        }
        let (gp, ga) = if params.is_empty() { (String::new(), String::new()) } else { (format!("<{}>", params.join(", ")), format!("<{}>", args.join(", "))) };
        self.code.push_str(&format!("#[derive(Context)] pub struct L{}{} {{\n{}}}\n", k, gp, body));
        let text = format!("struct L{} {{ {} }}{}", gp, text.join(", "), if ga.is_empty() { ga.clone() } else { format!(" with {}", ga) });
        self.bodies.push((suite, format!("type L = L{}{}; run::<L>(c, {:?}, L {{ {} }}, vec![{}], |l| true{})", k, ga, text, init, slots, loose)));
    }
    /// one `ctx_type!`
    fn typed(&mut self, suite: usize, caches: &[bool], kinds: &[usize], style: usize) {
        let k = self.bodies.len();
        let names = NAMES[style % NAMES.len()];
        let decl: Vec<String> = caches.iter().enumerate().map(|(i, c)| format!("{}{}: {}", if *c { "cache " } else { "" }, names[i], IDS[i])).collect();
        let decl = format!("L{} {{ {}{} }}", k, decl.join(", "), if style % 2 == 1 { "," } else { "" });
        self.code.push_str(&format!("ctx_type!({});\n", decl));
        let (mut init, mut slots) = (String::new(), String::new());
        for (i, c) in caches.iter().enumerate() {
            let (name, kind, full) = (names[i], KINDS[kinds[i]], (k + i) % 2 == 0);
            if *c {
                init.push_str(&if full { format!("{}: Some(val::<{}>({})), ", name, kind, i) } else { format!("{}: None, ", name) });
                slots.push_str(&format!("cache({:?}, {}, |l| &mut l.{}, {}), ", IDS[i], IDS[i], name, if full { format!("Some({})", i) } else { "None".into() }));
            } else {
                init.push_str(&format!("{}: val::<{}>({}), ", name, kind, i));
                slots.push_str(&format!("plain({:?}, {}, |l| &mut l.{}, {}), ", IDS[i], IDS[i], name, i));
            }
        }
        let args: Vec<&str> = kinds.iter().map(|k| KINDS[*k]).collect();
        self.bodies.push((suite, format!("type L = L{}<{}>; run::<L>(c, {:?}, L {{ {} }}, vec![{}], |_| true)", k, args.join(", "), format!("ctx_type!({}) with <{}>", decl, args.join(", ")), init, slots)));
    }
    /// one `ctx!`
    fn literal(&mut self, suite: usize, kinds: &[usize], rot: usize) {
        let ids: Vec<&str> = (0..kinds.len()).map(|i| IDS[(i + rot) % 5]).collect();
        let decl: Vec<String> = kinds.iter().zip(&ids).enumerate().map(|(i, (k, id))| format!("{} = val::<{}>({})", id, KINDS[*k], i)).collect();
        let slots: Vec<String> = kinds.iter().zip(&ids).enumerate().map(|(i, (_, id))| format!("literal({:?}, {}, {})", id, id, i)).collect();
        self.bodies.push((suite, format!("let l = ctx!{{{}}}; run(c, {:?}, l, vec![{}], |_| true)", decl.join(", "), format!("ctx!{{{}}}", decl.join(", ")), slots.join(", "))));
    }
}
fn all<T: Copy>(l: &[T], n: usize) -> Vec<Vec<T>> {
    if n == 0 {
        return vec![vec![]];
    }
    all(l, n - 1).into_iter().flat_map(|v| l.iter().map(move |x| { let mut v = v.clone(); v.push(*x); v }).collect::<Vec<_>>()).collect()
}
pub fn text(deep: bool) -> String {
    let mut o = Out { code: String::new(), bodies: vec![] };
    let mut every: Vec<F> = (0..8).map(Plain).collect();
    every.extend((0..8).map(|k| Cache(k, 0)));
    every.extend([Cache(0, 1), Cache(1, 2), Cache(2, 3), Cache(3, 1), Generic, GenericCache(0), GenericCache(1)]);
    every.extend((0..4).map(Loose));
    if !deep {
        for f in &every {
            for style in 0..4 {
                o.derived(0, &[*f], style);
            }
        }
        o.derived(0, &[], 0);
        for (i, v) in all(&every, 2).into_iter().enumerate() {
            o.derived(1, &v, i / 27);
        }
        for (i, v) in all(&[Plain(0), Plain(3), Cache(0, 0), Cache(1, 0), Generic, Loose(1)], 3).into_iter().enumerate() {
            o.derived(2, &v, i / 6);
        }
        for (i, v) in all(&[Plain(0), Cache(0, 0), Loose(1)], 4).into_iter().enumerate() {
            o.derived(3, &v, i / 3);
        }
        for n in 1..=4 {
            for (i, m) in all(&[false, true], n).into_iter().enumerate() {
                for (j, k) in all(&[0, 1, 3, 2][..[4, 3, 2, 1][n - 1]], n).into_iter().enumerate() {
                    o.typed(4, &m, &k, i + j);
                }
            }
        }
        for n in 1..=3 {
            for (j, k) in all(&[0, 1, 2, 3, 4][..[5, 5, 3][n - 1]], n).into_iter().enumerate() {
                o.literal(5, &k, j);
            }
        }
    } else {
        for (i, v) in all(&[Plain(0), Plain(1), Plain(3), Cache(0, 0), Cache(2, 0), GenericCache(0), Loose(0), Loose(2)], 3).into_iter().enumerate() {
            o.derived(2, &v, i / 8);
        }
        for (i, v) in all(&[Plain(0), Cache(0, 0), Generic, Loose(1)], 4).into_iter().enumerate() {
            o.derived(3, &v, i / 4);
        }
        for (i, v) in all(&[Plain(0), Cache(0, 0), Loose(1)], 5).into_iter().enumerate() {
            o.derived(3, &v, i / 3);
        }
        for (i, m) in all(&[false, true], 5).into_iter().enumerate() {
            o.typed(4, &m, &[0, 1, 3, 2, 4], i);
            o.typed(4, &m, &[0, 0, 0, 0, 0], i);
        }
        for (j, k) in all(&[0, 1, 3], 4).into_iter().enumerate() {
            o.literal(5, &k, j);
        }
        for j in 0..5 {
            o.literal(5, &[j, (j + 1) % 5, 0, 0, 3], j);
        }
    }
    let mut s = o.code;
    for (k, (_, b)) in o.bodies.iter().enumerate() {
        s.push_str(&format!("fn go{}(c: &mut Ctl) {{ {} }}\n", k, b));
    }
    s.push_str(&format!("pub const ALL: [(usize, fn(&mut Ctl)); {}] = [", o.bodies.len()));
    for (k, (suite, _)) in o.bodies.iter().enumerate() {
        s.push_str(&format!("({}, go{}), ", suite, k));
    }
    s.push_str("];\n");
    s
}
