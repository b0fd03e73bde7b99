//! Declarations of identifiers: every list of declaration forms within the bounds.
/// (suffix after the name, what it displays; None: its own name)
const FORMS: [(&str, Option<&str>); 16] = [
    ("", None),
    ("::s", Some("s")),
    ("::\"text\"", Some("text")),
    ("::long_symbol_2", Some("long_symbol_2")),
    ("::\"x y\"", Some("x y")),
    ("::\"\\u{3b8}\"", Some("\u{3b8}")),
    ("::\"\u{3b8}\u{2032}\"", Some("\u{3b8}\u{2032}")),
    ("::\"{\"", Some("{")),
    ("::\"{}\"", Some("{}")),
    ("::\"{{x}}\"", Some("{{x}}")),
    ("::\"x_{1}\"", Some("x_{1}")),
    ("::\"a\\\\b\\\"c\"", Some("a\\b\"c")),
    ("::\"\"", Some("")),
    ("::r\"\\alpha\"", Some("\\alpha")),
    ("::Upper", Some("Upper")),
    ("::\"%s\\n\"", Some("%s\n")),
];
const IDS: [&str; 6] = ["First", "B", "Third_3", "Δ", "E5", "Type_id"];
pub fn text() -> String {
    let mut s = String::new();
    let mut mods = vec![];
    let mut list = |s: &mut String, forms: &[usize], names: &[String]| {
        let k = mods.len();
        let decl = forms.iter().zip(names).map(|(f, n)| format!("{}{}", n, FORMS[*f].0)).collect::<Vec<_>>().join(", ");
        s.push_str(&format!("pub mod m{} {{ use aegir::ids; ids!({});\n pub fn go(c: &mut super::Ctl) {{ let t = {:?};\n", k, decl, decl));
        for (f, n) in forms.iter().zip(names) {
            s.push_str(&format!("super::show(c, t, {}, {:?});\n", n, FORMS[*f].1.map_or(n.clone(), String::from)));
        }
        for a in names {
            for b in names {
                s.push_str(&format!("super::same(c, t, {:?}, {:?}, {} == {}, {} != {});\n", a, b, a, b, a, b));
            }
        }
        s.push_str("} }\n");
        mods.push(k);
    };
    let names: Vec<String> = IDS.iter().map(|s| s.to_string()).collect();
    // one and two declarations, all forms
    for f in 0..16 {
        for n in &names {
            list(&mut s, &[f], &[n.clone()]);
        }
        for g in 0..16 {
            list(&mut s, &[f, g], &names[..2]);
        }
    }
    // three and four, fewer forms
    for k in 0..64 {
        list(&mut s, &[[0, 1, 2, 8][k % 4], [0, 1, 2, 8][k / 4 % 4], [0, 1, 2, 8][k / 16]], &names[1..4]);
    }
    for k in 0..81 {
        list(&mut s, &[[0, 3, 7][k % 3], [0, 3, 7][k / 3 % 3], [0, 3, 7][k / 9 % 3], [0, 3, 7][k / 27]], &names[2..6]);
    }
    // names that are prefixes of each other or equal to another's symbol
    list(&mut s, &[0, 0, 0, 0], &["A".into(), "AA".into(), "AAA".into(), "a".into()].map(|s: String| s));
    list(&mut s, &[1, 1, 0], &["P".into(), "Q".into(), "s".into()].map(|s: String| s));
    // long lists
    for n in [5usize, 8, 16, 17, 33, 70] {
        let names: Vec<String> = (0..n).map(|i| format!("N{}", i)).collect();
        let forms: Vec<usize> = (0..n).map(|i| i % 16).collect();
        list(&mut s, &forms, &names);
    }
    s.push_str(&format!("pub const MODS: [fn(&mut Ctl); {}] = [", mods.len()));
    for m in mods {
        s.push_str(&format!("m{}::go, ", m));
    }
    s.push_str("];\n");
    // the predefined ones
    let greek = ["Alpha", "Beta", "Gamma", "Delta", "Epsilon", "Zeta", "Eta", "Theta", "Iota", "Kappa", "Lambda", "Mu", "Nu", "Xi", "Omicron", "Pi", "Rho", "Sigma", "Tau", "Upsilon", "Phi", "Chi", "Psi", "Omega"];
    let letters = ["αΑ", "βΒϐ", "γΓ", "δΔ", "εΕϵ", "ζΖ", "ηΗ", "θΘϑ", "ιΙ", "κΚϰ", "λΛ", "μΜµ", "νΝ", "ξΞ", "οΟ", "πΠϖ", "ρΡϱ", "σΣς", "τΤ", "υΥ", "φΦϕ", "χΧ", "ψΨ", "ωΩ"];
    let mut all: Vec<(String, String)> = (b'A'..=b'Z').map(|c| ((c as char).to_string(), (c as char).to_ascii_lowercase().to_string() + &(c as char).to_string())).collect();
    all.extend(greek.iter().zip(letters).map(|(g, l)| (g.to_string(), l.to_string())));
    s.push_str("pub mod predefined { use aegir::ids::*;\n pub fn go(c: &mut super::Ctl) { let k = c.choose(51); match k {\n");
    for (k, (n, l)) in all.iter().enumerate() {
        s.push_str(&format!("{} => {{ super::letter(c, {}, {:?}, {:?});\n", k, n, n, l));
        for (m, _) in &all {
            s.push_str(&format!("super::same(c, \"aegir::ids\", {:?}, {:?}, {} == {}, {} != {});\n", n, m, n, m, n, m));
        }
        s.push_str("},\n");
    }
    s.push_str("_ => super::distinct(c, &[");
    for (n, _) in &all {
        s.push_str(&format!("({:?}, {}.to_string()), ", n, n));
    }
    s.push_str("]), } } }\n");
    s
}
