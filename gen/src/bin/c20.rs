//! C20: identifiers are pairwise distinct and display their own symbol.
#![allow(non_camel_case_types, uncommon_codepoints, mixed_script_confusables, confusable_idents)]
extern crate aegir;
use aegir::{Contains, Identifier};
pub use mc_core::engine::*;
use std::fmt::{Debug, Display};

/// display, debug-free properties and use as a variable of one identifier
pub fn show<I: Identifier + Display + Debug>(c: &mut Ctl, t: &str, i: I, want: &str) {
    c.step(1);
    let got = guarded(|| i.to_string());
    c.check(got.as_deref() == Ok(want), || (format!("displays {:?}", want), format!("ids!({}): an identifier with the symbol {:?} displays {:?}", t, want, got)));
    let j = i;
    c.check(i == j && !(i != j), || ("reflexive".into(), format!("ids!({}): {:?} differs from itself", t, i)));
    let v = i.into_var();
    let got = guarded(|| v.to_string());
    c.check(got.as_deref() == Ok(want), || (format!("variable displays {:?}", want), format!("ids!({}): a variable with the symbol {:?} displays {:?}", t, want, got)));
    c.check(v.contains(i), || ("contains itself".into(), format!("ids!({}): the variable {:?} does not contain itself", t, i)));
}
pub fn same(c: &mut Ctl, t: &str, a: &str, b: &str, eq: bool, ne: bool) {
    c.step(1);
    let want = a == b;
    c.check(eq == want && ne != want, || (if want { format!("{} equals itself", a) } else { "different identifiers".into() }, format!("ids!({}): {} == {} is {}, {} != {} is {}", t, a, b, eq, a, b, ne)));
}
pub fn letter<I: Identifier>(c: &mut Ctl, i: I, name: &str, letters: &str) {
    let s = i.to_string();
    c.step(1);
    c.state(name);
    c.desc(|| format!("{} displays {:?}", name, s));
    c.check(s.chars().count() == 1 && letters.contains(&s), || (format!("letter {}", name), format!("aegir::ids::{} displays {:?}, none of {:?}", name, s, letters)));
    c.check(i.into_var().to_string() == s, || (format!("variable {}", name), format!("the variable of aegir::ids::{} displays {:?}", name, i.into_var().to_string())));
}
pub fn distinct(c: &mut Ctl, l: &[(&str, String)]) {
    for (n, s) in l {
        for (m, t) in l {
            c.step(1);
            c.check((n == m) == (s == t), || ("one letter for two identifiers".into(), format!("aegir::ids::{} and {} both display {:?}", n, m, s)));
        }
    }
}
include!(concat!(env!("OUT_DIR"), "/c20.rs"));
fn main() {
    let mut check = Check::new("C20");
    check.assume("a Greek identifier may display either case or a standard variant of its letter");
    check.suite("predefined", "all 50 predefined identifiers, all 2500 ordered pairs", predefined::go);
    check.suite("declared", format!("{} declarations: every form (no symbol, identifier, string; spaces, braces, escapes, raw, empty, non-ASCII) of one and two identifiers, all combinations of 4 forms of three and 3 forms of four, lists of up to 70; all ordered pairs of each", MODS.len()), |c| {
        let k = c.choose(MODS.len());
        c.state(k);
        MODS[k](c);
        c.desc(|| format!("declaration {}", k));
    });
    check.run()
}
