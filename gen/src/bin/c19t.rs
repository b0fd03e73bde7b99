//! The formulas of the deep run.
#![allow(unused, unused_braces, unused_parens, unused_unsafe, dead_code)]
#[macro_use]
extern crate aegir;
use aegir::{ids::{U, W, X, Y, Z}, meta::Variable, ops, Context, Function, Identifier, Node};
use mc_core::engine::*;
include!("../c19body.rs");
mod quick { use super::*; include!(concat!(env!("OUT_DIR"), "/c19.rs")); }
mod deep { use super::*; include!(concat!(env!("OUT_DIR"), "/c19t.rs")); }
fn main() {
    let mut check = Check::new("C19");
    check.assume("constants of the DSL are aegir::meta::Constant<i64> / Constant<f64>; a literal two in another spelling (2., 2i64, (2)) may become a square or a power");
    let all: Vec<Case> = quick::parts().into_iter().chain(deep::parts()).flat_map(|p| p()).collect();
    let names = ["one operand", "one operator", "two operators", "three operators", "nested", "four operators"];
    let what = ["every literal spelling, call, block and path, bare and in parentheses", "every operand on either side of every operator, with redundant parentheses", "all groupings of two operators over variables and literals in every position", "all groupings of three operators, a literal in any one position", "a call or block inside all groupings of two operators", "all groupings of four operators over variables and literals"];
    let mut by: Vec<Vec<Case>> = (0..6).map(|_| vec![]).collect();
    for c in all {
        by[c.suite].push(c);
    }
    for (i, l) in by.into_iter().enumerate() {
        if !l.is_empty() {
            check.suite(names[i], format!("{} formulas: {}", l.len(), what[i]), move |c| body(c, &l));
        }
    }
    check.run()
}
