//! The layouts of the deep run.
#![allow(unused, dead_code, non_snake_case, non_camel_case_types, uncommon_codepoints, mixed_script_confusables, confusable_idents)]
#[macro_use]
extern crate aegir;
use aegir::{buffers::{shapes::Shaped, Buffer, Spec}, Context, Function, Identifier, Node, Read, Write};
use mc_core::engine::*;
use std::fmt::Debug;
include!("../c13body.rs");
mod deep { use super::*; include!(concat!(env!("OUT_DIR"), "/c13t.rs")); }
mod quick { use super::*; include!(concat!(env!("OUT_DIR"), "/c13.rs")); }
fn main() {
    let mut check = Check::new("C13");
    suites(&mut check, &[&quick::ALL, &deep::ALL, &special::ALL]);
    check.run()
}
