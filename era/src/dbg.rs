//! The structure of a real node, as its `Debug` output reports it.
use crate::{ast::{b, u, Tr}, V, NAMES};

#[derive(Clone, Debug, PartialEq)]
pub struct Dn {
    pub name: String,
    pub kids: Vec<Dn>,
}
/// Parse the output of derived (or `debug_tuple`) Debug impls.
pub fn parse(s: &str) -> Dn {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let d = node(&b, &mut i);
    if i != b.len() {
        panic!("HARNESS: cannot parse debug output {:?} at {}", s, i);
    }
    d
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i] == ' ' {
        *i += 1;
    }
}
fn node(b: &[char], i: &mut usize) -> Dn {
    ws(b, i);
    let mut name = String::new();
    // a constant buffer prints as a list: one atom
    let mut depth = 0usize;
    while *i < b.len() && (b[*i] == '[' || depth > 0) {
        depth = if b[*i] == '[' { depth + 1 } else if b[*i] == ']' { depth - 1 } else { depth };
        name.push(b[*i]);
        *i += 1;
    }
    while *i < b.len() && !"(){}, ".contains(b[*i]) {
        name.push(b[*i]);
        *i += 1;
    }
    let mut kids = vec![];
    let mut j = *i;
    ws(b, &mut j);
    if j < b.len() && (b[j] == '(' || b[j] == '{') {
        let close = if b[j] == '(' { ')' } else { '}' };
        *i = j + 1;
        loop {
            ws(b, i);
            if *i >= b.len() {
                panic!("HARNESS: unbalanced debug output");
            }
            if b[*i] == close {
                *i += 1;
                break;
            }
            if b[*i] == ',' {
                *i += 1;
                continue;
            }
            if close == '}' {
                while b[*i] != ':' {
                    *i += 1;
                }
                *i += 1;
            }
            kids.push(node(b, i));
        }
    }
    Dn { name, kids }
}
impl Dn {
    /// The scalar expression a node of the crate denotes.
    pub fn tree(&self) -> Tr {
        if let Some(v) = self.ident() {
            return Tr::Var(v.0);
        }
        let kid = |i: usize| self.kids[i].tree();
        match (self.name.as_str(), self.kids.len()) {
            ("Variable" | "Constant", 1) => kid(0),
            ("VariableAdjoint", 2) => Tr::Adj(self.kids[0].ident() == self.kids[1].ident()),
            ("ConstantAdjoint", _) => Tr::Adj(false),
            ("Contract<0>", 2) => b("TensorProduct", kid(0), kid(1)),
            ("Contract<1>", 2) => b("TensorDot", kid(0), kid(1)),
            (n, 2) => b(n, kid(0), kid(1)),
            (n, 1) => u(n, kid(0)),
            (n, _) => Tr::Const(n.parse().unwrap_or_else(|_| panic!("HARNESS: not a node: {:?}", self))),
        }
    }
    pub fn ident(&self) -> Option<V> {
        if self.name == "V" {
            return self.kids.first().and_then(|k| k.name.parse().ok()).map(V);
        }
        NAMES.iter().position(|n| *n == self.name).map(|i| V(i as u8))
    }
    /// Identifiers whose value evaluation needs when `present` have one (cached nodes whose slot
    /// is filled need nothing; every slot occurs once).  With `shape`, operators whose shape does
    /// not depend on their operands need nothing.
    pub fn needs(&self, present: u32, shape: bool) -> u32 {
        if let Some(v) = self.ident() {
            return 1 << v.0;
        }
        if self.name == "Cached" {
            let slot = self.kids[1].ident().expect("HARNESS: cached node without slot");
            return if present & 1 << slot.0 != 0 { 0 } else { self.kids[0].needs(present, false) };
        }
        if shape && (self.name == "Power" || self.name == "Sum") {
            return 0;
        }
        self.kids.iter().map(|k| k.needs(present, shape)).fold(0, |a, b| a | b)
    }
    /// All identifiers occurring.
    pub fn idents(&self) -> u32 {
        if let Some(v) = self.ident() {
            return 1 << v.0;
        }
        self.kids.iter().map(|k| k.idents()).fold(0, |a, b| a | b)
    }
    /// Follow a Left/Right path; one-operand nodes pass errors through.
    pub fn follow(&self, path: &[u8]) -> Option<V> {
        if let Some(v) = self.ident() {
            return if path.is_empty() { Some(v) } else { None };
        }
        if self.name == "Cached" || self.kids.len() == 1 {
            let rest = if path.first() == Some(&b'I') { &path[1..] } else { path };
            return self.kids[0].follow(rest);
        }
        match (path.first(), self.kids.len()) {
            (Some(b'L'), 2) => self.kids[0].follow(&path[1..]),
            (Some(b'R'), 2) => self.kids[1].follow(&path[1..]),
            _ => None,
        }
    }
    pub fn contains_name(&self, n: &str) -> bool { self.name == n || self.kids.iter().any(|k| k.contains_name(n)) }
}
