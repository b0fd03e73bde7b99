//! Syntax trees of scalar expressions and their exhaustive enumeration.
use crate::{ops::*, NAMES};
use mc_core::engine::Ctl;
use std::hash::{Hash, Hasher};

#[derive(Clone)]
pub enum Tr {
    Var(u8),
    Const(f64),
    /// The derivative of x with respect to x (true) or to y (false): a node known to be 1 or 0.
    Adj(bool),
    Un(&'static Op, Box<Tr>),
    Bi(&'static Op, Box<(Tr, Tr)>),
    Cached(u8, Box<Tr>),
}
impl std::fmt::Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Tr::Var(v) => f.write_str(NAMES[*v as usize]),
            Tr::Const(c) => write!(f, "{:?}", c),
            Tr::Adj(b) => f.write_str(if *b { "dx/dx" } else { "dx/dy" }),
            Tr::Un(o, k) => write!(f, "{}({:?})", o.name, k),
            Tr::Bi(o, k) => write!(f, "{}({:?}, {:?})", o.name, k.0, k.1),
            Tr::Cached(v, k) => write!(f, "Cached({:?} in {})", k, NAMES[*v as usize]),
        }
    }
}
impl Hash for Tr {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self {
            Tr::Var(v) => (0u8, v).hash(h),
            Tr::Const(c) => (1u8, c.to_bits()).hash(h),
            Tr::Adj(b) => (3u8, b).hash(h),
            Tr::Un(o, k) => {
                o.name.hash(h);
                k.hash(h)
            },
            Tr::Bi(o, k) => {
                o.name.hash(h);
                k.0.hash(h);
                k.1.hash(h)
            },
            Tr::Cached(v, k) => {
                (2u8, v).hash(h);
                k.hash(h)
            },
        }
    }
}
impl Tr {
    /// Variables occurring (bit mask); slots of cached nodes are not variables.
    pub fn vars(&self) -> u32 {
        match self {
            Tr::Var(v) => 1 << v,
            Tr::Const(_) | Tr::Adj(_) => 0,
            Tr::Un(_, k) | Tr::Cached(_, k) => k.vars(),
            Tr::Bi(_, k) => k.0.vars() | k.1.vars(),
        }
    }
    pub fn op(&self) -> &'static str {
        match self {
            Tr::Var(_) => "variable",
            Tr::Const(_) => "constant",
            Tr::Adj(_) => "leaf derivative",
            Tr::Un(o, _) | Tr::Bi(o, _) => o.name,
            Tr::Cached(..) => "Cached",
        }
    }
    pub fn is_leaf(&self) -> bool { matches!(self, Tr::Var(_) | Tr::Const(_) | Tr::Adj(_)) }
    pub fn all(&self, p: &mut dyn FnMut(&Tr) -> bool) -> bool {
        p(self)
            && match self {
                Tr::Un(_, k) | Tr::Cached(_, k) => k.all(p),
                Tr::Bi(_, k) => k.0.all(p) && k.1.all(p),
                _ => true,
            }
    }
    /// Signature of a failure: the operators on the path are what matters.
    pub fn shape(&self) -> String {
        match self {
            Tr::Var(_) | Tr::Const(_) => "_".into(),
            Tr::Adj(b) => (if *b { "1" } else { "0" }).into(),
            Tr::Un(o, k) => format!("{}({})", o.name, k.shape()),
            Tr::Bi(o, k) => format!("{}({}, {})", o.name, k.0.shape(), k.1.shape()),
            Tr::Cached(_, k) => format!("Cached({})", k.shape()),
        }
    }
}
pub fn u(n: &str, k: Tr) -> Tr { Tr::Un(un(n), Box::new(k)) }
pub fn b(n: &str, l: Tr, r: Tr) -> Tr { Tr::Bi(bi(n), Box::new((l, r))) }

#[derive(Clone)]
pub struct Alphabet {
    pub leaves: Vec<Tr>,
    pub un: Vec<&'static Op>,
    pub bi: Vec<&'static Op>,
}
impl Alphabet {
    /// All operators that can be differentiated at least `level` times.
    pub fn full(level: u8, leaves: Vec<Tr>) -> Alphabet {
        Alphabet { leaves, un: UN.iter().filter(|o| o.level >= level).collect(), bi: BI.iter().filter(|o| o.level >= level).collect() }
    }
    pub fn of(leaves: Vec<Tr>, us: &[&str], bs: &[&str]) -> Alphabet { Alphabet { leaves, un: us.iter().map(|n| un(n)).collect(), bi: bs.iter().map(|n| bi(n)).collect() } }
    pub fn only(mut self, p: impl Fn(&Op) -> bool) -> Alphabet {
        self.un.retain(|o| p(o));
        self.bi.retain(|o| p(o));
        self
    }
    /// Every tree of height at most `h`.
    pub fn gen(&self, c: &mut Ctl, h: usize) -> Tr {
        let (nl, nu, nb) = (self.leaves.len(), self.un.len(), self.bi.len());
        let k = c.choose(if h == 0 { nl } else { nl + nu + nb });
        if k < nl {
            self.leaves[k].clone()
        } else if k < nl + nu {
            Tr::Un(self.un[k - nl], Box::new(self.gen(c, h - 1)))
        } else {
            let l = self.gen(c, h - 1);
            let r = self.gen(c, h - 1);
            Tr::Bi(self.bi[k - nl - nu], Box::new((l, r)))
        }
    }
    pub fn count(&self, h: usize) -> u64 {
        let n = self.leaves.len() as u64;
        if h == 0 {
            return n;
        }
        let k = self.count(h - 1);
        n + self.un.len() as u64 * k + self.bi.len() as u64 * k * k
    }
    pub fn bound(&self, h: usize) -> String { format!("all {} trees of height <= {} over {} leaves, {} unary and {} binary operators", self.count(h), h, self.leaves.len(), self.un.len(), self.bi.len()) }
}
/// Number of ways `with_cache` decorates a tree.
pub fn cache_variants(t: &Tr) -> usize {
    match t {
        Tr::Bi(..) => 6,
        Tr::Un(..) => 4,
        _ => 2,
    }
}
/// Put cached nodes (slots z and w, each used once) around the root and/or its operands.
pub fn with_cache(t: Tr, v: usize) -> Tr {
    let on = |s: u8, k: Tr| Tr::Cached(s, Box::new(k));
    match (v, t) {
        (0, t) => t,
        (1, t) => on(2, t),
        (2, Tr::Un(o, k)) => Tr::Un(o, Box::new(on(2, *k))),
        (3, Tr::Un(o, k)) => on(3, Tr::Un(o, Box::new(on(2, *k)))),
        (2, Tr::Bi(o, k)) => Tr::Bi(o, Box::new((on(2, k.0), k.1))),
        (3, Tr::Bi(o, k)) => Tr::Bi(o, Box::new((k.0, on(3, k.1)))),
        (4, Tr::Bi(o, k)) => Tr::Bi(o, Box::new((on(2, k.0), on(3, k.1)))),
        (5, Tr::Bi(o, k)) => on(3, Tr::Bi(o, Box::new((k.0, on(2, k.1))))),
        _ => panic!("HARNESS: no such cache variant"),
    }
}
pub fn x() -> Tr { Tr::Var(0) }
pub fn y() -> Tr { Tr::Var(1) }
pub fn k(c: f64) -> Tr { Tr::Const(c) }
