//! Reading a displayed formula with the usual conventions: parentheses, powers (from the right)
//! before signs and products, products and quotients before sums and differences, both from the
//! left to the right.
use crate::{ast::{b, k, u, Tr}, NAMES};

#[derive(Clone, Debug, PartialEq)]
pub enum Sx {
    Var(String),
    Num(f64),
    Pi,
    E,
    Undefined(char),
    Fun(&'static str, Box<Sx>),
    /// + - * / ^ t(ensor product) d(ot) :
    Op(char, Box<(Sx, Sx)>),
    Sum(Box<Sx>),
}
/// Notation of the functions, and the operator each denotes.
pub const FUNS: [(&str, &str); 19] = [
    ("acosh", "ArcCosh"), ("asinh", "ArcSinh"), ("atanh", "ArcTanh"), ("acos", "ArcCos"), ("asin", "ArcSin"), ("atan", "ArcTan"), ("cosh", "Cosh"), ("sinh", "Sinh"), ("tanh", "Tanh"),
    ("cos", "Cos"), ("sin", "Sin"), ("tan", "Tan"), ("ln\u{393}", "LogGamma"), ("ln", "Ln"), ("erf", "Erf"), ("sgn", "Sign"), ("\u{393}", "Gamma"), ("\u{3C8}", "DiGamma"), ("\u{3C3}", "Sigmoid"),
];
struct P<'a> {
    s: &'a [char],
    i: usize,
    vars: &'a [&'a str],
}
type R<T> = Result<T, String>;
pub fn read(text: &str, vars: &[&str]) -> R<Sx> {
    let s: Vec<char> = text.chars().collect();
    let mut p = P { s: &s, i: 0, vars };
    let e = p.sum()?;
    p.ws();
    if p.i != s.len() {
        return p.err("text left over");
    }
    Ok(e)
}
/// Of the identifiers of `mc_era`, as a scalar expression.
pub fn scalar(text: &str) -> R<Tr> { read(text, &NAMES).map(|e| e.tree()) }

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> { Err(format!("{} at character {} of {:?}", m, self.i, self.s.iter().collect::<String>())) }
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == ' ' {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> Option<char> {
        self.ws();
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        let y = self.peek() == Some(c);
        self.i += y as usize;
        y
    }
    fn want(&mut self, c: char) -> R<()> { if self.eat(c) { Ok(()) } else { self.err(&format!("expected {:?}", c)) } }
    fn word(&mut self, w: &str) -> bool {
        self.ws();
        let n = w.chars().count();
        let y = self.i + n <= self.s.len() && self.s[self.i..self.i + n].iter().copied().eq(w.chars());
        if y {
            self.i += n;
        }
        y
    }
    fn sum(&mut self) -> R<Sx> {
        let mut l = self.product()?;
        while let Some(o) = self.peek().filter(|c| "+-".contains(*c)) {
            self.i += 1;
            l = Sx::Op(o, Box::new((l, self.product()?)));
        }
        Ok(l)
    }
    fn product(&mut self) -> R<Sx> {
        let mut l = self.signed()?;
        while let Some(o) = self.peek().filter(|c| "\u{2218}/\u{2297}:".contains(*c)) {
            self.i += 1;
            let o = match o { '\u{2218}' => '*', '\u{2297}' => 't', o => o };
            l = Sx::Op(o, Box::new((l, self.signed()?)));
        }
        Ok(l)
    }
    fn signed(&mut self) -> R<Sx> { if self.eat('-') { Ok(Sx::Fun("Negate", Box::new(self.signed()?))) } else { self.power() } }
    fn power(&mut self) -> R<Sx> {
        let l = self.atom()?;
        if self.eat('^') {
            return Ok(Sx::Op('^', Box::new((l, self.signed()?))));
        }
        Ok(l)
    }
    fn atom(&mut self) -> R<Sx> {
        for (n, op) in FUNS {
            let at = self.i;
            if self.word(n) {
                if self.s.get(self.i) == Some(&'(') {
                    self.i += 1;
                    let e = self.sum()?;
                    self.want(')')?;
                    return Ok(Sx::Fun(op, Box::new(e)));
                }
                self.i = at;
            }
        }
        if self.word("\u{3A3}_i") {
            self.want('(')?;
            let e = self.sum()?;
            self.want(')')?;
            return if self.word("_i") { Ok(Sx::Sum(Box::new(e))) } else { self.err("expected _i") };
        }
        if self.word("\u{3B4}(") {
            let e = self.sum()?;
            self.want(')')?;
            return Ok(Sx::Fun("Dirac", Box::new(e)));
        }
        let mut names: Vec<&str> = self.vars.to_vec();
        names.sort_by_key(|n| std::cmp::Reverse(n.len()));
        for n in names {
            if self.word(n) {
                return Ok(Sx::Var(n.to_string()));
            }
        }
        if self.word("inf") {
            return Ok(Sx::Undefined('\u{221E}'));
        }
        if self.word("NaN") {
            return Ok(Sx::Undefined('N'));
        }
        match self.peek() {
            Some('(') => {
                self.i += 1;
                let e = self.sum()?;
                self.want(')')?;
                Ok(e)
            },
            Some('|') => {
                self.i += 1;
                let e = self.sum()?;
                self.want('|')?;
                Ok(Sx::Fun("Abs", Box::new(e)))
            },
            Some('\u{27E8}') => {
                self.i += 1;
                let l = self.sum()?;
                self.want(',')?;
                let r = self.sum()?;
                self.want('\u{27E9}')?;
                Ok(Sx::Op('d', Box::new((l, r))))
            },
            Some('\u{BD}') => {
                self.i += 1;
                Ok(Sx::Num(0.5))
            },
            Some('\u{3C0}') => {
                self.i += 1;
                Ok(Sx::Pi)
            },
            Some('\u{1D452}') => {
                self.i += 1;
                Ok(Sx::E)
            },
            Some('\u{221E}') => {
                self.i += 1;
                Ok(Sx::Undefined('\u{221E}'))
            },
            Some('\u{1D456}') => {
                // a multiple of the imaginary unit: not a real number, whatever the factor
                self.i += 1;
                self.eat('\u{3C0}');
                Ok(Sx::Undefined('i'))
            },
            Some(c) if c.is_ascii_digit() => {
                let at = self.i;
                while self.s.get(self.i).map_or(false, |c| c.is_ascii_digit() || *c == '.') {
                    self.i += 1;
                }
                self.s[at..self.i].iter().collect::<String>().parse().map(Sx::Num).or_else(|_| self.err("not a number"))
            },
            _ => self.err("expected an operand"),
        }
    }
}
impl Sx {
    pub fn tree(&self) -> Tr {
        match self {
            Sx::Var(n) => Tr::Var(NAMES.iter().position(|m| m == n).unwrap() as u8),
            Sx::Num(c) => k(*c),
            Sx::Pi => k(std::f64::consts::PI),
            Sx::E => u("Exp", k(1.0)),
            Sx::Undefined('\u{221E}') => k(f64::INFINITY),
            Sx::Undefined(_) => k(f64::NAN),
            Sx::Fun(n, e) => u(n, e.tree()),
            Sx::Sum(e) => u("Sum", e.tree()),
            Sx::Op('^', e) if e.0 == Sx::E => u("Exp", e.1.tree()),
            Sx::Op(o, e) => b(
                match o { '+' => "Add", '-' => "Sub", '*' => "Mul", '/' => "Div", '^' => "Power", 't' => "TensorProduct", 'd' => "TensorDot", o => panic!("HARNESS: {} has no scalar meaning", o) },
                e.0.tree(),
                e.1.tree(),
            ),
        }
    }
}
