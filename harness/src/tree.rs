//! The reference representation of an expression: a plain immutable tree owned
//! by the harness.  Every state of the exploration is one of these; it shares no
//! memory with the implementation under test.

use calcu_rs::atom::{Atom, Expr, Func, Irrational, Prod, Real, Sum, SymbolicExpr};
use calcu_rs::rational::Rational;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Base {
    E,
    Pi,
    Rat(i128, i128),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum F {
    Sin,
    Cos,
    Tan,
    Sec,
    Cot,
    Csc,
    ASin,
    ACos,
    ATan,
    ASec,
    ACot,
    ACsc,
    Log(Base),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    Undef,
    Rat(i128, i128),
    E,
    Pi,
    Var(String),
    Sum(Vec<T>),
    Prod(Vec<T>),
    Pow(Box<T>, Box<T>),
    Fn(F, Box<T>),
}

pub const ALL_F: [F; 12] = [
    F::Sin,
    F::Cos,
    F::Tan,
    F::Sec,
    F::Cot,
    F::Csc,
    F::ASin,
    F::ACos,
    F::ATan,
    F::ASec,
    F::ACot,
    F::ACsc,
];

fn rat_of(r: &Rational) -> (i128, i128) {
    (r.numer(), r.denom())
}

fn base_of(b: &Real) -> Base {
    match b {
        Real::Rational(r) => Base::Rat(r.numer(), r.denom()),
        Real::Irrational(Irrational::E) => Base::E,
        Real::Irrational(Irrational::PI) => Base::Pi,
    }
}

/// copy an implementation value into the reference representation
pub fn read(e: &Expr) -> T {
    match e.atom() {
        Atom::Undef => T::Undef,
        Atom::Rational(r) => {
            let (n, d) = rat_of(r);
            T::Rat(n, d)
        }
        Atom::Irrational(Irrational::E) => T::E,
        Atom::Irrational(Irrational::PI) => T::Pi,
        Atom::Var(v) => T::Var(v.to_string()),
        Atom::Sum(s) => T::Sum(s.args().iter().map(read).collect()),
        Atom::Prod(p) => T::Prod(p.args().iter().map(read).collect()),
        Atom::Pow(p) => T::Pow(read(p.base()).into(), read(p.exponent()).into()),
        Atom::Func(f) => {
            let (k, a) = match f {
                Func::Sin(a) => (F::Sin, a),
                Func::Cos(a) => (F::Cos, a),
                Func::Tan(a) => (F::Tan, a),
                Func::Sec(a) => (F::Sec, a),
                Func::Cot(a) => (F::Cot, a),
                Func::Csc(a) => (F::Csc, a),
                Func::ArcSin(a) => (F::ASin, a),
                Func::ArcCos(a) => (F::ACos, a),
                Func::ArcTan(a) => (F::ATan, a),
                Func::ArcSec(a) => (F::ASec, a),
                Func::ArcCot(a) => (F::ACot, a),
                Func::ArcCsc(a) => (F::ACsc, a),
                Func::Log(b, a) => (F::Log(base_of(b)), a),
            };
            T::Fn(k, read(a).into())
        }
    }
}

/// build the implementation value with exactly this structure: no simplifying
/// constructor is involved
pub fn build(t: &T) -> Expr {
    match t {
        T::Undef => Expr::undef(),
        T::Rat(n, d) => Expr::from(Rational::new(*n, *d)),
        T::E => Expr::e(),
        T::Pi => Expr::pi(),
        T::Var(v) => Expr::var(v),
        T::Sum(a) => Expr::from(Atom::Sum(Sum {
            args: a.iter().map(build).collect(),
        })),
        T::Prod(a) => Expr::from(Atom::Prod(Prod {
            args: a.iter().map(build).collect(),
        })),
        T::Pow(b, e) => Expr::pow_raw(build(b), build(e)),
        T::Fn(f, a) => {
            let a = build(a);
            let f = match f {
                F::Sin => Func::Sin(a),
                F::Cos => Func::Cos(a),
                F::Tan => Func::Tan(a),
                F::Sec => Func::Sec(a),
                F::Cot => Func::Cot(a),
                F::Csc => Func::Csc(a),
                F::ASin => Func::ArcSin(a),
                F::ACos => Func::ArcCos(a),
                F::ATan => Func::ArcTan(a),
                F::ASec => Func::ArcSec(a),
                F::ACot => Func::ArcCot(a),
                F::ACsc => Func::ArcCsc(a),
                F::Log(b) => Func::Log(real(b), a),
            };
            Expr::from(Atom::Func(f))
        }
    }
}

pub fn real(b: &Base) -> Real {
    match b {
        Base::E => Real::Irrational(Irrational::E),
        Base::Pi => Real::Irrational(Irrational::PI),
        Base::Rat(n, d) => Real::Rational(Rational::new(*n, *d)),
    }
}

impl F {
    pub fn name(&self) -> String {
        match self {
            F::Sin => "sin".into(),
            F::Cos => "cos".into(),
            F::Tan => "tan".into(),
            F::Sec => "sec".into(),
            F::Cot => "cot".into(),
            F::Csc => "csc".into(),
            F::ASin => "asin".into(),
            F::ACos => "acos".into(),
            F::ATan => "atan".into(),
            F::ASec => "asec".into(),
            F::ACot => "acot".into(),
            F::ACsc => "acsc".into(),
            F::Log(Base::E) => "ln".into(),
            F::Log(Base::Pi) => "log:pi".into(),
            F::Log(Base::Rat(n, 1)) => format!("log:{n}"),
            F::Log(Base::Rat(n, d)) => format!("log:{n}/{d}"),
        }
    }
    pub fn from_name(s: &str) -> Option<F> {
        if s == "ln" {
            return Some(F::Log(Base::E));
        }
        if let Some(b) = s.strip_prefix("log:") {
            if b == "pi" {
                return Some(F::Log(Base::Pi));
            }
            let (n, d) = parse_rat(b)?;
            return Some(F::Log(Base::Rat(n, d)));
        }
        ALL_F.iter().find(|f| f.name() == s).copied()
    }
}

fn parse_rat(s: &str) -> Option<(i128, i128)> {
    match s.split_once('/') {
        Some((n, d)) => crate::eval::norm(n.parse().ok()?, d.parse().ok()?),
        None => Some((s.parse().ok()?, 1)),
    }
}

impl fmt::Display for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            T::Undef => write!(f, "undef"),
            T::Rat(n, 1) => write!(f, "{n}"),
            T::Rat(n, d) => write!(f, "{n}/{d}"),
            T::E => write!(f, "#e"),
            T::Pi => write!(f, "#pi"),
            T::Var(v) if legible(v) => write!(f, "{v}"),
            // the code points of any other name
            T::Var(v) => v.chars().try_fold((), |_, c| write!(f, "${:x}", c as u32)).and(if v.is_empty() { write!(f, "$") } else { Ok(()) }),
            T::Sum(a) | T::Prod(a) => {
                write!(f, "({}", if matches!(self, T::Sum(_)) { "+" } else { "*" })?;
                for x in a {
                    write!(f, " {x}")?;
                }
                write!(f, ")")
            }
            T::Pow(b, e) => write!(f, "(^ {b} {e})"),
            T::Fn(k, a) => write!(f, "({} {a})", k.name()),
        }
    }
}

impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self}")
    }
}

/// a name that cannot be taken for anything else
fn legible(v: &str) -> bool {
    !v.is_empty() && v != "undef" && !v.contains(|c: char| c.is_whitespace() || c.is_control() || "()$#".contains(c)) && parse_rat(v).is_none()
}

/// parse the s-expression notation printed by Display (used for replay files and
/// for writing seeds down legibly)
pub fn parse(s: &str) -> T {
    let s = s.replace('(', " ( ").replace(')', " ) ");
    let toks: Vec<&str> = s.split_whitespace().collect();
    let mut i = 0;
    let t = parse_at(&toks, &mut i);
    assert!(i == toks.len(), "trailing input in {s:?}");
    t
}

fn parse_at(t: &[&str], i: &mut usize) -> T {
    let tok = t[*i];
    *i += 1;
    match tok {
        "(" => {
            let op = t[*i];
            *i += 1;
            let mut args = vec![];
            while t[*i] != ")" {
                args.push(parse_at(t, i));
            }
            *i += 1;
            match op {
                "+" => T::Sum(args),
                "*" => T::Prod(args),
                "^" => {
                    assert!(args.len() == 2);
                    let e = args.pop().unwrap();
                    let b = args.pop().unwrap();
                    T::Pow(b.into(), e.into())
                }
                f => {
                    assert!(args.len() == 1);
                    T::Fn(
                        F::from_name(f).unwrap_or_else(|| panic!("unknown function {f}")),
                        args.pop().unwrap().into(),
                    )
                }
            }
        }
        "undef" => T::Undef,
        "#e" => T::E,
        "#pi" => T::Pi,
        "$" => T::Var(String::new()),
        tok if tok.starts_with('$') => {
            let code = |c: &str| char::from_u32(u32::from_str_radix(c, 16).unwrap()).unwrap();
            T::Var(tok[1..].split('$').map(code).collect())
        }
        tok => match parse_rat(tok) {
            Some((n, d)) => T::Rat(n, d),
            None => T::Var(tok.into()),
        },
    }
}

impl T {
    pub fn int(n: i128) -> T {
        T::Rat(n, 1)
    }
    pub fn var(s: &str) -> T {
        T::Var(s.into())
    }
    pub fn pow(b: T, e: T) -> T {
        T::Pow(b.into(), e.into())
    }
    pub fn f(k: F, a: T) -> T {
        T::Fn(k, a.into())
    }
    pub fn children(&self) -> Vec<&T> {
        match self {
            T::Sum(a) | T::Prod(a) => a.iter().collect(),
            T::Pow(b, e) => vec![b, e],
            T::Fn(_, a) => vec![a],
            _ => vec![],
        }
    }
    pub fn depth(&self) -> usize {
        1 + match self {
            T::Sum(a) | T::Prod(a) => a.iter().map(T::depth).max().unwrap_or(0),
            T::Pow(a, b) => a.depth().max(b.depth()),
            T::Fn(_, a) => a.depth(),
            _ => 0,
        }
    }
    /// number of nodes
    pub fn size(&self) -> usize {
        1 + self.children().into_iter().map(T::size).sum::<usize>()
    }
    pub fn any(&self, p: &dyn Fn(&T) -> bool) -> bool {
        p(self) || self.children().into_iter().any(|c| c.any(p))
    }
    pub fn has_undef(&self) -> bool {
        self.any(&|t| matches!(t, T::Undef))
    }
    pub fn has_fn(&self) -> bool {
        self.any(&|t| matches!(t, T::Fn(..)))
    }
    pub fn vars(&self) -> Vec<String> {
        fn go(t: &T, out: &mut Vec<String>) {
            if let T::Var(v) = t {
                if !out.contains(v) {
                    out.push(v.clone())
                }
            }
            t.children().into_iter().for_each(|c| go(c, out))
        }
        let mut v = vec![];
        go(self, &mut v);
        v.sort();
        v
    }
    pub fn subtrees(&self) -> Vec<&T> {
        let mut v = vec![self];
        for c in self.children() {
            v.extend(c.subtrees());
        }
        v
    }
    /// 64-bit structural hash used to identify states
    pub fn key(&self) -> u64 {
        let mut h = Fnv(0xcbf29ce484222325);
        self.feed(&mut h);
        h.finish()
    }
    fn feed(&self, h: &mut Fnv) {
        match self {
            T::Undef => h.u8(1),
            T::Rat(n, d) => {
                h.u8(2);
                h.bytes(&n.to_le_bytes());
                h.bytes(&d.to_le_bytes());
            }
            T::E => h.u8(3),
            T::Pi => h.u8(4),
            T::Var(v) => {
                h.u8(5);
                h.bytes(v.as_bytes());
                h.u8(0);
            }
            T::Sum(a) | T::Prod(a) => {
                h.u8(if matches!(self, T::Sum(_)) { 6 } else { 7 });
                h.bytes(&(a.len() as u32).to_le_bytes());
                a.iter().for_each(|x| x.feed(h));
            }
            T::Pow(b, e) => {
                h.u8(8);
                b.feed(h);
                e.feed(h);
            }
            T::Fn(k, a) => {
                h.u8(9);
                h.bytes(k.name().as_bytes());
                h.u8(0);
                a.feed(h);
            }
        }
    }
    /// Order of Sum / Prod arguments forgotten: two trees that differ only by
    /// argument order (at any depth) have the same canonical form.
    pub fn unordered(&self) -> T {
        match self {
            T::Sum(a) | T::Prod(a) => {
                let mut v: Vec<T> = a.iter().map(T::unordered).collect();
                v.sort();
                if matches!(self, T::Sum(_)) {
                    T::Sum(v)
                } else {
                    T::Prod(v)
                }
            }
            T::Pow(b, e) => T::pow(b.unordered(), e.unordered()),
            T::Fn(k, a) => T::f(*k, a.unordered()),
            t => t.clone(),
        }
    }
}

pub struct Fnv(u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf29ce484222325)
    }
    pub fn u8(&mut self, b: u8) {
        self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for x in b {
            self.u8(*x)
        }
    }
    pub fn finish(&self) -> u64 {
        // final avalanche: FNV alone is weak in the high bits
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
