//! What Display prints can be read back: with the usual precedences the text
//! denotes the expression it was printed from.

use crate::engine::*;
use crate::eval::norm;
use crate::gen::{dedup, multisets, prod, sum, tuples};
use crate::space::{self, LOGS};
use crate::tree::*;
use calcu_rs::atom::{Atom, Irrational};
use calcu_rs::rational::Rational;
use calcu_rs::sym_fmt::{FmtAtom, SymbolicFormatter};

// ---------------------------------------------------------------------------
// the reference grammar
//
//   sum    := prod { (" + " | " − ") prod }
//   prod   := "-" prod | power { ["·" | " · " | "/"] power }     left associative
//   power  := atom [ "^" atom ]
//   atom   := digits | name | "π" | "𝓮" | "∅" | "(" sum ")"
//           | function [ "^" number ] "(" sum ")"
//   number := digits [ "/" digits ] | "π" | "𝓮"
//
// A juxtaposition is a product.  Digits that follow each other are one integer,
// letters that follow each other are one name.

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Num(i128),
    Name(String),
    Pi,
    E,
    Undef,
    C(char),
}

fn is_letter(c: char) -> bool {
    c.is_alphabetic() && c != 'π' && c != '𝓮'
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < c.len() {
        let x = c[i];
        i += 1;
        v.push(match x {
            ' ' => continue,
            '0'..='9' => {
                let mut d = x.to_string();
                while i < c.len() && c[i].is_ascii_digit() {
                    d.push(c[i]);
                    i += 1;
                }
                Tok::Num(d.parse().map_err(|_| format!("number {d}"))?)
            }
            'π' => Tok::Pi,
            '𝓮' => Tok::E,
            '∅' => Tok::Undef,
            '+' | '−' | '-' | '·' | '/' | '^' | '(' | ')' => Tok::C(x),
            x if is_letter(x) || x == '_' => {
                let mut d = x.to_string();
                // the base of a logarithm is part of its name
                while i < c.len() && (is_letter(c[i]) || c[i].is_ascii_digit() || c[i] == '_') {
                    d.push(c[i]);
                    i += 1;
                }
                Tok::Name(d)
            }
            x => return Err(format!("unexpected {x:?}")),
        });
    }
    Ok(v)
}

struct Parser {
    t: Vec<Tok>,
    i: usize,
}

type Res = Result<T, String>;

impl Parser {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn eat(&mut self, c: char) -> bool {
        let y = self.peek() == Some(&Tok::C(c));
        self.i += y as usize;
        y
    }
    fn need(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {c} at token {}", self.i))
        }
    }
    fn sum(&mut self) -> Res {
        let mut v = vec![self.prod()?];
        loop {
            if self.eat('+') {
                v.push(self.prod()?);
            } else if self.eat('−') {
                let p = self.prod()?;
                v.push(T::Prod(vec![T::int(-1), p]));
            } else if v.len() == 1 {
                return Ok(v.pop().unwrap());
            } else {
                return Ok(T::Sum(v));
            }
        }
    }
    fn prod(&mut self) -> Res {
        if self.eat('-') {
            let p = self.prod()?;
            return Ok(T::Prod(vec![T::int(-1), p]));
        }
        let mut l = self.power()?;
        loop {
            if self.eat('/') {
                let r = self.power()?;
                l = T::Prod(vec![l, T::pow(r, T::int(-1))]);
            } else if self.eat('·') || matches!(self.peek(), Some(Tok::Num(_) | Tok::Name(_) | Tok::Pi | Tok::E | Tok::Undef | Tok::C('('))) {
                let r = self.power()?;
                l = T::Prod(vec![l, r]);
            } else {
                return Ok(l);
            }
        }
    }
    fn power(&mut self) -> Res {
        let b = self.atom()?;
        if self.eat('^') {
            let e = self.atom()?;
            return Ok(T::pow(b, e));
        }
        Ok(b)
    }
    fn number(&mut self) -> Option<T> {
        let r = match self.peek()? {
            Tok::Pi => T::Pi,
            Tok::E => T::E,
            Tok::Num(n) => {
                let n = *n;
                if let (Some(Tok::C('/')), Some(Tok::Num(d))) = (self.t.get(self.i + 1), self.t.get(self.i + 2)) {
                    let (n, d) = norm(n, *d)?;
                    self.i += 2;
                    T::Rat(n, d)
                } else {
                    T::int(n)
                }
            }
            _ => return None,
        };
        self.i += 1;
        Some(r)
    }
    fn atom(&mut self) -> Res {
        let Some(t) = self.peek().cloned() else { return Err("unexpected end".into()) };
        self.i += 1;
        Ok(match t {
            Tok::Num(n) => T::int(n),
            Tok::Pi => T::Pi,
            Tok::E => T::E,
            Tok::Undef => T::Undef,
            Tok::C('(') => {
                let s = self.sum()?;
                self.need(')')?;
                s
            }
            Tok::Name(n) => match self.function(&n)? {
                None => T::Var(n),
                Some(f) => {
                    let e = if self.eat('^') {
                        Some(self.number().ok_or("no number in the exponent of a function")?)
                    } else {
                        None
                    };
                    self.need('(')?;
                    let a = self.sum()?;
                    self.need(')')?;
                    let f = T::f(f, a);
                    match e {
                        Some(e) => T::pow(f, e),
                        None => f,
                    }
                }
            },
            t => return Err(format!("unexpected {t:?}")),
        })
    }
    fn function(&mut self, n: &str) -> Result<Option<F>, String> {
        Ok(Some(match n {
            "sin" => F::Sin,
            "cos" => F::Cos,
            "tan" => F::Tan,
            "sec" => F::Sec,
            "cot" => F::Cot,
            "csc" => F::Csc,
            "arcsin" => F::ASin,
            "arccos" => F::ACos,
            "arctan" => F::ATan,
            "arcsec" => F::ASec,
            "arccot" => F::ACot,
            "arccsc" => F::ACsc,
            "ln" => F::Log(Base::E),
            n if n.starts_with("log") => {
                let base = if n == "log" {
                    if self.peek() == Some(&Tok::Pi) {
                        self.i += 1;
                        Base::Pi
                    } else {
                        Base::Rat(10, 1)
                    }
                } else {
                    let Ok(p) = n[3..].parse::<i128>() else { return Ok(None) };
                    let mut q = 1;
                    if let (Some(Tok::C('/')), Some(Tok::Num(d))) = (self.t.get(self.i), self.t.get(self.i + 1)) {
                        q = *d;
                        self.i += 2;
                    }
                    let (p, q) = norm(p, q).ok_or("base of a logarithm")?;
                    Base::Rat(p, q)
                };
                F::Log(base)
            }
            _ => return Ok(None),
        }))
    }
}

fn read_back(s: &str) -> Res {
    let mut p = Parser { t: lex(s)?, i: 0 };
    let t = p.sum()?;
    if p.i != p.t.len() {
        return Err(format!("text left over at token {}", p.i));
    }
    Ok(t)
}

/// Forget what notation does not show: nesting and order of the operands of sums
/// and products, how a rational number or a sign is written, the factor 1 and the
/// summand 0, and that a quotient is a power with exponent -1.  Nothing else: a
/// power stays the power it was, no like terms are collected.
pub fn canon(t: &T) -> T {
    match t {
        T::Sum(a) => {
            let mut v = vec![];
            for x in a {
                match canon(x) {
                    T::Sum(b) => v.extend(b),
                    T::Rat(0, _) => (),
                    x => v.push(x),
                }
            }
            v.sort();
            match v.len() {
                0 => T::int(0),
                1 => v.pop().unwrap(),
                _ => T::Sum(v),
            }
        }
        T::Prod(a) => {
            let (mut n, mut d) = (1i128, 1i128);
            let mut v = vec![];
            let mut put = |x: T, v: &mut Vec<T>| match x {
                T::Rat(p, q) => (n, d) = norm(n * p, d * q).unwrap(),
                x => v.push(x),
            };
            for x in a {
                match canon(x) {
                    T::Prod(b) => b.into_iter().for_each(|x| put(x, &mut v)),
                    x => put(x, &mut v),
                }
            }
            if (n, d) != (1, 1) || v.is_empty() {
                v.push(T::Rat(n, d));
            }
            v.sort();
            if v.len() == 1 {
                v.pop().unwrap()
            } else {
                T::Prod(v)
            }
        }
        T::Pow(b, e) => match (canon(b), canon(e)) {
            (T::Rat(p, q), T::Rat(-1, 1)) if p != 0 => {
                let (n, d) = norm(q, p).unwrap();
                T::Rat(n, d)
            }
            (b, e) => T::pow(b, e),
        },
        T::Fn(f, a) => T::f(*f, canon(a)),
        t => t.clone(),
    }
}

// ---------------------------------------------------------------------------

/// operands that differ in how they are printed
const KINDS: [&str; 26] = [
    "x", "y", "0", "1", "2", "-1", "-3", "1/2", "2/3", "-2/3", "#pi", "#e", "undef", "(+ x 1)", "(+ (* -1 x) y)", "(* 2 x)", "(* -1 x)", "(* x y)", "(^ x 2)", "(^ x -1)",
    "(^ 3 x)", "(^ 2/3 x)", "(^ -2 x)", "(sin x)", "(^ (cos x) 3)", "(^ (^ x y) 2)",
];
const MORE: [&str; 22] = [
    "(log:2 x)", "(log:10 (+ x 1))", "(log:1/2 x)", "(log:pi x)", "(ln (* 2 x))", "(^ (sin x) 2/3)", "(^ (sin x) #pi)", "(^ (ln x) -2)", "(^ (sin x) x)", "(^ (+ x y) 2)",
    "(^ (* x y) -1)", "(* x (^ y -1))", "(^ x 1/2)", "(^ x -1/2)", "(^ x (* -1 y))", "(^ #e x)", "(^ (* 2 x) 3)", "(^ 3 2)", "(^ 2 1/2)", "(* 2/3 x)", "(acos x)", "(^ x (^ y 2))",
];

fn cases(t: Tier, emit: Emit) {
    let big = t == Tier::Thorough;
    let a: Vec<T> = KINDS.iter().map(|s| parse(s)).collect();
    let mut all = a.clone();
    all.extend(MORE.iter().map(|s| parse(s)));
    let mut v = all.clone();
    let exps = all.clone();
    for b in &all {
        for e in &exps {
            v.push(T::pow(b.clone(), e.clone()));
        }
        for f in ALL_F {
            v.push(T::f(f, b.clone()));
        }
        for l in LOGS {
            v.push(T::f(F::Log(l), b.clone()));
            v.push(T::pow(T::f(F::Log(l), b.clone()), parse("2/3")));
        }
    }
    v.extend(space::general(true));
    // a variable with the name of a function cannot be told from it
    v.extend(space::scale_family(true).into_iter().filter(|t| !t.any(&|t| matches!(t, T::Var(v) if v == "sin"))));
    v.extend(space::huge_family());
    // a sum or product of every two kinds, inside every kind of context
    let mut two = vec![];
    tuples(2, &all, &mut |t| {
        two.push(prod(t));
        two.push(sum(t));
    });
    v.extend(two.iter().cloned());
    for t in &two {
        for c in &a {
            for p in [prod([t.clone(), c.clone()]), prod([c.clone(), t.clone()]), sum([t.clone(), c.clone()]), sum([c.clone(), t.clone()])] {
                v.push(p);
            }
        }
        for e in ["2", "-1", "1/2", "-2", "y", "(^ x 2)"] {
            v.push(T::pow(t.clone(), parse(e)));
            v.push(T::pow(parse(e), t.clone()));
        }
        v.push(T::f(F::Sin, t.clone()));
        v.push(T::pow(T::f(F::Cos, t.clone()), T::int(2)));
    }
    tuples(3, if big { &all } else { &a }, &mut |t| {
        v.push(prod(t));
        v.push(sum(t));
    });
    if big {
        multisets(4, &a, &mut |t| {
            v.push(prod(t));
            let mut r = t.to_vec();
            r.reverse();
            v.push(prod(r));
            v.push(sum(t));
        });
    }
    for t in dedup(v) {
        emit(Case::new("display", [t]));
    }
    // printed forms that are put together (`/` writes an exponent of -1, which the grammar has not)
    for l in &all {
        for r in &all {
            for op in ["+", "-", "*", "^"] {
                emit(Case::new(op, [l.clone(), r.clone()]));
            }
        }
    }
}

/// a notation with symbols of its own
struct Other;
type R = std::fmt::Result;
type Fm<'a, 'b> = &'a mut std::fmt::Formatter<'b>;
impl SymbolicFormatter for Other {
    fn symbl_sub(f: Fm) -> R {
        f.write_str("⊖")
    }
    fn symbl_add(f: Fm) -> R {
        f.write_str("⊕")
    }
    fn symbl_mul(f: Fm) -> R {
        f.write_str("⊗")
    }
    fn symbl_div(f: Fm) -> R {
        f.write_str("⊘")
    }
    fn symbl_pow(f: Fm) -> R {
        f.write_str("↑")
    }
    fn space(f: Fm) -> R {
        f.write_str("␣")
    }
    fn comma(f: Fm) -> R {
        f.write_str("‚")
    }
    fn lparen(f: Fm) -> R {
        f.write_str("⟨")
    }
    fn rparen(f: Fm) -> R {
        f.write_str("⟩")
    }
    fn undef(f: Fm) -> R {
        f.write_str("⊥")
    }
    fn rational(r: &Rational, f: Fm) -> R {
        if r.is_int() {
            write!(f, "{}", r.numer())
        } else {
            write!(f, "{}⊘{}", r.numer(), r.denom())
        }
    }
    fn irrational(i: &Irrational, f: Fm) -> R {
        f.write_str(match i {
            Irrational::E => "ⅇ",
            Irrational::PI => "ϖ",
        })
    }
    fn var(v: &str, f: Fm) -> R {
        f.write_str(v)
    }
}
struct InOther<'a>(&'a FmtAtom);
impl std::fmt::Display for InOther<'_> {
    fn fmt(&self, f: Fm) -> R {
        Other::atom(self.0, f)
    }
}
/// from its symbols to those of the library
fn translated(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        r.push(match c {
            '⊖' => '−',
            '⊕' => '+',
            '⊗' => '·',
            '⊘' => '/',
            '↑' => '^',
            '␣' => ' ',
            '‚' => ',',
            '⟨' => '(',
            '⟩' => ')',
            '⊥' => '∅',
            'ⅇ' => '𝓮',
            'ϖ' => 'π',
            c => c,
        });
    }
    r
}

fn check(c: &Case, o: &mut Out) {
    let t = &c.args[0];
    let e = build(t);
    if c.args.len() == 2 {
        let (l, r) = (e.atom().fmt_ast(), build(&c.args[1]).atom().fmt_ast());
        let (a, b) = (t.clone(), c.args[1].clone());
        let s = o.call(&c.op, || match c.op.as_str() {
            "+" => l + r,
            "-" => l - r,
            "*" => l * r,
            _ => l.pow(r),
        }.to_string());
        let Some(s) = s else { return };
        // a negated quotient behind a product reads "x·-1/y", which the grammar has not
        if c.op == "-" && s.contains("·-") {
            return;
        }
        let want = match c.op.as_str() {
            "+" => sum([a, b]),
            "-" => sum([a, prod([T::int(-1), b])]),
            "*" => prod([a, b]),
            _ => T::pow(a, b),
        };
        return judge(&s, &want, o);
    }
    let Some(s) = o.call("to_string", || e.to_string()) else { return };
    // the same through the other ways of printing
    let Some(s2) = o.call("fmt_ast", || e.atom().fmt_ast().to_string()) else { return };
    let Some(s3) = o.call("to_string", || e.atom().to_string()) else { return };
    o.check(s == s2 && s == s3, "forms", || format!("{s:?}, {s2:?} and {s3:?}"));
    judge(&s, t, o);
    // a notation that a user defines differs in its symbols only
    let Some(s4) = o.call("SymbolicFormatter", || InOther(&e.atom().fmt_ast()).to_string()) else { return };
    o.check(translated(&s4) == s.replace('-', "−"), "symbols", || format!("{s4:?} in other symbols, {s:?} in those of the library"));
    // parts that can be printed on their own
    if let Atom::Func(f) = e.atom() {
        if let Some(s) = o.call("to_string", || f.to_string()) {
            judge(&s, t, o);
        }
    }
    if let Some(r) = e.atom().try_as_real() {
        if let Some(s) = o.call("to_string", || r.to_string()) {
            judge(&s, t, o);
        }
    }
}

fn judge(s: &str, t: &T, o: &mut Out) {
    match read_back(s) {
        Err(m) => {
            o.check(false, "unreadable", || format!("{s:?}: {m}"));
        }
        Ok(r) => {
            let (a, b) = (canon(t), canon(&r));
            o.check(a == b, "reading", || format!("{s:?} reads as {b}, printed from {a}"));
        }
    }
}

pub static DISPLAY: Prop = Prop { id: "C16", cases, check, follow: no_follow, bounds: |t| format!("48 operands that are printed differently: every power of two, every function of each, every binary sum and product in both orders, each of them combined with 26 operands by sum and product on either side, under 12 powers and two functions; every ternary sum and product of {} operands; all trees of the general space; the printed forms of each two operands put together by + - * ^; every text once more in a notation with symbols of its own{}", t.pick(26, 48), t.pick("", "; quaternary sums and products of 26 operands in two orders")), assumptions: &["texts are read with the grammar given in display.rs: juxtaposition is a product, products and quotients associate to the left, ^ binds tightest, a sign covers the product behind it, sin^2(x) is sin(x)^2"] };
