//! The expr! macro reads mathematical notation with the usual precedences.
//!
//! The macro runs when a program is compiled.  The cases are written into a
//! source file, which is compiled against the library and run once; the explorer
//! then judges every entry of the table it printed.

use super::value::value;
use crate::engine::*;
use crate::tree::*;
use calcu_rs::Expr;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::OnceLock;

fn out() -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/../out"))
}

const OPS: [&str; 5] = ["+", "-", "*", "/", "^"];
const NAMES: [&str; 4] = ["a", "b", "c", "d"];

fn texts(t: Tier) -> Vec<String> {
    let big = t == Tier::Thorough;
    let mut v: Vec<String> = vec![];
    let mut seqs: Vec<Vec<&str>> = vec![vec![]];
    let mut all: Vec<Vec<&str>> = vec![];
    for _ in 0..(if big { 4 } else { 3 }) {
        seqs = seqs.iter().flat_map(|s| OPS.iter().map(move |o| [s.clone(), vec![*o]].concat())).collect();
        all.extend(seqs.clone());
    }
    let names = ["a", "b", "c", "d", "f"];
    for s in &all {
        // signs in front of the operands
        let n = s.len() + 1;
        for m in 0..1u32 << n {
            if n > 3 && m.count_ones() > (if big && n == 4 { 2 } else { 1 }) {
                continue;
            }
            let mut r = String::new();
            for i in 0..n {
                if i > 0 {
                    r += &format!(" {} ", s[i - 1]);
                }
                if m >> i & 1 == 1 {
                    r += "-";
                }
                r += names[i];
            }
            v.push(r);
        }
    }
    // numbers, constants, functions and parentheses as operands, with signs
    for leaves in [["12", "11", "2"], ["12", "x", "11"], ["x", "10", "y"], ["pi", "25", "abc"], ["sin(x)", "14", "ln(y)"], ["(a + b)", "13", "(c * d)"], ["x", "(17)", "pi"], ["4294967296", "x", "3"], ["undef", "x", "10"]] {
        for s in all.iter().filter(|s| s.len() <= 2) {
            let n = s.len() + 1;
            for m in 0..1u32 << n {
                let mut r = String::new();
                for i in 0..n {
                    if i > 0 {
                        r += &format!(" {} ", s[i - 1]);
                    }
                    if m >> i & 1 == 1 {
                        r += "-";
                    }
                    r += leaves[i];
                }
                v.push(r);
            }
        }
    }
    // parentheses
    for s in &all {
        let shapes: &[&str] = match s.len() {
            2 => &["(a 0 b) 1 c", "a 0 (b 1 c)", "-(a 0 b) 1 c", "a 0 -(b 1 c)", "(-a 0 b) 1 c", "a 0 (-b 1 c)", "(a 0 b 1 c)", "-(a 0 b 1 c)", "(a) 0 (b) 1 ((c))"],
            3 => &[
                "((a 0 b) 1 c) 2 d",
                "(a 0 (b 1 c)) 2 d",
                "(a 0 b) 1 (c 2 d)",
                "a 0 ((b 1 c) 2 d)",
                "a 0 (b 1 (c 2 d))",
                "(a 0 b) 1 c 2 d",
                "a 0 (b 1 c) 2 d",
                "a 0 b 1 (c 2 d)",
                "(a 0 b 1 c) 2 d",
                "a 0 (b 1 c 2 d)",
                "a 0 -(b 1 c) 2 d",
                "-(a 0 b) 1 c 2 d",
            ],
            _ => continue,
        };
        for sh in shapes {
            let mut r = sh.to_string();
            for (i, o) in s.iter().enumerate() {
                r = r.replace(&i.to_string(), o);
            }
            v.push(r);
        }
    }
    // numbers and constants
    let nums = ["0", "1", "2", "10", "-1", "-3", "pi", "undef", "a", "-a", "1_000", "9223372036854775807"];
    for x in nums {
        v.push(x.to_string());
        for y in nums {
            for o in OPS {
                if o == "^" && (x.len() > 4 && y != "0" && y != "1" || y.len() > 4) || x.len() > 5 && y.len() > 5 {
                    continue;
                }
                v.push(format!("{x} {o} {y}"));
                v.push(format!("({x}) {o} ({y})"));
            }
        }
    }
    for n in [
        "alpha", "x1", "a_b", "e", "sin", "oops", "ln", "Pi", "x_", "_y", "pix", "pi2", "pi_", "_pi", "api", "PI", "undefined", "undef1", "Undef", "und", "o", "oo1", "ooo", "OO", "i", "I", "inf", "x10",
        "x_1_2", "xyz", "zyx", "X", "α", "ρ_1", "ßx", "éclair", "cosx", "exp", "log10", "sqrt", "add", "pow_raw", "i64", "u8", "f32", "None", "Some", "Expr", "core", "calcu_rs", "dx", "__", "a_rather_long_name_of_a_variable_0123456789",
    ] {
        v.push(n.to_string());
        v.push(format!("-{n} ^ 2 + 2 * {n}"));
        v.push(format!("sin({n}) / ({n})"));
    }
    for n in ["0x1f", "0b101", "0o17", "7u8", "12i64", "1__0", "0001", "123456789", "0xFFFF_FFFF", "4294967295", "4294967296", "2147483648", "9007199254740993", "255", "256", "127", "128", "32768", "65536"] {
        v.push(n.to_string());
        v.push(format!("x - {n} * -{n}"));
        v.push(format!("x / {n} / -{n}"));
        v.push(format!("x ^ -({n} + 1)"));
    }
    // long chains
    let ops: Vec<Vec<&str>> = OPS.iter().map(|o| vec![*o]).chain(OPS.iter().flat_map(|a| OPS.iter().filter(move |b| *b != a).map(move |b| vec![*a, *b]))).collect();
    let ops: Vec<Vec<&str>> = ops.into_iter().chain([vec!["+", "*", "^"], vec!["-", "/", "^"], vec!["^", "/", "-"], vec!["*", "-", "+", "/"]]).collect();
    for s in &ops {
        let longest = if big { 14 } else { 9 };
        // the exponents of long towers are out of range
        let more: &[usize] = if s.contains(&"^") { &[] } else { &[16, 17, 24, 33, 40] };
        for len in (5..=longest).chain(more.iter().copied()) {
            let operand = |i: usize, k: usize| match (k, i % 3) {
                (0, _) | (_, 0) => ["a", "b", "c", "d", "f", "g", "h"][i % 7].to_string(),
                (1, _) => format!("-{}", ["x", "y"][i % 2]),
                (2, 1) => "(x + y)".to_string(),
                (2, _) => format!("{}", i + 1),
                (_, 1) => "sin(x - y - z)".to_string(),
                _ => "-(x / y / z)".to_string(),
            };
            for k in 0..4 {
                let mut r = operand(0, k);
                for i in 1..=len {
                    r += &format!(" {} {}", s[(i - 1) % s.len()], operand(i, k));
                }
                v.push(r);
            }
            // nested to the right and to the left
            let mut r = operand(0, 0);
            let mut l = operand(0, 0);
            for i in 1..=len {
                r = format!("{} {} ({r})", operand(i, 1), s[(i - 1) % s.len()]);
                l = format!("({l}) {} {}", s[(i - 1) % s.len()], operand(i, 1));
            }
            v.extend([r, l]);
        }
    }
    // functions
    let args = ["x", "-x", "x ^ 2", "-x ^ 2", "x + 1", "2 * x - y", "x / y", "sin(x)", "-cos(x) ^ 2", "(x + y) * z", "pi / 6"];
    for f in FUNCS {
        for a in args {
            let p = format!("{f}({a})");
            for r in ["@", "-@", "@ ^ 2", "-@ ^ 2", "2 ^ @", "2 ^ -@", "a * @ + b", "a - @ * b", "@ / @", "1 / @ ^ 2", "@ ^ -@"] {
                v.push(r.replace('@', &p));
            }
        }
    }
    for f in ["add", "sub", "mul", "div", "pow", "add_raw", "mul_raw", "div_raw", "pow_raw"] {
        for (a, b) in [("x", "y"), ("x + 1", "-y"), ("x", "x"), ("2", "x ^ 2"), ("a - b - c", "a / b / c"), ("-x ^ 2", "sin(x)")] {
            for r in ["@", "-@ ^ 2", "1 - @ * z", "z ^ @"] {
                v.push(r.replace('@', &format!("{f}({a}, {b})")));
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| seen.insert(s.clone()));
    v
}

/// what is no expression, and must not compile
const MALFORMED: &[&str] = &[
    "", "x y", "2 x", "x 2", "2 3", "(x) (y)", "(x) y", "x (y) z", "sin(x) y", "x + y z", "x + (y z)", "x +", "x -", "x * ", "x ^", "x /", "* x", "/ x", "^ x", "x * / y", "x + * y", "x ^ ^ y", "(x +)", "(* x)", "()", "x + ()", "x, y",
    "x; y", "x -> y", "x < y", "x = y", "x == y", "x % y", "x ! y", "!x", "x & y", "x | y", "a.b", "x[1]", "[x]", "{x}", "\"x\"", "'a'", "'a", "?x", "x + ?y", "sin()", "sin(x, y)", "pow(x)", "pow(x, y, z)", "sin(x y)", "sin(,)", "pow(x,,y)",
    "nothing_of_this_name(x)", "#x", "x $ y", "x @ y", "x ~ y", "sin x", "(x, y)", "x => y", "x :: y", "x : y", "x .. y", "..", "_", "x - - ", "-", "+", "x ^ (y z)", "ln(2 x)",
];

const FUNCS: [&str; 16] = [
    "sin", "cos", "tan", "sec", "cot", "csc", "arc_sin", "arc_cos", "arc_tan", "arc_sec", "arc_cot", "arc_csc", "ln", "log10", "exp", "sqrt",
];

// ---------------------------------------------------------------------------
// the reference: sums of products of signed powers, all left associative, a sign
// covers the power behind it

#[derive(Debug, Clone)]
enum N {
    Num(i128),
    Name(String),
    Neg(Box<N>),
    Bin(char, Box<N>, Box<N>),
    Call(String, Vec<N>),
}

struct Parser<'a> {
    c: &'a [u8],
    i: usize,
}
impl Parser<'_> {
    fn peek(&mut self) -> u8 {
        while self.i < self.c.len() && self.c[self.i] == b' ' {
            self.i += 1;
        }
        self.c.get(self.i).copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) -> bool {
        let y = self.peek() == c;
        self.i += y as usize;
        y
    }
    fn left(&mut self, ops: &[u8], next: &mut dyn FnMut(&mut Self) -> N) -> N {
        let mut l = next(self);
        while ops.contains(&self.peek()) {
            let o = self.c[self.i] as char;
            self.i += 1;
            let r = next(self);
            l = N::Bin(o, l.into(), r.into());
        }
        l
    }
    fn sum(&mut self) -> N {
        self.left(b"+-", &mut |p| p.left(b"*/", &mut |p| p.signed()))
    }
    fn signed(&mut self) -> N {
        if self.eat(b'-') {
            return N::Neg(self.signed().into());
        }
        let mut l = self.atom();
        while self.eat(b'^') {
            let mut signs = 0;
            while self.eat(b'-') {
                signs += 1;
            }
            let mut r = self.atom();
            for _ in 0..signs {
                r = N::Neg(r.into());
            }
            l = N::Bin('^', l.into(), r.into());
        }
        l
    }
    fn atom(&mut self) -> N {
        let c = self.peek();
        if self.eat(b'(') {
            let s = self.sum();
            assert!(self.eat(b')'));
            return s;
        }
        let from = self.i;
        while self.i < self.c.len() && (self.c[self.i].is_ascii_alphanumeric() || self.c[self.i] == b'_' || self.c[self.i] >= 128) {
            self.i += 1;
        }
        let w = std::str::from_utf8(&self.c[from..self.i]).unwrap().to_string();
        assert!(!w.is_empty(), "no operand");
        if c.is_ascii_digit() {
            return N::Num(number(&w.replace('_', "")));
        }
        if self.eat(b'(') {
            let mut a = vec![self.sum()];
            while self.eat(b',') {
                a.push(self.sum());
            }
            assert!(self.eat(b')'));
            return N::Call(w, a);
        }
        N::Name(w)
    }
}
/// a number as Rust writes it
fn number(w: &str) -> i128 {
    for (p, r) in [("0x", 16), ("0b", 2), ("0o", 8)] {
        if let Some(d) = w.strip_prefix(p) {
            return i128::from_str_radix(d, r).unwrap();
        }
    }
    w.trim_end_matches("u8").trim_end_matches("i64").parse().unwrap()
}
fn parse_text(s: &str) -> N {
    let mut p = Parser { c: s.as_bytes(), i: 0 };
    let n = p.sum();
    assert!(p.peek() == 0, "text left over in {s:?}");
    n
}

/// what it denotes
fn tree(n: &N) -> T {
    let neg = |t: T| T::Prod(vec![T::int(-1), t]);
    match n {
        N::Num(n) => T::int(*n),
        N::Name(s) if s == "pi" => T::Pi,
        N::Name(s) if s == "undef" => T::Undef,
        N::Name(s) => T::var(s),
        N::Neg(x) => neg(tree(x)),
        N::Bin(o, a, b) => bin(*o, tree(a), tree(b)),
        N::Call(f, a) => {
            let mut a: Vec<T> = a.iter().map(tree).collect();
            if a.len() == 2 {
                let b = a.pop().unwrap();
                let o = match f.trim_end_matches("_raw") {
                    "add" => '+',
                    "sub" => '-',
                    "mul" => '*',
                    "div" => '/',
                    _ => '^',
                };
                return bin(o, a.pop().unwrap(), b);
            }
            let x = a.pop().unwrap();
            match f.as_str() {
                "ln" => T::f(F::Log(Base::E), x),
                "log10" => T::f(F::Log(Base::Rat(10, 1)), x),
                "exp" => T::pow(T::E, x),
                "sqrt" => T::pow(x, T::Rat(1, 2)),
                f => T::f(F::from_name(&f.replace("arc_", "a")).unwrap(), x),
            }
        }
    }
}
fn bin(o: char, a: T, b: T) -> T {
    match o {
        '+' => T::Sum(vec![a, b]),
        '-' => T::Sum(vec![a, T::Prod(vec![T::int(-1), b])]),
        '*' => T::Prod(vec![a, b]),
        '/' => T::Prod(vec![a, T::pow(b, T::int(-1))]),
        _ => T::pow(a, b),
    }
}

/// the same built with the library's functions
fn built(n: &N) -> Expr {
    match n {
        N::Num(_) | N::Name(_) => build(&tree(n)),
        N::Neg(x) => Expr::mul(Expr::from(-1), built(x)),
        N::Bin(o, a, b) => {
            let (a, b) = (built(a), built(b));
            match o {
                '+' => Expr::add(a, b),
                '-' => Expr::sub(a, b),
                '*' => Expr::mul(a, b),
                '/' => Expr::div(a, b),
                _ => Expr::pow(a, b),
            }
        }
        N::Call(f, a) if a.len() == 2 => {
            let (a, b) = (built(&a[0]), built(&a[1]));
            match f.as_str() {
                "add" => Expr::add(a, b),
                "sub" => Expr::sub(a, b),
                "mul" => Expr::mul(a, b),
                "div" => Expr::div(a, b),
                "pow" => Expr::pow(a, b),
                "add_raw" => Expr::add_raw(a, b),
                "mul_raw" => Expr::mul_raw(a, b),
                "div_raw" => Expr::div_raw(a, b),
                _ => Expr::pow_raw(a, b),
            }
        }
        N::Call(f, a) => {
            let x = built(&a[0]);
            match f.as_str() {
                "exp" => Expr::exp(x),
                "sqrt" => Expr::sqrt(x),
                "ln" => Expr::ln(x),
                "log10" => Expr::log10(x),
                "sin" => Expr::sin(x),
                "cos" => Expr::cos(x),
                "tan" => Expr::tan(x),
                "sec" => Expr::sec(x),
                "cot" => Expr::cot(x),
                "csc" => Expr::csc(x),
                "arc_sin" => Expr::arc_sin(x),
                "arc_cos" => Expr::arc_cos(x),
                "arc_tan" => Expr::arc_tan(x),
                "arc_sec" => Expr::arc_sec(x),
                "arc_cot" => Expr::arc_cot(x),
                _ => Expr::arc_csc(x),
            }
        }
    }
}

// ---------------------------------------------------------------------------

/// compile the cases and tabulate what they evaluate to; called once, before the
/// workers start
pub fn prepare(tier: Tier) {
    let out = out();
    std::fs::create_dir_all(&out).unwrap();
    let mut texts = texts(tier);
    texts.extend(MALFORMED.iter().map(|t| t.to_string()));
    let mut rejected: HashMap<usize, String> = HashMap::new();
    for _round in 0..6 {
        let mut src = String::from("static CASES: &[(usize, fn() -> Expr)] = &[\n");
        let mut line_of = vec![];
        for (i, t) in texts.iter().enumerate() {
            if !rejected.contains_key(&i) {
                src += &format!("({i}, || e!({t})),\n");
                line_of.push(i);
            }
        }
        src += "];\n";
        let f = out.join("notation.rs");
        if std::fs::read_to_string(&f).ok().as_deref() != Some(src.as_str()) {
            std::fs::write(&f, &src).unwrap();
        }
        let r = std::process::Command::new("cargo")
            .args(["build", "--release", "--offline", "--quiet", "--bin", "notation", "--message-format", "short"])
            .current_dir(env!("CARGO_MANIFEST_DIR"))
            .env("CARGO_NET_OFFLINE", "true")
            .env("CARGO_TARGET_DIR", concat!(env!("CARGO_MANIFEST_DIR"), "/target"))
            .env_remove("RUSTFLAGS")
            .output()
            .expect("cannot run cargo");
        if r.status.success() {
            break;
        }
        let err = String::from_utf8_lossy(&r.stderr);
        let before = rejected.len();
        for l in err.lines() {
            let Some((_, l)) = l.split_once("out/notation.rs:") else { continue };
            let mut p = l.splitn(3, ':');
            let (Some(line), _, Some(m)) = (p.next(), p.next(), p.next()) else { continue };
            if let (Ok(n), true) = (line.parse::<usize>(), m.contains("error")) {
                if n >= 2 && n - 2 < line_of.len() {
                    rejected.entry(line_of[n - 2]).or_insert_with(|| m.trim().to_string());
                }
            }
        }
        if rejected.len() == before {
            eprintln!("the generated uses of expr! do not compile:\n{err}");
            std::process::exit(3);
        }
    }
    let bin = concat!(env!("CARGO_MANIFEST_DIR"), "/target/release/notation");
    let r = std::process::Command::new(bin).output().expect("cannot run the generated program");
    if !r.status.success() {
        eprintln!("the generated program failed: {}", String::from_utf8_lossy(&r.stderr));
        std::process::exit(3);
    }
    let mut table = String::new();
    for l in String::from_utf8_lossy(&r.stdout).lines() {
        let (i, t) = l.split_once('\t').unwrap();
        table += &format!("{}\t{t}\n", texts[i.parse::<usize>().unwrap()]);
    }
    for (i, m) in rejected {
        table += &format!("{}\trejected: {m}\n", texts[i]);
    }
    std::fs::write(out.join("notation.tsv"), table).unwrap();
}

fn table() -> &'static HashMap<String, String> {
    static T: OnceLock<HashMap<String, String>> = OnceLock::new();
    T.get_or_init(|| {
        std::fs::read_to_string(out().join("notation.tsv"))
            .expect("no table of macro results")
            .lines()
            .map(|l| l.split_once('\t').unwrap())
            .map(|(a, b)| (a.to_string(), b.to_string()))
            .collect()
    })
}

fn cases(t: Tier, emit: Emit) {
    for s in texts(t) {
        emit(Case::new(format!("expr! {s}"), []));
    }
    for s in MALFORMED {
        emit(Case::new(format!("malformed! {s}"), []));
    }
}

fn check(c: &Case, o: &mut Out) {
    if let Some(text) = c.op.strip_prefix("malformed! ") {
        let got = table().get(text).unwrap_or_else(|| panic!("{text} is not in the table"));
        o.check(got.starts_with("rejected: "), "accepted", || format!("became {got}"));
        return;
    }
    let text = c.op.strip_prefix("expr! ").unwrap();
    let n = parse_text(text);
    let got = table().get(text).unwrap_or_else(|| panic!("{text} is not in the table"));
    if got == "panic" {
        return o.fail("panic", "evaluating it panicked".into());
    }
    if let Some(m) = got.strip_prefix("rejected: ") {
        return o.fail("rejected", m.into());
    }
    let got = parse(got);
    o.state(&got);
    let want = tree(&n);
    value(&want, &got, o);
    let Some(b) = o.call("the functions", || built(&n)) else { return };
    let b = read(&b);
    o.check(b.unordered() == got.unordered(), "functions", || format!("{got}, with the functions {b}"));
}

pub static NOTATION: Prop = Prop { id: "C18", cases, check, follow: no_follow, bounds: |t| format!("every sequence of at most {} operators with signs in front of the operands, with the parentheses of 9 and 12 patterns around two and three operators, 12 numbers and constants in pairs, 16 functions of 11 arguments in 11 contexts, 9 functions of two arguments, many identifiers and number literals, chains of up to 40 operators; {} texts that are no expressions", t.pick(3, 4), MALFORMED.len()), assumptions: &["the generated program is compiled by the installed compiler", "floating point numbers and oo, which the macro does not support, are not used"] };
