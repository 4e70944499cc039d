//! The built-in functions of the rule language.
//!
//! They are not public: a hook in src/rubi.rs, which only this check compiles in
//! (cfg calcu_mc), calls them by name.  A program of its own (src/bin/builtins.rs) runs
//! every case once; the explorer then judges every entry of the table it printed.

use super::value::value;
use crate::engine::*;
use crate::space;
use crate::tree::*;
use calcu_rs::Expr;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

fn out() -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/../out"))
}

const KINDS: [&str; 12] = ["FalseQ", "TrueQ", "IntegerQ", "FractionQ", "NumberQ", "EvenQ", "OddQ", "ProductQ", "SumQ", "PowQ", "AtomQ", "ComplexNumberQ"];
const FUNCS: [&str; 10] = ["Sin", "ArcSin", "Cos", "ArcCos", "Tan", "ArcTan", "Sqrt", "Log", "Exp", "Expand"];

/// a case is the name of a function and its arguments, which are trees or True,
/// False, None
fn texts(t: Tier) -> Vec<String> {
    let mut v = vec![];
    let mut trees = space::general(t == Tier::Thorough);
    trees.extend(space::number_family(false));
    trees.extend(space::huge_family());
    trees.extend(space::expansion_family(false));
    trees = crate::gen::dedup(trees);
    for f in KINDS.iter().chain(&FUNCS) {
        for a in ["True", "False", "None"] {
            v.push(format!("{f} | {a}"));
        }
        for a in &trees {
            v.push(format!("{f} | {a}"));
        }
    }
    for a in ["True", "False"] {
        v.push(format!("Not | {a}"));
    }
    for b in ["2", "10", "1/2", "3/7", "100", "#e", "#pi", "7"] {
        for a in trees.iter().filter(|a| a.size() <= 4) {
            v.push(format!("Log | {b} | {a}"));
        }
        for a in ["True", "False", "None"] {
            v.push(format!("Log | {b} | {a}"));
            v.push(format!("Log | {a} | x"));
        }
    }
    for b in ["x", "(+ x 1)", "(sin 1)", "undef", "(^ 2 1/2)"] {
        v.push(format!("Log | {b} | y"));
    }
    for x in ["x", "y", "z"] {
        for a in trees.iter().filter(|a| a.size() <= 6) {
            v.push(format!("Derivative | {a} | {x}"));
        }
        for a in ["True", "False", "None"] {
            v.push(format!("Derivative | {a} | {x}"));
            v.push(format!("Derivative | {x} | {a}"));
        }
    }
    // the number of arguments
    for f in KINDS.iter().filter(|f| **f != "ComplexNumberQ").chain(&FUNCS) {
        if *f != "Log" {
            v.push(format!("{f} | x | y"));
        }
        v.push(format!("{f} | x | y | z"));
        v.push(f.to_string());
    }
    for s in ["Not | True | True", "Derivative | x", "Derivative | x | y | z", "Derivative"] {
        v.push(s.into());
    }
    v
}

/// run the cases in the program with the hook; called once, before the workers
/// start
pub fn prepare(tier: Tier) {
    let out = out();
    std::fs::create_dir_all(&out).unwrap();
    let texts = texts(tier);
    let r = Command::new("cargo")
        .args(["build", "--release", "--offline", "--quiet", "--bin", "builtins", "--features", "hooks"])
        .current_dir(env!("CARGO_MANIFEST_DIR"))
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TARGET_DIR", concat!(env!("CARGO_MANIFEST_DIR"), "/target/hooks"))
        .env("RUSTFLAGS", "--cfg calcu_mc")
        .output()
        .expect("cannot run cargo");
    if !r.status.success() {
        eprintln!("the program with the hook does not compile:\n{}", String::from_utf8_lossy(&r.stderr));
        std::process::exit(3);
    }
    let bin = concat!(env!("CARGO_MANIFEST_DIR"), "/target/hooks/release/builtins");
    let mut results: Vec<String> = vec![];
    let mut deaths = 0;
    while results.len() < texts.len() {
        let mut p = Command::new(bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot run the program");
        let mut w = p.stdin.take().unwrap();
        let todo = texts[results.len()..].join("\n") + "\n";
        let t = std::thread::spawn(move || drop(w.write_all(todo.as_bytes())));
        // a case that does not come back within ten seconds ends the program
        let (tx, rx) = std::sync::mpsc::channel();
        let stdout = p.stdout.take().unwrap();
        std::thread::spawn(move || {
            for l in BufReader::new(stdout).lines() {
                if l.is_err() || tx.send(l.unwrap()).is_err() {
                    break;
                }
            }
        });
        while let Ok(l) = rx.recv_timeout(std::time::Duration::from_secs(10)) {
            results.push(l);
        }
        p.kill().ok();
        p.wait().ok();
        t.join().ok();
        if results.len() < texts.len() {
            results.push("died".into());
            deaths += 1;
            if deaths == 20 {
                results.resize(texts.len(), "not run".into());
            }
        }
    }
    let mut table = String::new();
    for (t, r) in texts.iter().zip(results) {
        table += &format!("{t}\t{r}\n");
    }
    std::fs::write(out.join("builtins.tsv"), table).unwrap();
}

fn table() -> &'static HashMap<String, String> {
    static T: OnceLock<HashMap<String, String>> = OnceLock::new();
    T.get_or_init(|| {
        std::fs::read_to_string(out().join("builtins.tsv"))
            .expect("no table of results")
            .lines()
            .map(|l| l.split_once('\t').unwrap())
            .map(|(a, b)| (a.to_string(), b.to_string()))
            .collect()
    })
}

/// a case of the engine has trees only
fn cases(t: Tier, emit: Emit) {
    for s in texts(t) {
        let mut op = String::new();
        let mut args = vec![];
        for (i, a) in s.split(" | ").enumerate() {
            match a {
                a if i == 0 => op += a,
                "True" | "False" | "None" => op += &format!(" {a}"),
                a => {
                    op += " _";
                    args.push(parse(a));
                }
            }
        }
        emit(Case::new(op, args));
    }
}

enum Want {
    Bool(bool),
    /// what it denotes, and the same with the library's public functions
    Value(T, Box<dyn Fn() -> Expr>),
    Rejected,
}

fn want(f: &str, a: &[Option<T>], words: &[&str]) -> Want {
    use Want::*;
    if f == "ComplexNumberQ" {
        return Bool(false);
    }
    let n = a.len();
    if n != if f == "Derivative" { 2 } else { 1 } && !(f == "Log" && n == 2) {
        return Rejected;
    }
    if f == "Not" {
        return Bool(words[0] == "False");
    }
    if f == "FalseQ" || f == "TrueQ" {
        return Bool(a[0].is_none() && words[0] == f.trim_end_matches('Q'));
    }
    if f.ends_with('Q') {
        let Some(t) = &a[0] else { return Bool(false) };
        return Bool(match f {
            "IntegerQ" => matches!(t, T::Rat(_, 1)),
            "FractionQ" => matches!(t, T::Rat(_, d) if *d != 1),
            "NumberQ" => matches!(t, T::Rat(..) | T::E | T::Pi),
            "EvenQ" => matches!(t, T::Rat(n, 1) if n % 2 == 0),
            "OddQ" => matches!(t, T::Rat(n, 1) if n % 2 != 0),
            "ProductQ" => matches!(t, T::Prod(_)),
            "SumQ" => matches!(t, T::Sum(_)),
            "PowQ" => matches!(t, T::Pow(..)),
            _ => matches!(t, T::Rat(..) | T::E | T::Pi | T::Undef | T::Var(_)),
        });
    }
    if a.iter().any(|a| a.is_none()) {
        return Rejected;
    }
    let a: Vec<T> = a.iter().map(|a| a.clone().unwrap()).collect();
    let x = a[0].clone();
    let y = x.clone();
    match f {
        "Sin" => Value(T::f(F::Sin, x), Box::new(move || Expr::sin(build(&y)))),
        "ArcSin" => Value(T::f(F::ASin, x), Box::new(move || Expr::arc_sin(build(&y)))),
        "Cos" => Value(T::f(F::Cos, x), Box::new(move || Expr::cos(build(&y)))),
        "ArcCos" => Value(T::f(F::ACos, x), Box::new(move || Expr::arc_cos(build(&y)))),
        "Tan" => Value(T::f(F::Tan, x), Box::new(move || Expr::tan(build(&y)))),
        "ArcTan" => Value(T::f(F::ATan, x), Box::new(move || Expr::arc_tan(build(&y)))),
        "Sqrt" => Value(T::pow(x, T::Rat(1, 2)), Box::new(move || Expr::sqrt(build(&y)))),
        "Exp" => Value(T::pow(T::E, x), Box::new(move || Expr::exp(build(&y)))),
        "Expand" => Value(x, Box::new(move || build(&y).expand())),
        "Log" if n == 1 => Value(T::f(F::Log(Base::E), x), Box::new(move || Expr::ln(build(&y)))),
        "Log" => {
            let z = a[1].clone();
            let u = z.clone();
            match x {
                T::Rat(n, d) => Value(T::f(F::Log(Base::Rat(n, d)), z), Box::new(move || build(&T::f(F::Log(Base::Rat(n, d)), u.clone())))),
                T::E => Value(T::f(F::Log(Base::E), z), Box::new(move || build(&T::f(F::Log(Base::E), u.clone())))),
                T::Pi => Value(T::f(F::Log(Base::Pi), z), Box::new(move || build(&T::f(F::Log(Base::Pi), u.clone())))),
                _ => Rejected,
            }
        }
        _ => {
            let v = a[1].clone();
            let T::Var(name) = v.clone() else { return Rejected };
            // where the expression itself is undefined its derivative is not judged
            Value(T::Sum(vec![super::deriv::reference(&x, &name), T::Prod(vec![T::int(0), x.clone()])]), Box::new(move || build(&y).derivative(build(&v))))
        }
    }
}

fn check(c: &Case, o: &mut Out) {
    let mut words = c.op.split(' ');
    let f = words.next().unwrap();
    let words: Vec<&str> = words.collect();
    let mut trees = c.args.iter();
    let args: Vec<Option<T>> = words.iter().map(|w| if *w == "_" { trees.next().cloned() } else { None }).collect();
    let mut text = f.to_string();
    for (w, a) in words.iter().zip(&args) {
        text += " | ";
        match a {
            Some(t) => text += &t.to_string(),
            None => text += w,
        }
    }
    let got = table().get(&text).unwrap_or_else(|| panic!("{text} is not in the table"));
    match want(f, &args, &words) {
        _ if got == "not run" => o.vacuous(),
        _ if got == "died" => o.fail("died", "the program died or did not return".into()),
        Want::Bool(b) => {
            o.check(got == if b { "True" } else { "False" }, "answer", || format!("{got}, not {b}"));
        }
        Want::Rejected => {
            o.check(got == "panic", "accepted", || format!("gives {got}"));
        }
        Want::Value(w, lib) => {
            o.compared();
            if ["panic", "True", "False", "None"].contains(&got.as_str()) {
                return o.fail("answer", format!("gives {got}"));
            }
            let got = parse(got);
            o.state(&got);
            value(&w, &got, o);
            let Some(b) = o.call("the public function", || lib()) else { return };
            let b = read(&b);
            o.check(b.unordered() == got.unordered(), "functions", || format!("{got}, with the public functions {b}"));
        }
    }
}

pub static BUILTINS: Prop = Prop { id: "C20", cases, check, follow: no_follow, bounds: |_| "12 predicates and 10 functions of every tree with at most two operators over seven alphabets, of numbers of many values in 60 contexts, of True, False and nothing; logarithms to 8 bases; derivatives by three variables; every wrong number of arguments up to three".into(), assumptions: &["the hook in src/rubi.rs passes arguments and results on unchanged"] };
