//! Expressions are values: what an operation does depends on what its operands
//! are, not on where they came from or with whom they share parts, and it touches
//! nothing but its target.

use super::value::apply;
use crate::engine::*;
use crate::gen::ts;
use crate::space;
use crate::tree::*;
use calcu_rs::atom::Atom;
use calcu_rs::{Expr, SymbolicExpr};
use std::collections::HashMap;

/// built so that equal subexpressions are the same object
fn build_shared(t: &T, seen: &mut HashMap<T, Expr>) -> Expr {
    if let Some(e) = seen.get(t) {
        return e.clone();
    }
    let e = match t {
        T::Sum(a) | T::Prod(a) => {
            let args: Vec<Expr> = a.iter().map(|t| build_shared(t, seen)).collect();
            match t {
                T::Sum(_) => Expr::from(Atom::Sum(calcu_rs::atom::Sum { args })),
                _ => Expr::from(Atom::Prod(calcu_rs::atom::Prod { args })),
            }
        }
        T::Pow(b, e) => {
            let b = build_shared(b, seen);
            Expr::pow_raw(b, build_shared(e, seen))
        }
        T::Fn(_, a) => {
            let a = build_shared(a, seen);
            let mut e = build(t);
            e.args_mut()[0] = a;
            e
        }
        t => build(t),
    };
    seen.insert(t.clone(), e.clone());
    e
}

const UNARY: [&str; 12] = [
    "reduce", "expand", "sort_args", "expand_trig", "contract_trig", "substitute_trig", "expand_ln", "expand_exponential", "rationalize", "factor_out", "cancel", "distribute",
];
/// everything that can be asked of one expression, the same with several arguments
#[allow(clippy::type_complexity)]
const QUERIES: [(&str, fn(&Expr) -> T); 36] = [
    ("reduce", |e| read(&e.reduce())),
    ("expand", |e| read(&e.expand())),
    ("sort_args", |e| read(&e.sort_args())),
    ("expand_trig", |e| read(&e.expand_trig())),
    ("contract_trig", |e| read(&e.contract_trig())),
    ("substitute_trig", |e| read(&e.substitute_trig())),
    ("expand_ln", |e| read(&e.expand_ln())),
    ("expand_exponential", |e| read(&e.expand_exponential())),
    ("rationalize", |e| read(&e.rationalize())),
    ("factor_out", |e| read(&e.factor_out())),
    ("cancel", |e| read(&e.cancel())),
    ("distribute", |e| read(&e.distribute())),
    ("expand_main_op", |e| read(&e.expand_main_op())),
    ("derivative by x", |e| read(&e.derivative(Expr::var("x")))),
    ("derivative by y", |e| read(&e.derivative(Expr::var("y")))),
    ("derivative by w", |e| read(&e.derivative(Expr::var("w")))),
    ("substitude x by 2", |e| read(&e.substitude(&Expr::var("x"), &Expr::from(2)))),
    ("substitude x by y", |e| read(&e.substitude(&Expr::var("x"), &Expr::var("y")))),
    ("substitude y by 2", |e| read(&e.substitude(&Expr::var("y"), &Expr::from(2)))),
    ("substitude 2 by x", |e| read(&e.substitude(&Expr::from(2), &Expr::var("x")))),
    ("seq_substitude x by y, y by 3", |e| read(&e.seq_substitude([(&Expr::var("x"), &Expr::var("y")), (&Expr::var("y"), &Expr::from(3))]))),
    ("concurr_substitude x by y, y by x", |e| read(&e.concurr_substitude([(&Expr::var("x"), &Expr::var("y")), (&Expr::var("y"), &Expr::var("x"))]))),
    ("separate_factors x", |e| pair(e.separate_factors(&Expr::var("x")))),
    ("separate_factors y", |e| pair(e.separate_factors(&Expr::var("y")))),
    ("numerator", |e| read(&e.numerator())),
    ("denominator", |e| read(&e.denominator())),
    ("common factors with x", |e| read(&Expr::common_factors(e, &Expr::var("x")))),
    ("common factors with x y", |e| read(&Expr::common_factors(e, &Expr::mul(Expr::var("x"), Expr::var("y"))))),
    ("collect_terms in x", |e| terms(e, &["x"])),
    ("collect_terms in y", |e| terms(e, &["y"])),
    ("collect_terms in x and y", |e| terms(e, &["x", "y"])),
    ("free_of x", |e| T::int(e.free_of(&Expr::var("x")) as i128)),
    ("free_of y", |e| T::int(e.free_of(&Expr::var("y")) as i128)),
    ("variables", |e| {
        let mut v: Vec<T> = e.variables().iter().map(|v| read(v).unordered()).collect();
        v.sort();
        T::Sum(v)
    }),
    ("to_string", |e| T::var(&e.to_string())),
    ("non_rational_term", |e| e.non_rational_term().map_or(T::Undef, |t| read(&t))),
];
fn pair((a, b): (Expr, Expr)) -> T {
    T::Pow(read(&a).into(), read(&b).into())
}
fn terms(e: &Expr, vars: &[&str]) -> T {
    let v: Vec<Expr> = vars.iter().map(|v| Expr::var(v)).collect();
    let v = calcu_rs::polynomial::VarSet::new(&v);
    e.as_polynomial_view(&v).collect_terms().map_or(T::Undef, |t| read(&t))
}

const REGS: [&str; 3] = ["a", "b", "c"];

/// the operations of a history over three expressions
fn steps(all: bool) -> Vec<String> {
    let mut v = vec![];
    for r in REGS {
        for s in REGS {
            for o in ["+=", "-=", "*=", "/="] {
                if all || o != "-=" {
                    v.push(format!("{r} {o} {s}"));
                }
            }
            if r != s {
                v.push(format!("{r} = {s}"));
                v.push(format!("{r}.first = {s}"));
                if all {
                    v.push(format!("{r}.add_rhs {s}"));
                    v.push(format!("{r}.mul_rhs {s}"));
                    v.push(format!("{r} = common {s}"));
                }
            }
            v.push(format!("{r} = first {s}"));
            if all {
                v.push(format!("{r} = last {s}"));
                v.push(format!("{r} = sum {s}"));
                v.push(format!("{r} = pow {s}"));
            } else if r == s {
                v.push(format!("{r} = sum {s}"));
            }
        }
        for u in UNARY {
            if all || ["reduce", "expand", "sort_args"].contains(&u) {
                v.push(format!("{r} = {u} {r}"));
            }
        }
        v.push(format!("{r} = derivative {r}"));
        v.push(format!("{r} = substitude {r}"));
        if all {
            v.push(format!("{r} = derivative_y {r}"));
            v.push(format!("{r} = substitude_y {r}"));
            for s in REGS {
                if r != s {
                    v.push(format!("{r} = derivative {s}"));
                    v.push(format!("{r} = derivative_y {s}"));
                }
            }
        }
        v.push(format!("{r}.for_each"));
        v.push(format!("{r}.reverse"));
        if all {
            v.push(format!("{r}.sort"));
        }
    }
    v
}

fn reg(s: &str) -> usize {
    REGS.iter().position(|r| *r == s).unwrap_or_else(|| panic!("no expression {s}"))
}

/// the register that changes
fn target(step: &str) -> usize {
    reg(&step[..1])
}

fn perform(step: &str, e: &mut [Expr; 3]) {
    if let Some((r, how)) = step.split_once('.') {
        let r = reg(r);
        let (how, s) = how.split_once(' ').unwrap_or((how, ""));
        let s = || e[reg(s.trim_start_matches("= "))].clone();
        match how {
            "first" => {
                let s = s();
                if let Some(x) = e[r].args_mut().first_mut() {
                    *x = s;
                }
            }
            "add_rhs" => {
                let s = s();
                if let Atom::Sum(x) = e[r].atom_mut() {
                    x.add_rhs(&s);
                }
            }
            "mul_rhs" => {
                let s = s();
                if let Atom::Prod(x) = e[r].atom_mut() {
                    x.mul_rhs(&s);
                }
            }
            "for_each" => {
                let (x, y) = (Expr::var("x"), Expr::var("y"));
                e[r].for_each_compl_sub_expr(|s| {
                    if *s == x {
                        *s = y.clone();
                    } else if *s == y {
                        *s = Expr::from(3);
                    }
                });
            }
            "reverse" => e[r].args_mut().reverse(),
            "sort" => e[r].args_mut().sort(),
            _ => panic!("no step {step}"),
        }
        return;
    }
    let w: Vec<&str> = step.split(' ').collect();
    let r = reg(w[0]);
    match w[1..] {
        ["=", s] => e[r] = e[reg(s)].clone(),
        ["=", "first", s] => {
            if let Some(x) = e[reg(s)].args().first().cloned() {
                e[r] = x;
            }
        }
        ["=", "last", s] => {
            if let Some(x) = e[reg(s)].args().last().cloned() {
                e[r] = x;
            }
        }
        ["=", "sum", s] => e[r] = Expr::from(Atom::Sum(calcu_rs::atom::Sum { args: vec![e[r].clone(), e[reg(s)].clone()] })),
        ["=", "pow", s] => e[r] = Expr::pow_raw(&e[r], &e[reg(s)]),
        ["=", "common", s] => e[r] = Expr::common_factors(&e[r], &e[reg(s)]),
        ["=", "derivative", s] => e[r] = e[reg(s)].derivative(Expr::var("x")),
        ["=", "derivative_y", s] => e[r] = e[reg(s)].derivative(Expr::var("y")),
        ["=", "substitude_y", s] => e[r] = e[reg(s)].substitude(&Expr::var("y"), &Expr::var("x")),
        ["=", "substitude", s] => e[r] = e[reg(s)].substitude(&Expr::var("x"), &Expr::from(2)),
        ["=", op, s] => e[r] = apply(op, &e[reg(s)]),
        [op, s] => {
            let s = e[reg(s)].clone();
            // by value and by reference
            match op {
                "+=" => e[r] += &s,
                "-=" => e[r] -= s,
                "*=" => e[r] *= &s,
                "/=" => e[r] /= s,
                _ => panic!("no step {step}"),
            }
        }
        _ => panic!("no step {step}"),
    }
}

const INITIAL: [[&str; 3]; 8] = [
    ["(+ x y)", "(* 2 x)", "(sin x)"],
    ["(* x (+ x 1))", "x", "(^ x 2)"],
    ["(+ (* x y) (* x y))", "(* x y)", "2"],
    ["(sin (+ x y))", "(+ y x)", "(^ #e (+ x y))"],
    ["undef", "(* x (^ y -1))", "0"],
    ["(^ (+ x y) 2)", "(+ x y)", "(^ (+ x y) -1)"],
    ["(ln (* x y))", "(* 2 (sin x) (cos x))", "-1"],
    ["(+ (* 1/2 x) (* 1/2 x))", "(+)", "(*)"],
];

fn cases(t: Tier, emit: Emit) {
    let (few, all) = (steps(false), steps(true));
    let mut history = |init: &[&str; 3], s: &[&String]| {
        let s: Vec<&str> = s.iter().map(|s| s.as_str()).collect();
        emit(Case::new(format!("history {}", s.join("; ")), ts(init)));
    };
    for init in &INITIAL {
        for a in &all {
            for b in &all {
                history(init, &[a, b]);
            }
        }
    }
    for init in &INITIAL[..t.pick(4, 8)] {
        let v = t.pick(&few, &all);
        for a in v {
            for b in v {
                for c in v {
                    history(init, &[a, b, c]);
                }
            }
        }
    }
    if t == Tier::Thorough {
        for a in &few {
            for b in &few {
                for c in &few {
                    for d in &few {
                        history(&INITIAL[0], &[a, b, c, d]);
                    }
                }
            }
        }
    }
    let mut v = space::general(true);
    v.extend(space::scale_family(true));
    v.extend(space::huge_family().into_iter().filter(|t| t.size() < 150));
    v.extend(space::fraction_family(false));
    v.extend(space::expansion_family(false));
    if t == Tier::Thorough {
        v.extend(space::collection_family(false));
        v.extend(space::trig_family(false));
        v.extend(space::explog_family(false));
    }
    for t in crate::gen::dedup(v) {
        emit(Case::new("shared", [t]));
    }
}

fn history(list: &str, args: &[T], o: &mut Out) {
    let mut model: [T; 3] = [args[0].clone(), args[1].clone(), args[2].clone()];
    let mut seen = HashMap::new();
    let mut regs: [Expr; 3] = [0, 1, 2].map(|i| build_shared(&model[i], &mut seen));
    drop(seen);
    for step in list.split("; ") {
        let fresh = o.attempt(|| {
            let mut f: [Expr; 3] = [0, 1, 2].map(|i| build(&model[i]));
            perform(step, &mut f);
            read(&f[target(step)])
        });
        let got = o.attempt(|| perform(step, &mut regs));
        match (&fresh, &got) {
            (Err(_), Err(_)) => return o.vacuous(),
            (Err(p), Ok(_)) => return o.fail("panic", format!("{step}: panics on new expressions only: {}", p.0)),
            (Ok(_), Err(p)) => return o.fail("panic", format!("{step}: panics only after this history: {}", p.0)),
            _ => (),
        }
        let fresh = fresh.unwrap_or_else(|_| unreachable!());
        for i in 0..3 {
            let now = read(&regs[i]);
            if i == target(step) {
                o.check(now == fresh || now.unordered() == fresh.unordered(), "history", || format!("{step} gives {now}, but {fresh} on new expressions {}, {}, {}", model[0], model[1], model[2]));
                model[i] = now;
            } else {
                o.check(now == model[i], "aliasing", || format!("{step} changed {} from {} to {now}", REGS[i], model[i]));
            }
        }
        if model.iter().any(|t| t.size() > 40) {
            return;
        }
    }
    for t in &model {
        o.state(t);
    }
}

fn shared(t: &T, o: &mut Out) {
    let fresh = build(t);
    let e = build_shared(t, &mut HashMap::new());
    let same = |x: &T, y: &T| x == y || x.unordered() == y.unordered();
    let before = read(&e);
    // once each on a new expression, and in the other order on the same one
    let ops: Vec<usize> = (0..QUERIES.len()).filter(|i| !QUERIES[*i].0.ends_with("trig") || super::trans::angles(t) <= 12.0).collect();
    let mut first = HashMap::new();
    for i in &ops {
        let one = build(t);
        first.insert(*i, o.attempt(|| QUERIES[*i].1(&one)));
    }
    for i in ops.iter().rev() {
        let op = QUERIES[*i].0;
        match (first.remove(i).unwrap(), o.attempt(|| QUERIES[*i].1(&e))) {
            (Ok(f), Ok(g)) => {
                o.check(same(&f, &g), "sharing", || format!("{op} gives {g} with shared parts and after other operations, and {f} without"));
            }
            (Err(_), Err(_)) => o.vacuous(),
            _ => o.fail("sharing", format!("{op} panics depending on shared parts or earlier operations")),
        }
    }
    // an expression with itself and with an equal one
    type Two = fn(&Expr, &Expr) -> Expr;
    let two: [(&str, Two); 9] = [
        ("+", |a, b| a + b),
        ("-", |a, b| a - b),
        ("*", |a, b| a * b),
        ("/", |a, b| a / b),
        ("^", |a, b| Expr::pow(a, b)),
        ("add_raw", |a, b| Expr::add_raw(a, b)),
        ("mul_raw", |a, b| Expr::mul_raw(a, b)),
        ("div_raw", |a, b| Expr::div_raw(a, b)),
        ("common", |a, b| Expr::common_factors(a, b)),
    ];
    let other = build(t);
    for (op, f) in two {
        match (o.attempt(|| f(&fresh, &other)), o.attempt(|| f(&e, &e))) {
            (Ok(f), Ok(g)) => {
                let (f, g) = (read(&f), read(&g));
                o.check(same(&f, &g), "sharing", || format!("{op} with itself gives {g}, with an equal expression {f}"));
            }
            (Err(_), Err(_)) => o.vacuous(),
            _ => o.fail("sharing", format!("{op} with itself panics depending on shared parts")),
        }
    }
    let Some((q, c, f)) = o.call("comparison", || (e == fresh && e == e.clone(), e.cmp(&fresh), e.free_of(&fresh))) else { return };
    o.check(q && c.is_eq() && !f, "sharing", || format!("equal {q}, {c:?}, free of itself {f}"));
    o.check(read(&e) == before, "aliasing", || format!("changed to {}", read(&e)));
}

fn check(c: &Case, o: &mut Out) {
    match c.op.strip_prefix("history ") {
        Some(h) => history(h, &c.args, o),
        None => shared(&c.args[0], o),
    }
}

pub static HISTORY: Prop = Prop {
    id: "C19",
    cases,
    check,
    follow: no_follow,
    bounds: |t| format!("every history of 2 of {} operations on 3 expressions from 8 initial states, every history of 3 of {} operations from {} initial states{}; {} operations of one expression, in two orders on a new and on a shared one, and 9 binary operations on every tree of the general, fraction and expansion spaces with shared and unshared parts", steps(true).len(), steps(t == Tier::Thorough).len(), t.pick(4, 8), t.pick("", ", every history of 4 of the smaller set from one"), QUERIES.len()),
    assumptions: &["the reference trees read back through atom() are the expressions"],
};
