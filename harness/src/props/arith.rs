//! The arithmetic operators and constructors.

use super::value::{value_on, value_strict};
use crate::eval::{const_rat, Domain};
use crate::engine::*;
use crate::gen::*;
use crate::space::{self, Alpha};
use crate::tree::*;
use calcu_rs::atom::{Atom, Prod, Sum};
use calcu_rs::Expr;

pub const BIN: [&str; 5] = ["add", "sub", "mul", "div", "pow"];

/// what the operation means, as a tree over its operands
pub fn meaning(op: &str, a: &T, b: &T) -> T {
    let (a, b) = (a.clone(), b.clone());
    match op {
        "add" => sum([a, b]),
        "sub" => sum([a, prod([T::int(-1), b])]),
        "mul" => prod([a, b]),
        "div" => prod([a, T::pow(b, T::int(-1))]),
        "pow" => T::pow(a, b),
        _ => unreachable!(),
    }
}

fn unary_meaning(op: &str, a: &T) -> T {
    let a = a.clone();
    match op {
        "sqrt" => T::pow(a, T::Rat(1, 2)),
        "exp" => T::pow(T::E, a),
        "log10" => T::f(F::Log(Base::Rat(10, 1)), a),
        f => T::f(F::from_name(f).unwrap(), a),
    }
}

pub fn run_unary(op: &str, a: &Expr) -> Expr {
    match op {
        "sqrt" => Expr::sqrt(a),
        "exp" => Expr::exp(a),
        "ln" => Expr::ln(a),
        "log10" => Expr::log10(a),
        "sin" => Expr::sin(a),
        "cos" => Expr::cos(a),
        "tan" => Expr::tan(a),
        "sec" => Expr::sec(a),
        "csc" => Expr::csc(a),
        "cot" => Expr::cot(a),
        "asin" => Expr::arc_sin(a),
        "acos" => Expr::arc_cos(a),
        "atan" => Expr::arc_tan(a),
        "asec" => Expr::arc_sec(a),
        "acsc" => Expr::arc_csc(a),
        "acot" => Expr::arc_cot(a),
        f => match F::from_name(f) {
            Some(F::Log(b)) => Expr::log(real(&b), a),
            _ => panic!("no constructor {f}"),
        },
    }
}

pub fn unary_ops() -> Vec<String> {
    let mut v: Vec<String> = ["sqrt", "exp", "log10"].iter().map(|s| s.to_string()).collect();
    v.extend(space::all_funcs().iter().map(|f| f.name()));
    v
}

/// every way to write the operation
fn forms(op: &str, a: &Expr, b: &Expr) -> Vec<(&'static str, Expr)> {
    let (oa, ob) = (a.clone(), b.clone());
    match op {
        "add" => {
            let mut m = a.clone();
            m += b;
            vec![("ref", a + b), ("own", oa + ob), ("assign", m), ("fn", Expr::add(a, b))]
        }
        "sub" => {
            let mut m = a.clone();
            m -= b;
            vec![("ref", a - b), ("own", oa - ob), ("assign", m), ("fn", Expr::sub(a, b))]
        }
        "mul" => {
            let mut m = a.clone();
            m *= b;
            vec![("ref", a * b), ("own", oa * ob), ("assign", m), ("fn", Expr::mul(a, b))]
        }
        "div" => {
            let mut m = a.clone();
            m /= b;
            vec![("ref", a / b), ("own", oa / ob), ("assign", m), ("fn", Expr::div(a, b))]
        }
        "pow" => vec![("fn", Expr::pow(a, b)), ("own", Expr::pow(oa, ob))],
        _ => unreachable!(),
    }
}

fn operands(big: bool) -> (Vec<T>, Vec<T>) {
    let a = Alpha::new(
        &["x", "y", "2", "-1", "0", "1", "1/2", "undef", "#e", "-3"],
        &["2", "-1", "1/2", "-2", "y"],
        &[F::Sin, F::Log(Base::E)],
    );
    let mut l1 = a.leaves.clone();
    l1.extend(a.l1());
    let mut other = l1.clone();
    for b in [space::rational(), space::algebraic(), space::numbers(), space::trig()] {
        other.extend(if big { b.two_full() } else { b.two() });
    }
    other.extend(space::fraction_family(false));
    other.extend(space::scale_family(big));
    (dedup(l1), dedup(other))
}

const ACC: [&str; 3] = ["add_rhs", "mul_rhs", "mul_rhs_raw"];

/// a sum or product that grows
fn accumulate(c: &Case, o: &mut Out) {
    let parts: Vec<Expr> = c.args.iter().map(build).collect();
    let Some(r) = o.call(&c.op, || match c.op.as_str() {
        "add_rhs" => {
            let mut s = Sum::zero();
            parts.iter().for_each(|p| s.add_rhs(p));
            Expr::from(Atom::Sum(s))
        }
        op => {
            let mut s = Prod::one();
            parts.iter().for_each(|p| if op == "mul_rhs" { s.mul_rhs(p) } else { s.mul_rhs_raw(p) });
            Expr::from(Atom::Prod(s))
        }
    }) else {
        return;
    };
    let r = read(&r);
    if c.args.contains(&T::Undef) {
        o.check(r.any(&|t| *t == T::Undef), "undef", || format!("an undefined operand gave {r}"));
    }
    match c.op.as_str() {
        "add_rhs" => value_strict(&T::Sum(c.args.clone()), &r, o),
        "mul_rhs_raw" => value_strict(&T::Prod(c.args.clone()), &r, o),
        _ => value_on(&T::Prod(c.args.clone()), &r, Domain::Split, o),
    };
}

const SMALL: [&str; 14] = ["x", "y", "2", "-1", "0", "1/2", "(+ x 1)", "(^ x -1)", "(* 2 x)", "(^ x 1/2)", "undef", "(* x y)", "(+ x y)", "#pi"];

fn cases(t: Tier, emit: Emit) {
    let big = t == Tier::Thorough;
    let (l1, other) = operands(big);
    for op in BIN {
        for a in &l1 {
            for b in &l1 {
                emit(Case::new(op, [a.clone(), b.clone()]));
            }
        }
        for a in &other {
            for b in SMALL {
                let b = parse(b);
                emit(Case::new(op, [a.clone(), b.clone()]));
                emit(Case::new(op, [b, a.clone()]));
            }
        }
    }
    for op in unary_ops() {
        for a in &l1 {
            emit(Case::new(op.as_str(), [a.clone()]));
        }
    }
    // sums and products built up operand by operand
    let terms = ts(&[
        "0", "1", "-1", "2", "1/2", "x", "y", "(* -1 x)", "(* 2 x)", "(* x 3)", "(* x y)", "(* y x -2)", "(+ x 1)", "(+ x y)", "(+ (* -1 x) 2)", "(^ x 2)", "(^ x -1)", "(^ x 1/2)", "(^ (* x y) 2)",
        "(^ (* x y) -1)", "(^ (* 2 x) 1/2)", "(sin x)", "(^ (+ x 1) 2)", "#pi", "undef", "(+)", "(*)", "(^ x y)",
    ]);
    for op in ACC {
        for n in 1..=3 {
            tuples(n, &terms, &mut |t| emit(Case::new(op, t.to_vec())));
        }
        if big {
            tuples(4, &terms, &mut |t| emit(Case::new(op, t.to_vec())));
        } else {
            multisets(4, &terms, &mut |t| emit(Case::new(op, t.to_vec())));
        }
    }
    // sequences of operations from the leaves
    for s in SMALL {
        for op in BIN {
            for b in SMALL {
                emit(Case::new(format!("{op}~"), [parse(s), parse(b)]));
            }
        }
    }
}

const STEP: [&str; 7] = ["x", "y", "2", "-1", "(+ x 1)", "(^ x 1/2)", "0"];
fn follow(t: &T, depth: usize, tier: Tier) -> Vec<Case> {
    if depth > tier.pick(2, 3) || t.size() > 40 {
        return vec![];
    }
    let mut v = vec![];
    for op in BIN {
        for b in STEP {
            v.push(Case::new(format!("{op}~"), [t.clone(), parse(b)]));
            if op != "add" && op != "mul" {
                v.push(Case::new(format!("{op}~"), [parse(b), t.clone()]));
            }
        }
    }
    v
}

fn check(c: &Case, o: &mut Out) {
    if ACC.contains(&c.op.as_str()) {
        return accumulate(c, o);
    }
    if c.args.len() == 1 {
        let a = build(&c.args[0]);
        let Some(r) = o.call(&c.op, || run_unary(&c.op, &a)) else { return };
        value_strict(&unary_meaning(&c.op, &c.args[0]), &read(&r), o);
        return;
    }
    let (ta, tb) = (&c.args[0], &c.args[1]);
    let op = c.op.trim_end_matches('~');
    let (a, b) = (build(ta), build(tb));
    let Some(f) = o.call(op, || forms(op, &a, &b)) else { return };
    let r = read(&f[0].1);
    for (n, x) in &f[1..] {
        let x = read(x);
        o.check(x.unordered() == r.unordered(), "forms", || format!("{n}: {x}, {}: {r}", f[0].0));
    }
    if matches!(ta, T::Undef) || matches!(tb, T::Undef) {
        o.check(r == T::Undef, "undef", || format!("an undefined operand gave {r}"));
    }
    let zero = |t: &T| matches!(t, T::Rat(0, _));
    if (op == "div" && zero(tb)) || (op == "pow" && zero(ta) && matches!(tb, T::Rat(n, _) if *n <= 0)) {
        o.check(r == T::Undef, "zero", || format!("undefined operation gave {r}"));
    }
    let want = meaning(op, ta, tb);
    match op {
        // a power of a product is split when one of its factors is multiplied
        "mul" | "div" | "sub" => value_on(&want, &r, Domain::Split, o),
        // so is one in the exponent of a power raised to a power
        "pow" if ta.any(&|t| matches!(t, T::Pow(_, e) if e.any(&|t| matches!(t, T::Pow(_, e) if const_rat(e).is_none())))) => value_on(&want, &r, Domain::Split, o),
        _ => value_strict(&want, &r, o),
    };
    // the forms that do not simplify
    let raw = || match op {
        "add" => Some(Expr::add_raw(&a, &b)),
        "mul" => Some(Expr::mul_raw(&a, &b)),
        "div" => Some(Expr::div_raw(&a, &b)),
        "pow" => Some(Expr::pow_raw(&a, &b)),
        _ => None,
    };
    let Some(raw) = o.call("unsimplified form", raw) else { return };
    if let Some(raw) = raw {
        let raw = read(&raw);
        value_strict(&want, &raw, o);
        if matches!(ta, T::Undef) || matches!(tb, T::Undef) {
            o.check(raw.any(&|t| *t == T::Undef), "undef", || format!("an undefined operand gave {raw}"));
        }
    }
    if c.op.ends_with('~') {
        o.succ(r);
    }
}

pub static ARITH: Prop = Prop { id: "C01", cases, check, follow, bounds: |_| "all ordered operand pairs from a pool of leaves and trees with one and two operators over four alphabets, 5 operations in 5 ways each; every one- and two-operator tree under 19 constructors; thorough: denser pools, results fed back as operands".into(), assumptions: crate::eval::ASSUMPTIONS };
