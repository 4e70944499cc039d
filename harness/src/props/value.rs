//! Value preservation of the operations that rewrite one expression.

use crate::engine::*;
use crate::eval::{same_value_on, Domain, Verdict};
use crate::space;
use crate::tree::*;
use calcu_rs::atom::Atom;
use calcu_rs::{Expr, SymbolicExpr};

pub fn apply(op: &str, e: &Expr) -> Expr {
    match op {
        "reduce" => e.reduce(),
        "expand" => e.expand(),
        "expand_main_op" => e.expand_main_op(),
        "expand_exponential" => e.expand_exponential(),
        "expand_trig" => e.expand_trig(),
        "expand_ln" => e.expand_ln(),
        "contract_trig" => e.contract_trig(),
        "substitute_trig" => e.substitute_trig(),
        "simplify_trig" => e.simplify_trig(),
        // the same called on the sum, product, power or function itself
        "part.reduce" => match e.atom() {
            Atom::Sum(s) => s.reduce(),
            Atom::Prod(s) => s.reduce(),
            Atom::Pow(s) => s.reduce(),
            Atom::Func(s) => s.reduce(),
            _ => e.reduce(),
        },
        "part.expand" => match e.atom() {
            Atom::Pow(p) => p.expand(),
            _ => e.expand(),
        },
        "part.expand_main" => match e.atom() {
            Atom::Pow(p) => p.expand_pow_rec(false),
            _ => e.expand_main_op(),
        },
        "distribute" => e.distribute(),
        "rationalize" => e.rationalize(),
        "factor_out" => e.factor_out(),
        "cancel" => e.cancel(),
        "sort_args" => e.sort_args(),
        _ => panic!("no operation {op}"),
    }
}

pub fn check_value(c: &Case, o: &mut Out) -> Option<T> {
    let t = &c.args[0];
    let e = build(t);
    let r = o.call(&c.op, || apply(&c.op, &e))?;
    let r = read(&r);
    let domain = match &*c.op {
        "sort_args" => Domain::All,
        "reduce" | "part.reduce" => Domain::Nested,
        _ => Domain::Regular,
    };
    value_on(t, &r, domain, o);
    Some(r)
}

pub fn value(t: &T, r: &T, o: &mut Out) -> bool {
    value_on(t, r, Domain::Regular, o)
}

/// for operations that do not use the laws of real powers and logarithms
pub fn value_strict(t: &T, r: &T, o: &mut Out) -> bool {
    value_on(t, r, Domain::All, o)
}

pub fn value_on(t: &T, r: &T, domain: Domain, o: &mut Out) -> bool {
    match same_value_on(t, r, domain) {
        Verdict::Same(_) => o.compared(),
        Verdict::Vacuous => o.vacuous(),
        Verdict::Differs(d) => {
            o.compared();
            o.fail("value", format!("{r}: {d}"));
            return false;
        }
    }
    true
}

fn emit_all(ops: &[&str], trees: Vec<T>, emit: Emit) {
    for t in trees {
        for op in ops {
            emit(Case::new(*op, [t.clone()]));
        }
    }
}

fn continue_with(ops: &[&str], t: &T, depth: usize, max: usize) -> Vec<Case> {
    if depth > max || t.size() > 60 {
        return vec![];
    }
    ops.iter().map(|op| Case::new(*op, [t.clone()])).collect()
}

/// does any subtree contradict "fully expanded"?
pub fn unexpanded(t: &T) -> Option<&T> {
    t.subtrees().into_iter().find(|t| match t {
        T::Prod(a) => a.iter().any(|x| matches!(x, T::Sum(v) if v.len() > 1)),
        T::Pow(b, e) => {
            matches!(&**b, T::Sum(v) if v.len() > 1) && matches!(**e, T::Rat(n, 1) if n > 1)
        }
        _ => false,
    })
}

/// every power in it has a non-negative integer exponent
fn polynomial_like(t: &T) -> bool {
    !t.any(&|t| matches!(t, T::Pow(_, e) if !matches!(**e, T::Rat(n, 1) if n >= 0)))
}

const EXPAND_OPS: [&str; 3] = ["expand", "expand_main_op", "distribute"];
fn expand_cases(t: Tier, emit: Emit) {
    let big = t == Tier::Thorough;
    let mut v = space::general(true);
    v.extend(space::expansion_family(true));
    v.extend(space::fraction_family(true));
    v.extend(space::rational().three());
    v.extend(space::scale_family(true));
    v.extend(space::huge_family().into_iter().filter(|t| t.size() < 150));
    // high powers: large coefficients
    for k in if big { vec![24, 30, 40, 50, 60, 64, 70, 80, 90, 100] } else { vec![24, 40, 57, 64] } {
        for b in ["(+ x 1)", "(+ x y)", "(+ x -1)", "(+ x (* -1 y))", "(+ (^ x 2) 1)"] {
            v.push(T::pow(parse(b), T::int(k)));
        }
    }
    let v = crate::gen::dedup(v);
    for t in &v {
        if matches!(t, T::Pow(..)) {
            emit(Case::new("part.expand", [t.clone()]));
            emit(Case::new("part.expand_main", [t.clone()]));
        }
    }
    emit_all(&EXPAND_OPS, v, emit);
    if big {
        space::deep(&[space::rational()], &mut |t| emit(Case::new("expand", [t])));
    }
}
fn expand_check(c: &Case, o: &mut Out) {
    let Some(r) = check_value(c, o) else { return };
    if c.op == "expand" && polynomial_like(&c.args[0]) {
        o.compared();
        if let Some(u) = unexpanded(&r) {
            o.check(false, "unexpanded", || format!("{r} still contains {u}"));
        }
    }
    if c.op == "expand" {
        if let Some(p) = crate::poly::poly(&c.args[0], false) {
            let Some(r2) = o.call("reduce", || build(&r).reduce()) else { return };
            let r = read(&r2);
            let ts = crate::poly::terms(&r);
            o.check(ts.len() == p.len(), "uncollected", || {
                format!("{r} has {} terms, the polynomial has {}", ts.len(), p.len())
            });
            let q = crate::poly::poly(&r, false);
            o.check(q.is_none_or(|q| q == p), "coefficients", || format!("{r} is not the polynomial"));
        }
    }
    if o.depth() < 2 {
        o.succ(r);
    }
}
pub static EXPAND: Prop = Prop {
    id: "C04",
    cases: expand_cases,
    check: expand_check,
    follow: |t, d, tier| continue_with(&EXPAND_OPS, t, d, tier.pick(1, 2)),
    bounds: |_| "all trees of the general, expansion and fraction spaces, continued breadth-first through sequences of 2 (thorough: 3) operations; thorough: also chains of four operators".into(), assumptions: crate::eval::ASSUMPTIONS };
