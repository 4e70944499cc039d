//! simplify: the alternatives it returns.

use super::value::apply;
use crate::engine::*;
use crate::eval::{same_value, Verdict};
use crate::gen::*;
use crate::space;
use crate::tree::*;
use calcu_rs::algos::{CostFn, ExprCost};
use calcu_rs::SymbolicExpr;

const OPS: [&str; 8] = [
    "expand", "expand_exponential", "expand_trig", "expand_ln", "contract_trig", "rationalize", "factor_out", "cancel",
];

fn trees(big: bool) -> Vec<T> {
    let mut v = vec![];
    for a in [space::rational(), space::algebraic(), space::trig(), space::explog(), space::undef(), space::functions(), space::numbers()] {
        v.extend(if big { a.two_full() } else { a.two() });
    }
    let small = |v: Vec<T>| -> Vec<T> { v.into_iter().filter(|t| t.size() < if big { 22 } else { 10 }).collect() };
    v.extend(small(space::expansion_family(false)));
    v.extend(small(space::fraction_family(false)));
    v.extend(small(space::trig_family(false)));
    v.extend(small(space::explog_family(false)));
    v.extend(small(space::collection_family(false)));
    dedup(v)
}

fn cases(t: Tier, emit: Emit) {
    for t in trees(t == Tier::Thorough) {
        if super::trans::angles(&t) * powers(&t) <= 24.0 && super::trans::angles(&t) <= 12.0 && (t.size() <= 8 || !sum_below(&t)) && !high(&t) {
            emit(Case::new("simplify", [t]));
        }
    }
}

/// a sum in a denominator: rationalize and expand in turn square it at every step
fn sum_below(t: &T) -> bool {
    t.any(&|t| match t {
        T::Pow(b, e) => {
            !matches!(**e, T::Rat(n, _) if n > 0) && b.any(&|t| matches!(t, T::Sum(v) if v.len() > 1))
        }
        _ => false,
    })
}

/// a high power of a sum with trigonometric functions is contracted term by term
fn high(t: &T) -> bool {
    let trig = |t: &T| matches!(t, T::Fn(f, _) if !matches!(f, F::Log(_)));
    t.any(&|t| matches!(t, T::Pow(b, e) if matches!(**b, T::Sum(_)) && b.any(&trig) && matches!(**e, T::Rat(n, 1) if n.abs() > 6)))
}

/// the product of the exponents of trigonometric functions
fn powers(t: &T) -> f64 {
    let trig = |t: &T| matches!(t, T::Fn(f, _) if !matches!(f, F::Log(_)));
    t.subtrees().into_iter().fold(1.0, |w, t| match t {
        T::Pow(b, e) if b.any(&trig) => match **e {
            T::Rat(n, 1) => w * (1.0 + (n as f64).abs()),
            _ => w * 3.0,
        },
        _ => w,
    })
}

fn cost(t: &T) -> usize {
    t.size()
}

fn check(c: &Case, o: &mut Out) {
    let t = &c.args[0];
    let e = build(t);
    let alts = match o.attempt(|| e.simplify()) {
        Ok(a) => a,
        // arithmetic outside the range of i128
        Err(p) if p.0.contains("overflow (lib.rs:") => {
            o.note("numbers outside of i128", 1);
            return;
        }
        Err(p) => return o.fail("panic", format!("simplify panicked: {}", p.0)),
    };
    let trees: Vec<T> = alts.iter().map(read).collect();
    let logs = t.any(&|t| match t {
        T::Fn(F::Log(_), _) => true,
        T::Pow(_, e) => !matches!(**e, T::Rat(_, 1)),
        _ => false,
    });
    for (i, r) in trees.iter().enumerate() {
        o.state(r);
        // expanding logarithms and the powers of products moves between real
        // branches: compare where both are defined
        let v = if logs && crate::eval::fp(r) != crate::eval::Fp::Undef {
            same_value(&T::Sum(vec![r.clone(), T::Prod(vec![T::int(0), t.clone()])]), t)
        } else {
            same_value(t, r)
        };
        match v {
            Verdict::Same(_) => o.compared(),
            Verdict::Vacuous => o.vacuous(),
            Verdict::Differs(d) => {
                o.compared();
                o.fail("value", format!("alternative {r}: {d}"));
            }
        }
        let k = ExprCost::cost(&alts[i]);
        o.check(k == cost(r), "cost", || format!("{r} costs {k}"));
        if i > 0 {
            o.check(cost(&trees[i - 1]) <= cost(r), "sorted", || format!("{} before {r}", trees[i - 1]));
        }
        let u = r.unordered();
        o.check(!trees[..i].iter().any(|s| s.unordered() == u), "twice", || format!("{r} occurs twice"));
    }
    // the result of every single operation is among them
    if matches!(t, T::Undef | T::Rat(..) | T::Pi | T::E | T::Var(_)) {
        o.check(trees.is_empty(), "atom", || format!("{} alternatives for an atom", trees.len()));
        return;
    }
    for op in OPS {
        let Ok(r) = o.attempt(|| apply(op, &e).reduce()) else { continue };
        let r = read(&r);
        let u = r.unordered();
        o.check(trees.iter().any(|s| s.unordered() == u), "missing", || format!("{op} gives {r}"));
    }
}

pub static SIMPLIFY: Prop = Prop { id: "C10", cases, check, follow: no_follow, bounds: |_| "trees with at most two nested operators of seven alphabets and members of the families, of restricted size in denominators and angles".into(), assumptions: crate::eval::ASSUMPTIONS };
