//! reduce and sort_args keep the value.

use super::value::check_value;
use crate::engine::*;
use crate::eval::const_rat;
use crate::space;
use crate::tree::*;

fn cases(t: Tier, emit: Emit) {
    let big = t == Tier::Thorough;
    let mut v = space::general(true);
    v.extend(space::scale_family(true));
    v.extend(space::huge_family());
    v.extend(space::expansion_family(true));
    v.extend(space::fraction_family(true));
    v.extend(space::trig_family(true));
    v.extend(space::collection_family(true));
    v.extend(space::explog_family(true));
    v.extend(space::rational().three());
    v.extend(space::trig().three());
    if big {
        for a in [space::algebraic(), space::explog(), space::undef(), space::numbers()] {
            v.extend(a.three());
        }
    }
    for t in crate::gen::dedup(v) {
        emit(Case::new("reduce", [t.clone()]));
        if !t.children().is_empty() {
            emit(Case::new("part.reduce", [t.clone()]));
        }
        emit(Case::new("sort_args", [t]));
    }
    if big {
        space::deep(&[space::rational(), space::algebraic(), space::trig(), space::explog()], &mut |t| emit(Case::new("reduce", [t])));
    }
}

/// contains the undefined symbol, or a power of numbers that divides by zero
fn undefined(t: &T) -> bool {
    t.any(&|t| match t {
        T::Undef => true,
        T::Pow(b, e) => const_rat(b) == Some((0, 1)) && const_rat(e).is_some_and(|e| e.0 <= 0),
        _ => false,
    })
}

fn check(c: &Case, o: &mut Out) {
    let t = &c.args[0];
    let Some(r) = check_value(c, o) else { return };
    if c.op == "reduce" {
        if undefined(t) {
            o.check(r == T::Undef, "absorb", || format!("an undefined operand is lost: {r}"));
        }
        // a value made of rational numbers only, with integer exponents, is computed
        if let Some((n, d)) = const_rat(t) {
            o.check(r == T::Rat(n, d), "number", || format!("{n}/{d} became {r}"));
        }
    } else if c.op == "sort_args" {
        o.check(r.unordered() == t.unordered(), "contents", || format!("sorted to {r}"));
    }
}

pub static REDUCE: Prop = Prop { id: "C02", cases, check, follow: no_follow, bounds: |_| "every tree with at most two nested operators (binary nodes, both orders; powers; functions) over seven alphabets, ternary sums and products of leaves, every binary node over two one-operator trees, and the families for expansion, fractions, trigonometry, collection, exponentials; thorough: also three nested operators, and chains of four over four alphabets".into(), assumptions: crate::eval::ASSUMPTIONS };
