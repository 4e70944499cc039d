//! Trigonometric, exponential and logarithmic transformations.

use super::value::{apply, value};
use crate::engine::*;
use crate::gen::*;
use crate::space;
use crate::tree::*;
use calcu_rs::SymbolicExpr;

const TRIG_OPS: [&str; 4] = ["expand_trig", "contract_trig", "substitute_trig", "simplify_trig"];
const EXP_OPS: [&str; 2] = ["expand_exponential", "expand_ln"];

fn trig_cases(t: Tier, emit: Emit) {
    let big = t == Tier::Thorough;
    let mut v = space::trig_family(true);
    v.extend(space::scale_family(true));
    v.extend(space::trig().two_full());
    v.extend(space::functions().two());
    v.extend(space::Alpha::new(&["x", "y", "2"], &["2", "3"], &[F::Sin, F::Cos]).three());
    v.extend(space::fraction_family(false));
    v.extend(space::undef().two());
    v.extend(space::trig().three());
    v.extend(space::functions().two_full());
    if big {
        v.extend(space::general(true));
        space::deep(&[space::Alpha::new(&["x", "y", "2"], &["2", "3"], &[F::Sin, F::Cos])], &mut |t| {
            for op in TRIG_OPS {
                emit(Case::new(op, [t.clone()]));
            }
        });
    }
    for t in dedup(v) {
        for op in TRIG_OPS {
            emit(Case::new(op, [t.clone()]));
            emit(Case::new(format!("{op}*"), [t.clone()]));
        }
    }
}

fn exp_cases(t: Tier, emit: Emit) {
    let big = t == Tier::Thorough;
    let mut v = space::explog_family(true);
    for t in space::huge_family().into_iter().filter(|t| t.size() < 150) {
        v.push(T::f(F::Log(Base::E), t.clone()));
        v.push(T::pow(T::E, t));
    }
    v.extend(space::scale_family(true));
    v.extend(space::explog().two_full());
    v.extend(space::functions().two());
    v.extend(space::algebraic().two());
    v.extend(space::undef().two());
    v.extend(space::Alpha::new(&["x", "y", "2", "#e"], &["2", "x"], &[F::Log(Base::E), F::Log(Base::Rat(2, 1))]).three());
    v.extend(space::explog().three());
    v.extend(space::functions().two_full());
    if big {
        v.extend(space::general(true));
        space::deep(&[space::explog()], &mut |t| {
            for op in EXP_OPS {
                emit(Case::new(op, [t.clone()]));
            }
        });
    }
    for t in dedup(v) {
        for op in EXP_OPS {
            emit(Case::new(op, [t.clone()]));
            emit(Case::new(format!("{op}*"), [t.clone()]));
        }
    }
}

fn trig_follow(t: &T, depth: usize, tier: Tier) -> Vec<Case> {
    if depth > tier.pick(1, 2) || t.size() > 60 {
        return vec![];
    }
    TRIG_OPS.iter().map(|op| Case::new(*op, [t.clone()])).collect()
}
fn exp_follow(t: &T, depth: usize, tier: Tier) -> Vec<Case> {
    if depth > tier.pick(1, 2) || t.size() > 60 {
        return vec![];
    }
    EXP_OPS.iter().map(|op| Case::new(*op, [t.clone()])).collect()
}

fn sc(t: &T) -> bool {
    matches!(t, T::Fn(F::Sin | F::Cos, _))
}
fn sc_power(t: &T) -> bool {
    match t {
        T::Pow(b, e) => sc(b) && matches!(**e, T::Rat(n, 1) if n > 0),
        t => sc(t),
    }
}
/// sin or cos, a power of it, or a sum of multiples of them
fn sc_factor(t: &T) -> bool {
    match t {
        T::Sum(a) => a.iter().any(|x| match x {
            T::Prod(f) => f.iter().any(sc_power),
            x => sc_power(x),
        }),
        t => sc_power(t),
    }
}
fn multiple_or_sum(t: &T) -> bool {
    match t {
        T::Sum(a) => a.len() > 1,
        T::Prod(a) => a.len() > 1 && a.iter().any(|x| matches!(x, T::Rat(_, 1))),
        _ => false,
    }
}

/// what the transformation is there to remove
fn remains(op: &str, r: &T) -> Option<T> {
    r.subtrees()
        .into_iter()
        .find(|s| match (op, s) {
            ("expand_trig", T::Fn(F::Sin | F::Cos, a)) => multiple_or_sum(a),
            ("contract_trig", T::Prod(a)) => a.iter().filter(|x| sc_factor(x)).count() > 1,
            ("contract_trig", T::Pow(..)) => sc_power(s),
            ("substitute_trig", T::Fn(f, _)) => matches!(f, F::Tan | F::Cot | F::Sec | F::Csc),
            ("expand_exponential", T::Pow(b, e)) => matches!(**b, T::E) && multiple_or_sum(e),
            ("expand_ln", T::Fn(F::Log(Base::E), a)) => match &**a {
                T::Prod(a) => a.len() > 1,
                T::Pow(..) => true,
                _ => false,
            },
            _ => false,
        })
        .cloned()
}

/// Expanding the sine of a sum of multiples of angles and contracting it again
/// takes time exponential in their number: leave the larger ones out.
pub fn angles(t: &T) -> f64 {
    let mut w = 1.0;
    for s in t.subtrees() {
        if let T::Fn(F::Sin | F::Cos | F::Tan | F::Cot | F::Sec | F::Csc, a) = s {
            match crate::poly::poly(a, true) {
                Some(p) => {
                    for c in p.values() {
                        use num_traits::{Signed, ToPrimitive};
                        w *= if c.is_integer() { c.abs().to_f64().unwrap_or(1e9) + 1.0 } else { 2.0 };
                    }
                }
                None => w *= a.size() as f64,
            }
        }
    }
    w * nested(t).powi(2)
}

/// A function of a function: the terms of the inner expansion are the angles of
/// the outer one.
fn nested(t: &T) -> f64 {
    let trig = |t: &T| matches!(t, T::Fn(F::Sin | F::Cos | F::Tan | F::Cot | F::Sec | F::Csc, _));
    fn raw(t: &T) -> f64 {
        match t {
            T::Rat(n, 1) => n.unsigned_abs() as f64 + 1.0,
            T::Var(_) => 2.0,
            T::Pow(b, e) => match **e {
                T::Rat(n, 1) => raw(b).powi(n.unsigned_abs().min(40) as i32),
                _ => raw(b) * raw(e),
            },
            T::Sum(a) | T::Prod(a) => a.iter().map(raw).product(),
            T::Fn(_, a) => raw(a),
            _ => 1.0,
        }
    }
    t.subtrees().into_iter().map(|s| if let (true, T::Fn(_, a)) = (trig(s), s) { if a.any(&trig) { raw(a) } else { 1.0 } } else { 1.0 }).product()
}

/// how many terms the contraction of the largest product of sines and cosines has
fn contracted(t: &T) -> f64 {
    fn terms(x: &T) -> f64 {
        match x {
            T::Fn(F::Sin | F::Cos, _) => 2.0,
            T::Pow(b, e) => match **e {
                // the denominators are powers of two
                T::Rat(n, 1) if n.abs() > 100 && sc(b) => f64::INFINITY,
                T::Rat(n, 1) if n > 0 && sc(b) => n as f64 / 2.0 + 1.0,
                T::Rat(n, 1) if n > 0 => terms(b).powi(n.min(40) as i32),
                _ => 1.0,
            },
            T::Prod(a) => a.iter().map(terms).product(),
            _ => 1.0,
        }
    }
    t.subtrees().into_iter().map(terms).fold(1.0, f64::max)
}

/// how deep sines and cosines are nested
fn depth(t: &T) -> usize {
    sc(t) as usize + t.children().into_iter().map(depth).max().unwrap_or(0)
}

fn multiple(a: &T) -> f64 {
    use num_traits::{Signed, ToPrimitive};
    crate::poly::poly(a, true).map_or(0.0, |p| p.values().map(|c| c.abs().to_f64().unwrap_or(1e9)).fold(0.0, f64::max))
}

fn check(c: &Case, o: &mut Out) {
    let mut t = &c.args[0];
    let mut e = build(t);
    if c.op.starts_with("simplify_trig") && angles(t) > 400.0 {
        o.note("left out: too many angles", 1);
        return;
    }
    // the contraction of a product of n of them is a sum of 2^n
    if (c.op.starts_with("contract_trig") || c.op.starts_with("simplify_trig")) && contracted(t) > 600.0 {
        o.note("left out: too many sines and cosines in a product", 1);
        return;
    }
    // the coefficients of the expansion are binomials of the multiple
    if t.subtrees().into_iter().any(|s| matches!(s, T::Fn(F::Sin | F::Cos | F::Tan | F::Cot | F::Sec | F::Csc, a) if multiple(a) > 64.0)) || nested(t) > 4000.0 {
        o.note("left out: too large a multiple of an angle", 1);
        return;
    }
    let u;
    let reduced = c.op.ends_with('*');
    let op = c.op.trim_end_matches('*');
    if reduced {
        let Some(r) = o.call("reduce", || e.reduce()) else { return };
        e = r;
        u = read(&e);
        t = &u;
    }
    let Some(r) = o.call(op, || apply(op, &e)) else { return };
    let r = read(&r);
    // ln(ln(1/x)) = ln(-1) + ln(ln(x)) holds where both sides are defined
    let log_of_log = |t: &T| matches!(t, T::Fn(F::Log(_), a) if a.any(&|t| matches!(t, T::Fn(F::Log(_), _))));
    if op == "expand_ln" && t.any(&log_of_log) {
        value(&T::Sum(vec![r.clone(), prod([T::int(0), t.clone()])]), t, o);
    } else {
        value(t, &r, o);
    }
    if reduced {
        o.compared();
        // a multiple that only appears when the argument is multiplied out may stay
        let hidden = |t: &T| matches!(t, T::Fn(_, a) if crate::props::value::unexpanded(a).is_some());
        // the sums of the innermost expansion are multiplied out of sight, too
        if op == "expand_trig" && (t.any(&hidden) || depth(t) > 3) {
            return;
        }
        if let Some(s) = remains(op, &r) {
            o.check(false, "remains", || format!("{r} contains {s}"));
        }
    } else if o.depth() < 2 {
        o.succ(r);
    }
}

pub static TRIG: Prop = Prop { id: "C07", cases: trig_cases, check, follow: trig_follow, bounds: |_| "all trees over sin, cos, tan, ln with two nested operators, the trigonometric family (multiples and powers to 8, sums of up to four angles), continued through sequences of 2 (thorough: 3) transformations; thorough: also chains of four operators".into(), assumptions: crate::eval::ASSUMPTIONS };
pub static EXP: Prop = Prop { id: "C08", cases: exp_cases, check, follow: exp_follow, bounds: |_| "all trees over e, ln, log2 with two nested operators and the exponential and logarithmic family, continued through sequences of 2 (thorough: 3) transformations; thorough: also chains of four operators".into(), assumptions: crate::eval::ASSUMPTIONS };
