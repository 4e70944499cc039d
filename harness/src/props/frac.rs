//! Fractions and common factors.

use super::value::{apply, value};
use crate::engine::*;
use crate::eval::const_rat;
use crate::gen::*;
use crate::space;
use crate::tree::*;
use calcu_rs::Expr;

const OPS: [&str; 3] = ["rationalize", "factor_out", "cancel"];

fn trees(big: bool) -> Vec<T> {
    let mut v = space::general(true);
    v.extend(space::scale_family(true));
    v.extend(space::huge_family().into_iter().filter(|t| t.size() < 150));
    v.extend(space::fraction_family(true));
    v.extend(space::expansion_family(false));
    v.extend(space::collection_family(true));
    v.extend(space::trig_family(false));
    v.extend(space::rational().three());
    if big {
        v.extend(space::algebraic().three());
    }
    dedup(v)
}

fn cases(t: Tier, emit: Emit) {
    let big = t == Tier::Thorough;
    for t in trees(big) {
        for op in OPS {
            emit(Case::new(op, [t.clone()]));
        }
        emit(Case::new("fraction", [t.clone()]));
    }
    if big {
        space::deep(&[space::rational()], &mut |t| {
            emit(Case::new("fraction", [t.clone()]));
            emit(Case::new("rationalize", [t.clone()]));
            emit(Case::new("cancel", [t]));
        });
    }
}

fn follow(t: &T, depth: usize, tier: Tier) -> Vec<Case> {
    if depth > tier.pick(1, 2) || t.size() > 60 {
        return vec![];
    }
    OPS.iter().chain(&["fraction"]).map(|op| Case::new(*op, [t.clone()])).collect()
}

/// a reciprocal inside a sum
fn nested_fraction(t: &T) -> Option<&T> {
    t.subtrees().into_iter().find(|s| match s {
        T::Sum(_) if const_rat(s).is_some() => false,
        // (1/2)^-1 is the number 2
        T::Sum(a) => a.iter().any(|x| match x {
            T::Pow(b, _) if const_rat(b).is_some() => false,
            T::Pow(_, e) => matches!(**e, T::Rat(n, _) if n < 0),
            T::Prod(f) => f.iter().any(|x| matches!(x, T::Pow(b, e) if const_rat(b).is_none() && matches!(**e, T::Rat(n, _) if n < 0)) || matches!(x, T::Rat(_, d) if *d != 1)),
            T::Rat(_, d) => *d != 1,
            _ => false,
        }),
        _ => false,
    })
}

/// a product with a reciprocal or a fraction among its factors
fn is_fraction(t: &T) -> bool {
    match t {
        T::Prod(a) => a.iter().any(is_fraction),
        T::Pow(_, e) => matches!(**e, T::Rat(n, _) if n < 0),
        T::Rat(_, d) => *d != 1,
        _ => false,
    }
}

fn check(c: &Case, o: &mut Out) {
    let t = &c.args[0];
    let e = build(t);
    if c.op == "fraction" {
        let Some((n, d)) = o.call("numerator and denominator", || (e.numerator(), e.denominator())) else { return };
        let (n, d) = (read(&n), read(&d));
        value(t, &prod([n.clone(), T::pow(d.clone(), T::int(-1))]), o);
        if !t.any(&|t| matches!(t, T::Pow(b, _) if matches!(**b, T::Pow(..) | T::Rat(..)) || b.children().len() == 1 || matches!(&**b, T::Prod(_)))) {
            o.check(!is_fraction(&n) && !is_fraction(&d), "fraction", || format!("numerator {n}, denominator {d}"));
        }
        if let Some(r) = o.call("try_as_div", || e.try_as_div()) {
            if let Some((n, d)) = r {
                let (n, d) = (read(&n), read(&d));
                value(t, &prod([n, T::pow(d, T::int(-1))]), o);
            }
        }
        return;
    }
    let Some(r) = o.call(&c.op, || apply(&c.op, &e)) else { return };
    let r = read(&r);
    value(t, &r, o);
    let plain = |t: &T| crate::poly::poly(t, true).map_or(true, |p| p.keys().any(|m| !m.is_empty()));
    if c.op == "rationalize" && !t.has_fn() && !t.any(&|t| matches!(t, T::Pow(b, _) if !plain(b))) && !t.any(&|t| matches!(t, T::Pow(_, e) if !matches!(**e, T::Rat(_, 1)))) {
        o.compared();
        if let Some(s) = nested_fraction(&r) {
            o.check(false, "nested", || format!("{r} contains {s}"));
        }
    }
    if o.depth() < 2 {
        o.succ(r);
    }
}

pub static FRAC: Prop = Prop { id: "C05", cases, check, follow, bounds: |_| "all trees of the general, fraction, expansion and collection spaces, continued breadth-first through sequences of 2 (thorough: 3) operations; thorough: also chains of four operators".into(), assumptions: crate::eval::ASSUMPTIONS };

// ---------------------------------------------------------------------------

fn factor_pool(big: bool) -> Vec<T> {
    let mut v = ts(&[
        "0", "1", "-1", "2", "3", "6", "-4", "1/2", "3/4", "#pi", "#e", "x", "y", "undef",
        "(^ x 2)", "(^ x 3)", "(^ x 1/2)", "(^ x 3/2)", "(^ x -1)", "(^ x -2)", "(^ x y)", "(^ y 2)", "(^ 2 1/2)",
        "(+ x 1)", "(+ x y)", "(+ y x)", "(^ (+ x 1) 2)", "(^ (+ x y) 1/2)", "(sin x)", "(^ (sin x) 2)", "(cos x)", "(ln x)",
        "(+)", "(*)", "(* x)", "(+ x)", "(* 2 x)", "(* x 2)", "(* -3 y)", "(* x y)", "(* 6 x y)", "(* 4 (^ x 2) y)", "(* x y z)",
        "(* 2 (+ x 1))", "(* x (+ x 1))", "(* 2 x (sin x))", "(* 1/2 x)", "(* 0 x)", "(* (^ x 2) (^ y 3))", "(* x x y)", "(* x (^ y -1))",
        "(+ (* x y) (* x z))", "(+ (* 2 x) 2)", "(+ (* 2 x) (* 4 y))", "(+ (^ x 2) x)", "(+ (* x y z) (* x y))", "(+ (* 6 x) (* 4 x y) (* 2 x z))",
        "(+ (* x (+ x 1)) (+ x 1))", "(+ (^ x 3) (^ x 2))", "(+ x (* -1 y))", "(+ x (* 2 x))", "(+ x x)", "(+ 2 4)", "(+ (* x y) (^ (* x y) 2))",
        "(* (+ (* x y) x) y)", "(* (* x y) (* y z))", "(+ (+ x y) z)", "(^ (* x y) 2)", "(^ (* x y) -1)", "(+ 1/2 (* 1/2 x))", "(* (sin x) (cos x) 3)", "(+ (* (sin x) x) (* (sin x) y))",
    ]);
    if big {
        v.extend(space::Alpha::new(&["x", "y", "2", "-6"], &["2", "1/2", "-1"], &[F::Sin]).two());
    }
    dedup(v)
}

fn factor_cases(t: Tier, emit: Emit) {
    let big = t == Tier::Thorough;
    let v = factor_pool(true);
    for a in &v {
        for b in &v {
            emit(Case::new("common", [a.clone(), b.clone()]));
        }
    }
    let mut w = v.clone();
    w.extend(space::general(true));
    w.extend(space::scale_family(true));
    w.extend(space::huge_family());
    w.extend(space::collection_family(true));
    w.extend(space::fraction_family(false));
    w.extend(space::trig_family(false));
    if big {
        w.extend(space::rational().three());
        w.extend(space::trig().three());
        let few = factor_pool(false);
        for a in space::algebraic().two_full() {
            for b in &few {
                emit(Case::new("common", [a.clone(), b.clone()]));
            }
        }
    }
    for a in dedup(w) {
        for x in ["x", "y", "(+ x 1)", "(sin x)", "2", "(^ x 2)", "w"] {
            emit(Case::new("separate", [a.clone(), parse(x)]));
        }
    }
}

fn contains(t: &T, x: &T) -> bool {
    let x = x.unordered();
    t.subtrees().into_iter().any(|s| s.unordered() == x)
}

/// x = x^(1/2) x^(1/2) is right over the complex numbers but not over the reals
/// for negative x: with roots, compare where the product is defined
fn recomposed(t: &T, p: T, o: &mut Out) {
    let roots = |t: &T| -> Vec<T> {
        t.subtrees().into_iter().filter(|t| matches!(t, T::Pow(_, e) if !matches!(**e, T::Rat(_, 1)))).map(|t| t.unordered()).collect()
    };
    let known = roots(t);
    if roots(&p).iter().any(|r| !known.contains(r)) {
        value(&T::Sum(vec![p, prod([T::int(0), t.clone()])]), t, o);
    } else {
        value(t, &p, o);
    }
}

fn factor_check(c: &Case, o: &mut Out) {
    let (ta, tb) = (&c.args[0], &c.args[1]);
    let (a, b) = (build(ta), build(tb));
    match c.op.as_str() {
        "common" => {
            let Some(r) = o.call("factorize_common_terms", || (Expr::factorize_common_terms(&a, &b), Expr::common_factors(&a, &b))) else { return };
            let ((f, (l, r)), g) = r;
            o.check(f == g, "common", || format!("common factor {g}, but factorised by {f}"));
            let (f, l, r) = (read(&f), read(&l), read(&r));
            recomposed(ta, prod([f.clone(), l]), o);
            recomposed(tb, prod([f, r]), o);
        }
        "separate" => {
            let Some((f, d)) = o.call("separate_factors", || a.separate_factors(&b)) else { return };
            let (f, d) = (read(&f), read(&d));
            value(ta, &prod([f.clone(), d.clone()]), o);
            let plain = matches!(tb, T::Var(_));
            // every factor goes to the side it belongs to, whatever it is separated by
            let factors: Vec<T> = match ta {
                T::Prod(a) => a.clone(),
                t => vec![t.clone()],
            };
            if !factors.iter().any(|t| matches!(t, T::Prod(_) | T::Undef)) {
                let (with, without): (Vec<T>, Vec<T>) = factors.into_iter().partition(|t| contains(t, tb));
                value(&prod(&without[..]), &f, o);
                value(&prod(&with[..]), &d, o);
            }
            if plain {
                o.check(!contains(&f, tb), "not free", || format!("the part free of {tb} is {f}"));
            }
            // the dependent part is made of the factors that contain x
            let dep = |t: &T| match t {
                T::Pow(b, _) => contains(b, tb) || contains(t, tb),
                t => contains(t, tb),
            };
            if plain && d != T::int(1) && !matches!(ta, T::Prod(_)) {
                o.check(dep(&d), "free", || format!("the part that depends on {tb} is {d}"));
            }
        }
        _ => unreachable!(),
    }
}

pub static FACTOR: Prop = Prop { id: "C06", cases: factor_cases, check: factor_check, follow: no_follow, bounds: |_| "all ordered pairs of a pool of about 75 expressions (thorough: several hundred), all trees of the spaces with 7 separating expressions".into(), assumptions: crate::eval::ASSUMPTIONS };
