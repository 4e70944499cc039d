//! Substitution.

use crate::engine::*;
use crate::gen::{dedup, ts};
use crate::space::{self, Alpha};
use crate::tree::*;
use calcu_rs::Expr;

/// every occurrence of a `from`, outermost first and the first match of the list;
/// what is put in its place is not looked at again
fn reference(t: &T, subs: &[(T, T)]) -> T {
    let u = t.unordered();
    for (from, to) in subs {
        if u == from.unordered() {
            return to.clone();
        }
    }
    match t {
        T::Sum(a) => T::Sum(a.iter().map(|t| reference(t, subs)).collect()),
        T::Prod(a) => T::Prod(a.iter().map(|t| reference(t, subs)).collect()),
        T::Pow(b, e) => T::pow(reference(b, subs), reference(e, subs)),
        T::Fn(f, a) => T::f(*f, reference(a, subs)),
        t => t.clone(),
    }
}

fn small() -> Vec<T> {
    Alpha::new(&["x", "y", "2"], &["2", "x"], &[F::Sin, F::Log(Base::E)]).two_full()
}

fn pairs() -> Vec<(T, T)> {
    [
        ("x", "y"), ("y", "x"), ("x", "(+ x 1)"), ("x", "2"), ("2", "x"), ("y", "(* x y)"), ("(+ x y)", "x"), ("(* x y)", "(+ x y)"),
        ("(^ x 2)", "y"), ("(sin x)", "(sin (sin x))"), ("x", "(sin x)"), ("(+ x 1)", "x"), ("1", "y"), ("x", "undef"),
    ]
    .iter()
    .map(|(a, b)| (parse(a), parse(b)))
    .collect()
}

fn cases(tier: Tier, emit: Emit) {
    let big = tier == Tier::Thorough;
    let mut v = vec![];
    for a in [space::rational(), space::algebraic(), space::trig(), space::explog(), space::undef(), space::functions()] {
        v.extend(if big { a.two_full() } else { a.two() });
    }
    v.extend(space::fraction_family(false));
    v.extend(space::scale_family(true));
    v.extend(space::collection_family(false));
    let v = dedup(v);
    let fixed: Vec<(T, T)> = pairs();
    // every subtree of the expression, and every fixed pattern, by every target
    let to = ts(&["(+ x 1)", "y", "(sin (* x y))", "0"]);
    for t in &v {
        let from: Vec<T> = dedup(t.subtrees().into_iter().cloned().collect());
        for f in &from {
            for to in to.iter().chain([&T::Prod(vec![f.clone(), T::var("w")]), &reversed(f)]) {
                emit(Case::new("sub", [t.clone(), reversed(f), to.clone()]));
                emit(Case::new("seq", [t.clone(), f.clone(), to.clone()]));
            }
        }
        for (f, to) in &fixed {
            emit(Case::new("sub", [t.clone(), f.clone(), to.clone()]));
        }
    }
    // parts of very long and deep expressions
    for t in space::huge_family() {
        let parts: Vec<T> = dedup(t.subtrees().into_iter().cloned().collect());
        let n = parts.len();
        for i in [0, 1, n / 2, n.saturating_sub(2), n - 1, 8, 16, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257] {
            if let Some(f) = parts.get(i) {
                for to in to.iter().chain([&T::Prod(vec![f.clone(), T::var("w")])]) {
                    emit(Case::new("sub", [t.clone(), f.clone(), to.clone()]));
                    emit(Case::new("seq", [t.clone(), f.clone(), to.clone()]));
                }
            }
        }
    }
    for t in small() {
        for p in &fixed {
            for q in &fixed {
                let l = [t.clone(), p.0.clone(), p.1.clone(), q.0.clone(), q.1.clone()];
                emit(Case::new("conc", l.clone()));
                emit(Case::new("seq", l));
            }
        }
    }
    // three at once
    let k = if big { fixed.len() } else { 7 };
    let some: Vec<T> = small().into_iter().filter(|t| big || t.size() <= 4).collect();
    for t in some {
        for a in &fixed[..k] {
            for b in &fixed[..k] {
                for c in &fixed[..k] {
                    let l = [t.clone(), a.0.clone(), a.1.clone(), b.0.clone(), b.1.clone(), c.0.clone(), c.1.clone()];
                    emit(Case::new("conc", l.clone()));
                    emit(Case::new("seq", l));
                }
            }
        }
    }
    // long lists: every stretch of the list in both directions, and followed by
    // the same patterns with other replacements, which must not be used any more
    let n = fixed.len();
    for t in small().into_iter().chain(ts(&["(* 2 x y (+ x y) (^ x 2) (sin x) (+ x 1))", "(+ 1 2 x y (* x y) (^ x 2) (sin x))"])) {
        for first in 0..n {
            for len in 4..=n {
                for back in [false, true] {
                    for twice in [false, true] {
                        let mut l: Vec<(T, T)> = (0..len).map(|i| fixed[(first + i) % n].clone()).collect();
                        if back {
                            l.reverse();
                        }
                        if twice {
                            let again: Vec<(T, T)> = l.iter().map(|(f, _)| (f.clone(), T::var("w"))).collect();
                            l.truncate(len - len / 2);
                            l.extend(again.into_iter().take(len / 2));
                        }
                        let l: Vec<T> = std::iter::once(t.clone()).chain(l.into_iter().flat_map(|(a, b)| [a, b])).collect();
                        emit(Case::new("conc", l.clone()));
                        emit(Case::new("seq", l));
                    }
                }
            }
        }
    }
    emit(Case::new("conc", [parse("(+ x y)")]));
    emit(Case::new("seq", [parse("(+ x y)")]));
}

/// equal, but stored in another order
fn reversed(t: &T) -> T {
    match t {
        T::Sum(a) => T::Sum(a.iter().rev().cloned().collect()),
        T::Prod(a) => T::Prod(a.iter().rev().cloned().collect()),
        t => t.clone(),
    }
}

fn check(c: &Case, o: &mut Out) {
    let t = &c.args[0];
    let e = build(t);
    let subs: Vec<(T, T)> = c.args[1..].chunks(2).map(|p| (p[0].clone(), p[1].clone())).collect();
    let built: Vec<(Expr, Expr)> = subs.iter().map(|(a, b)| (build(a), build(b))).collect();
    let refs: Vec<(&Expr, &Expr)> = built.iter().map(|(a, b)| (a, b)).collect();
    let r = match c.op.as_str() {
        "sub" => o.call("substitude", || e.substitude(&built[0].0, &built[0].1)),
        "conc" => {
            // the list is wanted as something that can be copied
            macro_rules! by_length {
                ($($n:literal)*) => {
                    match refs.len() {
                        0 => o.call("concurr_substitude", || e.concurr_substitude([])),
                        $($n => {
                            let l: [(&Expr, &Expr); $n] = std::array::from_fn(|i| refs[i]);
                            o.call("concurr_substitude", || e.concurr_substitude(l))
                        })*
                        n => unreachable!("{n}"),
                    }
                };
            }
            by_length!(1 2 3 4 5 6 7 8 9 10 11 12 13 14)
        }
        _ => o.call("seq_substitude", || e.seq_substitude(refs)),
    };
    let Some(r) = r else { return };
    let want = if c.op == "seq" {
        subs.iter().fold(t.clone(), |t, p| reference(&t, std::slice::from_ref(p)))
    } else {
        reference(t, &subs)
    };
    let r = read(&r);
    o.state(&r);
    o.check(r.unordered() == want.unordered(), "result", || format!("{r} instead of {want}"));
    let (e, b): (T, Vec<T>) = (read(&e), built.iter().flat_map(|(a, b)| [read(a), read(b)]).collect());
    o.check(e == *t && b == c.args[1..], "changed", || format!("the arguments became {e} {b:?}"));
}

pub static SUBST: Prop = Prop { id: "C13", cases, check, follow: no_follow, bounds: |_| "all trees of the spaces, patterns and replacements from a pool, lists of up to three substitutions in every order, stretches of up to fourteen".into(), assumptions: &["the reference trees read back through atom() are the expressions"] };
