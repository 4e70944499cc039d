//! Equality, hashing and ordering of expressions.

use crate::engine::*;
use crate::gen::*;
use crate::space::Alpha;
use crate::tree::*;
use calcu_rs::Expr;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

/// the pool whose pairs and triples are compared
pub fn pool(big: bool) -> Vec<T> {
    let mut v = ts(&[
        "undef", "0", "1", "-1", "2", "1/2", "3", "4", "-7/3", "#pi", "#e", "x", "y", "z", "sin", "ln", "a",
        "(+)", "(*)", "(+ x)", "(* x)", "(+ 2)", "(* 2)", "(+ (* x))", "(* (+ x))", "(+ (+ x))", "(+ undef)", "(* undef)",
    ]);
    let a = Alpha::new(
        &["x", "y", "2", "#pi", "undef"],
        &["2", "-1", "1/2", "y"],
        &[F::Sin, F::Cos, F::ASin, F::Log(Base::E), F::Log(Base::Rat(2, 1)), F::Log(Base::Rat(10, 1))],
    );
    v.extend(a.l1());
    tuples(3, &ts(&["x", "y", "2"]), &mut |t| {
        v.push(sum(t));
        v.push(prod(t));
    });
    v.extend(ts(&[
        "(+ (* x y) z)", "(+ z (* y x))", "(+ (* 2 x) y)", "(+ y (* x 2))", "(* (+ x y) z)", "(* z (+ y x))",
        "(^ (+ x y) 2)", "(^ (+ y x) 2)", "(sin (+ x y))", "(sin (+ y x))", "(ln (* x y))", "(ln (* y x))",
        "(+ (sin x) (cos x))", "(+ (cos x) (sin x))", "(* (sin x) (^ x 2))", "(* (^ x 2) (sin x))",
        "(+ (+ x y) z)", "(+ x (+ y z))", "(+ x y z)", "(+ z y x)", "(* (* x y) z)", "(* x (* y z))",
        "(^ x (+ y 1))", "(^ x (+ 1 y))", "(^ (^ x 2) 3)", "(^ x (^ 2 3))", "(* (* x y) (* y x))", "(+ (* x y) (* y x))",
        "(+ (+ x y) (+ y x))", "(* (+ x y) (+ y x))", "(+ (* x x) (* y y))", "(+ (* y y) (* x x))", "(* x x y)", "(* x y y)", "(+ x x y)", "(+ x y y)",
        "(log:3 x)", "(log:10/3 x)", "(log:20 x)", "(log:1/10 x)", "(log:-10 x)", "(log:5/2 x)", "(log:100 x)", "(log:3/10 x)", "(log:2 y)", "(log:10 y)", "(log:22/7 x)",
        "(asec x)", "(acsc x)", "(acot x)", "(tan x)", "(sec x)", "(csc x)", "(cot x)", "(acos x)", "(atan x)", "(log:pi x)", "(log:1/2 x)",
        "(^ x -2)", "(^ x 3)", "(+ x 1)", "(+ 1 x)", "(+ -1 x)", "(* -1 x)", "(* x -1)", "(^ (+ x 1) -1)",
    ]));
    // close to each other
    v.extend(ts(&["1/3", "333/1000", "6004799503160661/18014398509481984", "9007199254740992", "9007199254740993", "(log:1/3 x)", "(log:333/1000 x)", "(log:6004799503160661/18014398509481984 x)", "xx", "x1", "(sin xx)", "X", "Y", "Xx", "xX", "(sin X)", "(^ X 2)", "(+ X y)", "x_1", "(* x X)"]));
    if big {
        let b = Alpha::new(&["x", "2", "#e"], &["2", "-1"], &[F::Sin, F::Log(Base::E)]);
        v.extend(b.two());
    } else {
        let b = Alpha::new(&["x", "2"], &["2"], &[F::Sin]);
        v.extend(b.two());
    }
    dedup(v)
}

/// a larger pool for pairs only
pub fn pair_pool(_big: bool) -> Vec<T> {
    let mut v = pool(true);
    let b = Alpha::new(&["x", "y", "2", "#e"], &["2", "-1"], &[F::Sin, F::Log(Base::E)]);
    v.extend(b.two_full());
    for n in ["18446744073709551615", "18446744073709551616", "18446744073709551617", "170141183460469231731687303715884105727", "170141183460469231731687303715884105726"] {
        for s in ["{n}", "-{n}", "1/{n}", "-1/{n}", "(* {n} x)", "(* 1/{n} x)", "(^ x {n})", "(log:{n} x)", "(log:1/{n} x)", "(+ x {n})"] {
            v.push(parse(&s.replace("{n}", n)));
        }
    }
    v.extend(crate::space::size_family(false));
    v.extend(crate::space::huge_family().into_iter().filter(|t| t.size() < 150));
    for d in 1..=9 {
        for n in 1..=30 {
            for s in ["{n}", "-{n}", "(^ x {n})", "(* {n} x)", "(log:{n} x)"] {
                v.push(parse(&s.replace("{n}", &T::Rat(n, d).to_string())));
            }
        }
    }
    dedup(v)
}

thread_local! {
    static POOLS: RefCell<[Option<(Vec<T>, Vec<Expr>)>; 2]> = const { RefCell::new([None, None]) };
}
fn with_pool<R>(big: bool, f: impl FnOnce(&[T], &[Expr]) -> R) -> R {
    POOLS.with(|p| {
        let mut p = p.borrow_mut();
        let (t, e) = p[big as usize].get_or_insert_with(|| {
            let t = pool(big);
            let e = t.iter().map(build).collect();
            (t, e)
        });
        f(t, e)
    })
}

fn cases(t: Tier, emit: Emit) {
    let big = t == Tier::Thorough;
    let op = t.pick("chain", "chain+");
    let p = pool(big);
    for a in &p {
        for b in &p {
            emit(Case::new(op, [a.clone(), b.clone()]));
        }
    }
    let p = pair_pool(big);
    for a in &p {
        emit(Case::new(t.pick("row", "row+"), [a.clone()]));
    }
}

fn hash_of(e: &Expr) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}

pub fn order_laws(ta: &T, tb: &T, a: &Expr, b: &Expr, o: &mut Out) {
    let same = ta.unordered() == tb.unordered();
    let r = o.call("comparison", || {
        (a == b, b == a, a != b, a.cmp(b), b.cmp(a), a.partial_cmp(b), a < b, a <= b)
    });
    let Some((eq, qe, ne, ab, ba, pc, lt, le)) = r else { return };
    let show = || format!("{ta} and {tb}: == {eq}, reversed == {qe}, cmp {ab:?}, reversed cmp {ba:?}");
    o.check(eq == same, "equality", show);
    o.check(eq == qe && ne != eq, "symmetry", show);
    o.check((ab == Ordering::Equal) == eq, "cmp-eq", show);
    o.check(ba == ab.reverse() && pc == Some(ab) && lt == ab.is_lt() && le == ab.is_le(), "antisymmetry", show);
    if same {
        let h = o.call("hash", || (hash_of(a), hash_of(b)));
        if let Some((x, y)) = h {
            o.check(x == y, "hash", || format!("{ta} and {tb} are equal but hash {x:x} and {y:x}"));
        }
        let s = o.call("collections", || {
            let mut h = HashSet::new();
            h.insert(a.clone());
            let mut t = BTreeSet::new();
            t.insert(a.clone());
            (h.contains(b), t.contains(b))
        });
        if let Some(s) = s {
            o.check(s == (true, true), "lookup", || format!("a set containing {ta} does not contain {tb}: {s:?}"));
        }
    }
}

fn check(c: &Case, o: &mut Out) {
    match c.op.as_str() {
        "row" | "row+" => {
            let ta = &c.args[0];
            let ea = build(ta);
            let ua = ta.unordered();
            // the whole row of the comparison matrix
            ROW.with(|r| {
                let mut r = r.borrow_mut();
                let row = r.get_or_insert_with(|| {
                    pair_pool(c.op == "row+")
                        .into_iter()
                        .map(|t| (t.unordered(), build(&t), t))
                        .collect()
                });
                for (ub, eb, tb) in row.iter() {

                    let r = o.attempt(|| (ea == *eb, ea.cmp(eb), eb.cmp(&ea)));
                    let ok = match r {
                        Ok((eq, ab, ba)) => {
                            (eq == (ua == *ub)) && (eq == ab.is_eq()) && ab == ba.reverse() && (!eq || hash_of(&ea) == hash_of(eb))
                        }
                        Err(_) => false,
                    };
                    o.compared();
                    if !ok {
                        // name the pair
                        order_laws(ta, tb, &ea, eb, o);
                    }
                }
            });
        }
        "chain" | "chain+" => {
            let (ta, tb) = (&c.args[0], &c.args[1]);
            let (a, b) = (build(ta), build(tb));
            order_laws(ta, tb, &a, &b, o);
            let Some(ab) = o.call("cmp", || a.cmp(&b)) else { return };
            if ab == Ordering::Greater {
                return;
            }
            with_pool(c.op == "chain+", |pt, pe| {
                for (tc, ec) in pt.iter().zip(pe) {
                    let Ok((bc, ac)) = o.attempt(|| (b.cmp(ec), a.cmp(ec))) else {
                        return;
                    };
                    if bc == Ordering::Greater {
                        continue;
                    }
                    let want = if ab == Ordering::Equal && bc == Ordering::Equal { Ordering::Equal } else { Ordering::Less };
                    o.check(ac == want, "transitivity", || format!("{ta} <= {tb} <= {tc}, but the first compares {ac:?} to the last"));
                }
            });
        }
        _ => unreachable!(),
    }
}

thread_local! {
    static ROW: RefCell<Option<Vec<(T, Expr, T)>>> = const { RefCell::new(None) };
}

pub static LAWS: Prop = Prop { id: "C11", cases, check, follow: no_follow, bounds: |_| "all pairs and triples of a pool of several hundred expressions; all pairs of a larger pool".into(), assumptions: &["the reference trees read back through atom() are the expressions"] };
