//! Expressions viewed as monomials and polynomials in generalized variables.

use crate::engine::*;
use crate::eval::{same_value, Verdict};
use crate::gen::*;
use crate::space;
use crate::tree::*;
use calcu_rs::polynomial::{VarPow, VarSet, GPE};
use calcu_rs::Expr;
use std::collections::BTreeMap;

type Deg = BTreeMap<T, i128>;

fn contains(t: &T, s: &T) -> bool {
    t.unordered() == *s || t.children().into_iter().any(|c| contains(c, s))
}

/// coefficient and degrees of a monomial in `vars` (unordered trees)
fn mono(t: &T, vars: &[T]) -> Option<(T, Deg)> {
    if *t == T::Undef {
        return None;
    }
    let u = t.unordered();
    if vars.contains(&u) {
        return Some((T::int(1), [(u, 1)].into()));
    }
    match t {
        T::Prod(a) => {
            let (mut c, mut d) = (vec![], Deg::new());
            for x in a {
                let (k, e) = mono(x, vars)?;
                c.push(k);
                for (v, n) in e {
                    *d.entry(v).or_default() += n;
                }
            }
            return Some((T::Prod(c), d));
        }
        T::Pow(b, e) => {
            if let T::Rat(n, 1) = **e {
                if n >= 1 {
                    let (c, mut d) = mono(b, vars)?;
                    d.values_mut().for_each(|e| *e *= n);
                    return Some((T::pow(c, (**e).clone()), d));
                }
            }
        }
        _ => (),
    }
    if vars.iter().any(|v| contains(t, v)) {
        None
    } else {
        Some((t.clone(), Deg::new()))
    }
}

fn poly(t: &T, vars: &[T]) -> Option<BTreeMap<Deg, T>> {
    let mut r: BTreeMap<Deg, Vec<T>> = BTreeMap::new();
    match t {
        T::Sum(a) if !vars.contains(&t.unordered()) => {
            for x in a {
                let (c, d) = mono(x, vars)?;
                r.entry(d).or_default().push(c);
            }
        }
        t => {
            let (c, d) = mono(t, vars)?;
            r.entry(d).or_default().push(c);
        }
    }
    Some(r.into_iter().map(|(d, c)| (d, T::Sum(c))).collect())
}

fn expr_of(d: &Deg) -> T {
    T::Prod(d.iter().map(|(v, n)| T::pow(v.clone(), T::int(*n))).collect())
}

fn sets() -> Vec<Vec<T>> {
    ["x", "y", "x y", "y x", "x z y", "", "a"]
        .iter()
        .map(|s| s.split_whitespace().map(parse).collect())
        .chain(
            [
                vec!["(^ x 2)"], vec!["(+ x 1)"], vec!["(+ 1 x)", "y"], vec!["(sin x)"], vec!["x", "(sin y)"], vec!["(sin x)", "(cos x)"],
                vec!["(^ x y)"], vec!["(* x y)"], vec!["(^ x -1)", "y"], vec!["(^ (+ x 1) 2)", "(+ x 1)"], vec!["x", "(^ x 2)"], vec!["(+ x y)", "z"],
            ]
            .into_iter()
            .map(|v| ts(&v)),
        )
        .collect()
}

fn trees(big: bool) -> Vec<T> {
    let mut v = vec![];
    for a in [space::rational(), space::trig(), space::undef(), space::algebraic()] {
        v.extend(if big { a.two_full() } else { a.two() });
    }
    v.extend(space::expansion_family(false).into_iter().filter(|t| t.size() < 24));
    v.extend(space::scale_family(true));
    v.extend(space::huge_family().into_iter().filter(|t| t.size() < 150));
    v.extend(space::collection_family(false));
    let m = ts(&[
        "2", "a", "x", "y", "(^ x 2)", "(* a x)", "(* 2 x y)", "(* -1 x)", "(* x x)", "(* b (^ y 3) x)", "(^ (* a x y) 2)", "(* (+ a b) x)",
        "(* x (+ x 1))", "(+ x 1)", "(^ (+ x 1) 2)", "(sin x)", "(* y (sin x) (sin x))", "(^ x -1)", "(^ x a)", "(^ x 1/2)", "(* (^ x 2) (^ a 1/2))", "(^ x 3)", "(* z (^ y 2))",
    ]);
    tuples(2, &m, &mut |t| v.push(sum(t)));
    tuples(2, &m, &mut |t| v.push(prod(t)));
    multisets(3, &m, &mut |t| v.push(sum(t)));
    multisets(3, &m, &mut |t| v.push(prod(t)));
    // sums of plain monomials of every degree
    let mut plain = vec![];
    for i in 0..4 {
        for j in 0..4 {
            plain.push(parse(&format!("(* (^ x {i}) (^ y {j}))")));
        }
    }
    plain.extend(ts(&["(^ x 5)", "(* z (^ x 4))", "(* x y z)", "(^ z 2)", "(* a (^ y 6))"]));
    tuples(2, &plain, &mut |t| v.push(sum(t)));
    multisets(3, &plain, &mut |t| v.push(sum(t)));
    for t in m.iter() {
        for n in 0..6 {
            v.push(T::pow(t.clone(), T::int(n)));
        }
    }
    if big {
        multisets(4, &m, &mut |t| v.push(sum(t)));
        tuples(3, &m, &mut |t| v.push(sum(t)));
    }
    dedup(v)
}

/// many variables at once, and monomials and polynomials in them
fn wide(big: bool, emit: Emit) {
    let names = ["x", "y", "z", "u", "v", "w", "a", "b", "c", "d", "f", "g"];
    for n in [4, 5, 6, 7, 8, 9, 12] {
        let vars: Vec<T> = names[..n].iter().map(|s| T::var(s)).collect();
        let mut back = vars.clone();
        back.reverse();
        let mut mixed = vars.clone();
        mixed[n / 2] = parse("(sin x)");
        mixed[n - 1] = parse("(+ a 1)");
        let mut v = vec![];
        for of in [&vars, &mixed] {
            let p = |i: usize, k: usize| if k == 1 { of[i].clone() } else { T::pow(of[i].clone(), T::int(k as i128)) };
            // every variable in some power, each left out once, each by itself
            for k in 1..4 {
                let all: Vec<T> = (0..n).map(|i| p(i, (i * k) % 4 + 1)).collect();
                v.push(prod(&all[..]));
                v.push(sum(&all[..]));
                for i in 0..n {
                    let mut l = all.clone();
                    l.remove(i);
                    v.push(prod(&l[..]));
                    v.push(sum([prod(&l[..]), all[i].clone()]));
                    v.push(sum([prod(&all[..]), prod(&l[..]), T::int(k as i128)]));
                    v.push(prod([parse("(+ 2 q)"), prod(&l[..]), T::f(F::Sin, T::var("q"))]));
                    for j in 0..n {
                        v.push(sum([prod([p(i, k), p(j, 2)]), prod([p(j, k), p(i, 2), T::int(3)]), p(i, k + 1)]));
                    }
                }
                // powers of products of them
                v.push(T::pow(prod(&all[..]), T::int(k as i128)));
                v.push(prod([T::pow(prod(&all[..n / 2]), T::int(k as i128)), prod(&all[n / 2..])]));
                // all pairs
                let mut pairs = vec![];
                for i in 0..n {
                    for j in 0..=i {
                        pairs.push(prod([T::int((i + j * k) as i128 + 1), p(i, k), p(j, 1)]));
                    }
                }
                v.push(sum(&pairs[..]));
                pairs.reverse();
                v.push(sum(&pairs[..]));
            }
        }
        for t in dedup(v) {
            for s in [&vars, &back, &mixed] {
                for op in ["mono", "poly"] {
                    emit(Case::new(op, std::iter::once(t.clone()).chain(s.iter().cloned())));
                }
            }
            if big {
                for i in 0..n {
                    let mut s = vars.clone();
                    s.remove(i);
                    for op in ["mono", "poly"] {
                        emit(Case::new(op, std::iter::once(t.clone()).chain(s.iter().cloned())));
                    }
                }
            }
        }
    }
    // high degrees
    for n in [7, 8, 15, 16, 31, 63, 64, 127, 128, 255, 256, 1000, 32767, 65536, 1 << 20] {
        for s in ["(^ x {n})", "(* 2 (^ x {n}))", "(* (^ x {n}) (^ y 3))", "(* x (^ x {n}))", "(+ (^ x {n}) x 1)", "(+ (* 3 (^ x {n}) y) (^ y {n}) (* a (^ x {n})))", "(^ (* x y y) {n})", "(^ (^ x 2) {n})", "(* (^ x {n}) (^ y {n}) z)"] {
            let t = parse(&s.replace("{n}", &n.to_string()));
            for s in sets() {
                for op in ["mono", "poly"] {
                    emit(Case::new(op, std::iter::once(t.clone()).chain(s.iter().cloned())));
                }
            }
        }
    }
}

/// the terms that are added to a polynomial one after the other: coefficient, degrees in x, y and sin(x)
const TERMS: [(&str, [i128; 3]); 12] = [
    ("1", [0, 0, 0]),
    ("a", [1, 0, 0]),
    ("-1", [1, 0, 0]),
    ("2", [0, 1, 0]),
    ("-2", [1, 1, 0]),
    ("b", [1, 1, 0]),
    ("1/2", [2, 0, 0]),
    ("(+ a b)", [0, 2, 0]),
    ("3", [0, 0, 1]),
    ("-1", [1, 2, 3]),
    ("(^ a 1/2)", [3, 2, 1]),
    ("0", [2, 1, 0]),
];
const GPE_VARS: [&str; 3] = ["x", "y", "(sin x)"];

fn gpe(big: bool, emit: Emit) {
    let pool: Vec<T> = (0..TERMS.len()).map(|i| T::int(i as i128)).collect();
    for n in 0..if big { 6 } else { 5 } {
        tuples(n, &pool, &mut |t| emit(Case::new("gpe", t.to_vec())));
    }
    // what a set of powers is made of, in every order and with repetitions
    let degs: Vec<T> = (0..9).map(T::int).collect();
    for n in 0..if big { 6 } else { 5 } {
        tuples(n, &degs, &mut |t| emit(Case::new("varpow", t.to_vec())));
    }
    for n in [6, 9, 17, 33, 65] {
        emit(Case::new("gpe", (0..n).map(|i| pool[i * 5 % pool.len()].clone())));
        emit(Case::new("varpow", (0..n).map(|i| degs[i * 4 % degs.len()].clone())));
    }
}

fn hash_of<X: std::hash::Hash>(x: &X) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// a set of powers knows the sum of the degrees it was given for each variable,
/// however they were put in
fn check_varpow(c: &Case, o: &mut Out) {
    let vars: Vec<Expr> = GPE_VARS.iter().map(|v| build(&parse(v))).collect();
    // variable k % 3 with degree 1 + k / 3
    let list: Vec<(usize, i128)> = c.args.iter().map(|k| if let T::Rat(k, _) = k { (*k as usize % 3, 1 + *k / 3) } else { unreachable!() }).collect();
    let make = |l: &[(usize, i128)]| VarPow::from(l.iter().map(|(v, d)| (vars[*v].clone(), *d as _)).collect::<Vec<_>>());
    let Some(p) = o.call("from", || make(&list)) else { return };
    let mut want = [0; 3];
    list.iter().for_each(|(v, d)| want[*v] += d);
    for (v, w) in vars.iter().zip(want) {
        o.check(p.degree_of(v).copied().unwrap_or(0) as i128 == w, "degree_of", || format!("{v}: {p:?}"));
    }
    o.check(p.degree_of(&build(&parse("q"))).is_none(), "degree_of", || format!("q: {p:?}"));
    o.check(p.total_deg() as i128 == want.iter().sum::<i128>(), "total_deg", || format!("{p:?}"));
    o.check(p.is_const() == list.is_empty(), "is_const", || format!("{p:?}"));
    let mut back = list.clone();
    back.reverse();
    let mut sorted = list.clone();
    sorted.sort();
    let merged: Vec<(usize, i128)> = want.iter().copied().enumerate().filter(|d| d.1 != 0).collect();
    for l in [back, sorted, merged] {
        let Some(q) = o.call("from", || make(&l)) else { return };
        o.check(p == q && hash_of(&p) == hash_of(&q), "equal", || format!("{p:?} and {q:?}"));
        o.check(p.cmp(&q).is_eq() && p.partial_cmp(&q) == Some(std::cmp::Ordering::Equal), "order", || format!("{p:?} and {q:?}"));
    }
    for more in 0..3 {
        let mut l = list.clone();
        l.push((more, 1));
        let Some(q) = o.call("from", || make(&l)) else { return };
        o.check(p != q && p < q && q > p, "order", || format!("{p:?} and {q:?}"));
    }
}

/// after every added term the polynomial holds the sum of the coefficients of every power
fn check_gpe(c: &Case, o: &mut Out) {
    let vars: Vec<T> = GPE_VARS.iter().map(|v| parse(v)).collect();
    let built: Vec<Expr> = vars.iter().map(build).collect();
    let power = |d: &[i128; 3]| VarPow::from(d.iter().zip(&built).filter(|d| *d.0 != 0).map(|(d, v)| (v.clone(), *d as _)).collect::<Vec<_>>());
    let monomial = |d: &[i128; 3]| T::Prod(d.iter().zip(&vars).map(|(d, v)| T::pow(v.clone(), T::int(*d))).collect());
    let mut g = GPE::default();
    let mut model: BTreeMap<[i128; 3], Vec<T>> = BTreeMap::new();
    let mut raw = vec![];
    for (i, k) in c.args.iter().enumerate() {
        let T::Rat(k, _) = k else { unreachable!() };
        let (k, d) = TERMS[*k as usize];
        let k = parse(k);
        if o.call("add", || g.add(build(&k), power(&d))).is_none() {
            return;
        }
        raw.push(T::Prod(vec![k.clone(), monomial(&d)]));
        model.entry(d).or_default().push(k);
        // only the last step: the prefixes are cases of their own
        if i + 1 < c.args.len() {
            continue;
        }
        for sorted in [false, true] {
            let mut h = g.clone();
            if sorted {
                h.sort_by_degree();
            }
            for d in TERMS.iter().map(|t| t.1) {
                let got = h.find_mut(&power(&d)).map(|c| c.clone());
                match (got, model.get(&d)) {
                    (Some(c), Some(w)) => {
                        same(&T::Sum(w.clone()), &read(&c), o, "find_mut");
                    }
                    (c, w) => {
                        o.check(c.is_none() == w.is_none(), "find_mut", || format!("{:?}: {c:?}", d));
                    }
                }
            }
        }
        let mut again = g.clone();
        again.sort_by_degree();
        let Some(e) = o.call("into_expr", || g.clone().into_expr()) else { return };
        let Some(f) = o.call("into_expr", || again.into_expr()) else { return };
        for e in [e, f] {
            let r = read(&e);
            o.state(&r);
            same(&T::Sum(raw.clone()), &r, o, "into_expr");
        }
    }
    if c.args.is_empty() {
        let Some(e) = o.call("into_expr", || g.into_expr()) else { return };
        same(&T::int(0), &read(&e), o, "into_expr");
    }
}

fn cases(tier: Tier, emit: Emit) {
    gpe(tier == Tier::Thorough, emit);
    wide(tier == Tier::Thorough, emit);
    let sets = sets();
    for t in trees(tier == Tier::Thorough) {
        for s in &sets {
            for op in ["mono", "poly"] {
                emit(Case::new(op, std::iter::once(t.clone()).chain(s.iter().cloned())));
            }
        }
    }
}

fn same(a: &T, b: &T, o: &mut Out, what: &str) -> bool {
    match same_value(a, b) {
        Verdict::Same(_) => o.compared(),
        Verdict::Vacuous => o.vacuous(),
        Verdict::Differs(d) => {
            o.compared();
            o.fail("coefficient", format!("{what}: {b} instead of {a}: {d}"));
            return false;
        }
    }
    true
}

fn zero(t: &T) -> bool {
    matches!(same_value(t, &T::int(0)), Verdict::Same(_))
}

fn deg(p: &VarPow, vars: &[T], built: &[Expr]) -> Deg {
    vars.iter()
        .zip(built)
        .filter_map(|(v, e)| p.degree_of(e).map(|d| (v.clone(), *d as i128)))
        .filter(|d| d.1 != 0)
        .collect()
}
fn total(d: &Deg) -> i128 {
    d.values().sum()
}

fn check(c: &Case, o: &mut Out) {
    match c.op.as_str() {
        "gpe" => return check_gpe(c, o),
        "varpow" => return check_varpow(c, o),
        _ => (),
    }
    let t = &c.args[0];
    let e = build(t);
    let built: Vec<Expr> = c.args[1..].iter().map(build).collect();
    let vars: Vec<T> = c.args[1..].iter().map(T::unordered).collect();
    let set = VarSet::new(&built);
    if c.op == "mono" {
        let want = mono(t, &vars);
        let view = e.as_monomial_view(&set);
        let Some(ok) = o.call("check", || view.check()) else { return };
        o.check(ok == want.is_some(), "check", || format!("check says {ok}"));
        let Some(got) = o.call("coeff", || view.coeff()) else { return };
        let Some(d) = o.call("degree", || view.degree()) else { return };
        o.check(got.is_some() == want.is_some(), "monomial", || format!("coeff is {got:?}"));
        let (Some((gc, gd)), Some((wc, wd))) = (got, want) else {
            o.check(d.is_none(), "degree", || format!("degree {d:?}"));
            return;
        };
        let got = deg(&gd, &vars, &built);
        o.check(got == wd && gd.total_deg() as i128 == total(&wd), "degrees", || format!("{gd:?}"));
        o.check(gd.is_const() == wd.is_empty(), "constant", || format!("{gd:?}"));
        o.check(d.map(|d| d as i128) == Some(total(&wd)), "degree", || format!("degree {d:?}"));
        for (v, b) in vars.iter().zip(&built) {
            let Some(d) = o.call("degree_of", || view.degree_of(b)) else { return };
            o.check(d.unwrap_or(0) as i128 == wd.get(v).copied().unwrap_or(0), "degree_of", || format!("{v}: {d:?}"));
        }
        let gc = read(&gc);
        o.state(&gc);
        same(&wc, &gc, o, "coeff");
        return;
    }
    let want = poly(t, &vars);
    let view = e.as_polynomial_view(&set);
    let Some(ok) = o.call("check", || view.check()) else { return };
    o.check(ok == want.is_some(), "check", || format!("check says {ok}"));
    let Some(got) = o.call("coeffs", || view.coeffs()) else { return };
    let Some(degree) = o.call("degree", || view.degree()) else { return };
    let Some(collected) = o.call("collect_terms", || view.collect_terms()) else { return };
    o.check(collected.is_some() == want.is_some(), "collect_terms", || format!("{collected:?}"));
    let Some(want) = want else {
        o.check(got.is_empty(), "polynomial", || format!("coeffs {got:?}"));
        o.check(degree.is_none(), "degree", || format!("degree {degree:?}"));
        return;
    };
    let cancelled: Vec<Deg> = want.iter().filter(|(_, c)| zero(c)).map(|(d, _)| d.clone()).collect();
    let mut seen: BTreeMap<Deg, T> = BTreeMap::new();
    for (d, c) in &got {
        let k = deg(d, &vars, &built);
        let c = read(c);
        o.state(&c);
        o.check(d.total_deg() as i128 == total(&k), "degrees", || format!("{d:?}"));
        match want.get(&k) {
            Some(w) => {
                same(w, &c, o, &format!("{}", expr_of(&k)));
            }
            None => o.fail("term", format!("{c} * {}", expr_of(&k))),
        }
        if seen.insert(k.clone(), c).is_some() {
            o.fail("twice", format!("{} has two coefficients", expr_of(&k)));
        }
    }
    for (d, c) in &want {
        o.check(seen.contains_key(d) || cancelled.contains(d), "missing", || format!("{c} * {}", expr_of(d)));
    }
    if cancelled.is_empty() {
        let w = want.keys().map(total).max();
        o.check(degree.map(|d| d as i128) == w, "degree", || format!("degree {degree:?} instead of {w:?}"));
    }
    for (v, b) in vars.iter().zip(&built) {
        let mut by: BTreeMap<i128, Vec<T>> = BTreeMap::new();
        for (d, c) in &want {
            let mut d = d.clone();
            let n = d.remove(v).unwrap_or(0);
            by.entry(n).or_default().push(T::Prod(vec![c.clone(), expr_of(&d)]));
        }
        let Some(of) = o.call("coeffs_of", || view.coeffs_of(b)) else { return };
        for (n, c) in &by {
            let w = T::Sum(c.clone());
            let Some(one) = o.call("coeffs_of_deg", || view.coeffs_of_deg(b, &(*n as _))) else { return };
            match (of.get(&(*n as _)), one) {
                (Some(g), Some(h)) => {
                    same(&w, &read(g), o, &format!("coeffs_of {v} in degree {n}"));
                    o.check(*g == h, "coeffs_of_deg", || format!("{v}^{n}: {g:?} and {h:?}"));
                }
                (g, h) => {
                    o.check(zero(&w), "coeffs_of", || format!("{v}^{n}: {g:?} and {h:?} instead of {w}"));
                }
            }
        }
        o.check(of.keys().all(|n| by.contains_key(&(*n as i128))), "coeffs_of", || format!("{v}: {of:?}"));
        let next = by.keys().max().map_or(0, |n| n + 1);
        let Some(none) = o.call("coeffs_of_deg", || view.coeffs_of_deg(b, &(next as _))) else { return };
        o.check(none.is_none(), "coeffs_of_deg", || format!("{v}^{next}: {none:?}"));
        if cancelled.is_empty() {
            let Some(d) = o.call("degree_of", || view.degree_of(b)) else { return };
            let w = by.keys().max().copied().unwrap_or(0);
            o.check(d.unwrap_or(0) as i128 == w, "degree_of", || format!("{v}: {d:?} instead of {w}"));
            let Some(l) = o.call("leading_coeff_of", || view.leading_coeff_of(b)) else { return };
            match (l, by.last_key_value()) {
                (Some(l), Some((_, w))) => {
                    same(&T::Sum(w.clone()), &read(&l), o, &format!("leading_coeff_of {v}"));
                }
                (l, w) => {
                    o.check(l.is_none() == w.is_none(), "leading_coeff_of", || format!("{v}: {l:?}"));
                }
            }
        }
    }
    let Some(col) = collected else { return };
    let col = read(&col);
    o.state(&col);
    same(t, &col, o, "collect_terms");
    if let T::Sum(a) = &col {
        if matches!(t, T::Sum(_)) && vars.iter().all(|v| matches!(v, T::Var(_) | T::Fn(..))) && !vars.contains(&col.unordered()) {
            let mut d: Vec<Deg> = vec![];
            for x in a {
                match mono(x, &vars) {
                    Some((_, k)) if k.is_empty() => (),
                    Some((_, k)) if d.contains(&k) => o.fail("uncollected", format!("{col} has {} twice", expr_of(&k))),
                    Some((_, k)) => d.push(k),
                    // an undefined coefficient
                    None if t.any(&|t| *t == T::Undef) => (),
                    None => o.fail("uncollected", format!("{x} in {col} is no monomial")),
                }
            }
            o.compared();
        }
    }
}

pub static POLY: Prop = Prop { id: "C14", cases, check, follow: no_follow, bounds: |_| "all trees of the spaces with every variable set of the pool; monomials and polynomials in 4 to 12 variables, degrees up to 2^20; all sequences of up to 4 (thorough: 5) additions to a polynomial and of up to 4 (5) powers put together".into(), assumptions: crate::eval::ASSUMPTIONS };
