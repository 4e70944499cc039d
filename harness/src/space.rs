//! The spaces of trees the explorer walks.

use crate::gen::*;
use crate::tree::*;

pub struct Alpha {
    pub leaves: Vec<T>,
    pub exps: Vec<T>,
    pub funcs: Vec<F>,
}

impl Alpha {
    pub fn new(leaves: &[&str], exps: &[&str], funcs: &[F]) -> Alpha {
        Alpha {
            leaves: ts(leaves),
            exps: ts(exps),
            funcs: funcs.to_vec(),
        }
    }
    fn shape(&self) -> Shape<'_> {
        Shape {
            exps: &self.exps,
            funcs: &self.funcs,
        }
    }
    /// one operator over leaves
    pub fn l1(&self) -> Vec<T> {
        over(&self.leaves, &self.leaves, &self.shape())
    }
    /// every tree with at most two nested operators (binary sums and products in
    /// both orders, powers with the exponents given, the functions given), and
    /// every ternary sum and product of leaves
    pub fn two(&self) -> Vec<T> {
        let none = Shape {
            exps: &[],
            funcs: &[],
        };
        let l1 = self.l1();
        let mut v = self.leaves.clone();
        v.extend(l1.clone());
        v.extend(over(&l1, &self.leaves, &self.shape()));
        v.extend(over(&self.leaves, &l1, &none));
        tuples(3, &self.leaves, &mut |t| {
            v.push(sum(t));
            v.push(prod(t));
        });
        dedup(v)
    }
    /// as `two`, plus every binary sum and product of two one-operator trees
    pub fn two_full(&self) -> Vec<T> {
        let none = Shape {
            exps: &[],
            funcs: &[],
        };
        let l1 = self.l1();
        let mut v = self.two();
        v.extend(over(&l1, &l1, &none));
        dedup(v)
    }
    /// as `two_full`, plus every three-operator chain: an operator with one child
    /// from `two` and one leaf
    pub fn three(&self) -> Vec<T> {
        let none = Shape {
            exps: &[],
            funcs: &[],
        };
        let two = self.two();
        let mut v = self.two_full();
        v.extend(over(&two, &self.leaves, &self.shape()));
        v.extend(over(&self.leaves, &two, &none));
        dedup(v)
    }
}

/// Every tree with four operators in a chain (an operator with one child from
/// `three` and one leaf), and every binary sum and product of a tree from `two`
/// and one with a single operator.  Not stored, there are millions.
pub fn deep(alphas: &[Alpha], f: &mut dyn FnMut(T)) {
    for a in alphas {
        let mut both = |x: &T, y: &T| {
            for (x, y) in [(x, y), (y, x)] {
                f(sum([x.clone(), y.clone()]));
                f(prod([x.clone(), y.clone()]));
            }
        };
        let l1 = a.l1();
        for x in a.two() {
            for y in &l1 {
                both(&x, y);
            }
        }
        let three = a.three();
        for x in &three {
            for y in &a.leaves {
                both(x, y);
            }
        }
        for x in three {
            unary(&[x], &a.shape()).into_iter().for_each(&mut *f);
        }
    }
}

pub fn rational() -> Alpha {
    Alpha::new(
        &["x", "y", "2", "-1", "0", "1", "1/2"],
        &["2", "-1", "3", "-2", "0", "1"],
        &[],
    )
}
pub fn algebraic() -> Alpha {
    Alpha::new(
        &["x", "y", "2", "-1", "0", "1", "1/2", "#pi"],
        &["2", "-1", "1/2", "3/2", "x", "-1/2"],
        &[],
    )
}
pub fn trig() -> Alpha {
    Alpha::new(
        &["x", "y", "2", "-1", "1"],
        &["2", "-1", "3"],
        &[F::Sin, F::Cos, F::Tan, F::Log(Base::E)],
    )
}
pub fn explog() -> Alpha {
    Alpha::new(
        &["x", "y", "2", "-1", "#e"],
        &["2", "-1", "1/2", "x"],
        &[F::Log(Base::E), F::Sin],
    )
}
pub fn undef() -> Alpha {
    Alpha::new(
        &["x", "2", "0", "undef", "#pi"],
        &["2", "-1", "0", "undef"],
        &[F::Log(Base::E), F::Sin],
    )
}
pub const LOGS: [Base; 5] = [
    Base::E,
    Base::Rat(2, 1),
    Base::Rat(10, 1),
    Base::Rat(1, 2),
    Base::Pi,
];
pub fn all_funcs() -> Vec<F> {
    let mut v = ALL_F.to_vec();
    v.extend(LOGS.map(F::Log));
    v
}
pub fn functions() -> Alpha {
    Alpha::new(&["x", "1/2", "-1"], &["2", "-1", "1/2"], &all_funcs())
}
/// numbers of every kind next to one variable
pub fn numbers() -> Alpha {
    Alpha::new(
        &["x", "-1/2", "2/3", "3", "4", "-8", "9/4", "0", "1"],
        &["2", "3", "-1", "-3", "1/2", "1/3", "-1/2", "2/3", "3/2", "-5/3", "0"],
        &[],
    )
}

/// everything: the alphabets above, with the trees the tier asks for
pub fn general(big: bool) -> Vec<T> {
    let mut v = vec![];
    for a in [rational(), algebraic(), trig(), explog(), undef(), functions(), numbers()] {
        v.extend(if big { a.two_full() } else { a.two() });
    }
    v.extend(power_family());
    dedup(v)
}

/// powers of powers and products of powers, with exponents that cancel
pub fn power_family() -> Vec<T> {
    let mut v = vec![];
    let exps = ts(&["2", "-1", "1/2", "y", "(* 2 y)", "(^ y -1)", "(+ y 1)", "(* -1 y)", "(^ y 2)", "(* 1/2 y)", "(+ y (* -1 z))", "(* z (^ y -1))", "(sin y)", "(ln y)"]);
    for b in ts(&["x", "2", "-1", "#e", "#pi", "(* x y)", "(+ x 1)", "(sin x)", "(* 2 x)", "(* -1 x)"]) {
        tuples(2, &exps, &mut |e| {
            v.push(T::pow(T::pow(b.clone(), e[0].clone()), e[1].clone()));
            v.push(prod([T::pow(b.clone(), e[0].clone()), T::pow(b.clone(), e[1].clone())]));
            v.push(T::pow(b.clone(), sum(e)));
            v.push(T::pow(b.clone(), prod(e)));
        });
    }
    v
}

fn p(s: String) -> T {
    parse(&s)
}

/// parametric families that reach deep into the expansion code
pub fn expansion_family(big: bool) -> Vec<T> {
    let mut v = vec![];
    let n = if big { 14 } else { 9 };
    for k in 2..=n {
        for s in ["(+ x y)", "(+ x 1)", "(+ (* 2 x) (* 3 y))", "(+ x -1/2)", "(+ x (* -1 y))", "(+ (^ x 2) x)", "(+ (^ x -1) x)", "(+ (sin x) #pi)"] {
            v.push(p(format!("(^ {s} {k})")));
            v.push(p(format!("(^ {s} -{k})")));
            for d in [2, 3] {
                if k % d != 0 && k <= 7 {
                    v.push(p(format!("(^ {s} {k}/{d})")));
                    v.push(p(format!("(^ {s} -{k}/{d})")));
                }
            }
        }
    }
    for k in 2..=(if big { 8 } else { 5 }) {
        for s in ["(+ x y z)", "(+ x y 1)", "(+ (* 2 x) y -1)", "(+ x (^ x 2) (^ x 3))", "(+ x y z 1)", "(+ (+ x y) z)"] {
            v.push(p(format!("(^ {s} {k})")));
        }
    }
    // products of sums
    let lin = ["(+ x 1)", "(+ x -1)", "(+ x y)", "(+ x (* -1 y))", "(+ (* 2 x) 3)", "x", "2", "(^ (+ x 1) 2)"];
    let lin: Vec<T> = lin.iter().map(|s| parse(s)).collect();
    for k in 2..=(if big { 5 } else { 4 }) {
        multisets(k, &lin, &mut |m| {
            v.push(prod(m));
            let mut r = m.to_vec();
            r.reverse();
            v.push(prod(r));
        });
    }
    for i in 0..=4 {
        for j in 0..=4 {
            v.push(p(format!("(* (^ (+ x 1) {i}) (^ (+ x -1) {j}))")));
            v.push(p(format!("(* (^ (+ x y) {i}) (^ (+ x y) 1/2) (^ x -{j}))")));
            v.push(p(format!("(^ (* (+ x 1) y) {i})")));
            v.push(p(format!("(^ (* (+ x {j}) y) {i}/2)")));
            v.push(p(format!("(sin (^ (+ x {j}) {i}))")));
            v.push(p(format!("(^ (^ (+ x {j}) {i}) 2)")));
            v.push(p(format!("(^ (+ x (^ (+ y {j}) {i})) 2)")));
        }
    }
    dedup(v)
}

pub fn fraction_family(big: bool) -> Vec<T> {
    let mut v = vec![];
    // sums of fractions
    let num = ["1", "x", "y", "(+ x 1)", "2"];
    let den = ["x", "y", "(* x y)", "(+ x 1)", "(^ x 2)", "2", "(* 2 x)"];
    let mut fr = vec![];
    for n in num {
        for d in den {
            fr.push(p(format!("(* {n} (^ {d} -1))")));
        }
    }
    for a in &fr {
        for b in &fr {
            v.push(sum([a.clone(), b.clone()]));
            v.push(prod([a.clone(), b.clone()]));
            v.push(prod([a.clone(), T::pow(b.clone(), T::int(-1))]));
        }
    }
    if big {
        tuples(3, &fr, &mut |t| v.push(sum(t)));
    } else {
        multisets(3, &fr, &mut |t| v.push(sum(t)));
    }
    // nested fractions
    for leaf in ["x", "y", "2", "(+ x y)", "(^ x 1/2)"] {
        let mut t = parse(leaf);
        // the integers in nested fractions of numbers outgrow 128 bits
        for k in 0..(if big && leaf != "2" { 9 } else { 6 }) {
            t = sum([T::int(1 + k % 2), T::pow(t, T::int(-1))]);
            v.push(t.clone());
            v.push(prod([parse("y"), t.clone()]));
        }
        let mut t = parse(leaf);
        for k in 0..(if big { 7 } else { 5 }) {
            t = prod([
                sum([t.clone(), parse("x")]),
                T::pow(sum([parse("y"), T::int(k)]), T::int(-1)),
            ]);
            v.push(t.clone());
        }
    }
    // things with factors to cancel
    let fac = ["x", "(+ x 1)", "(+ x y)", "(^ x 2)", "(^ (+ x 1) 2)", "2", "y"];
    let fac: Vec<T> = fac.iter().map(|s| parse(s)).collect();
    for k in 1..=2 {
        multisets(k, &fac, &mut |a| {
            for l in 1..=2 {
                multisets(l, &fac, &mut |b| {
                    let mut m = a.to_vec();
                    m.extend(b.iter().map(|b| T::pow(b.clone(), T::int(-1))));
                    v.push(prod(m));
                    v.push(prod([prod(a), T::pow(prod(b), T::int(-1))]));
                    v.push(sum([prod(a), prod(b)]));
                    v.push(sum([prod(b), prod(a), parse("z")]));
                });
            }
        });
    }
    dedup(v)
}

pub fn trig_family(big: bool) -> Vec<T> {
    let mut v = vec![];
    let n = if big { 10 } else { 7 };
    let fs = ["sin", "cos", "tan", "cot", "sec", "csc"];
    for f in fs {
        for k in 0..=n {
            for a in ["x", "(+ x y)", "(* x y)", "(^ x 2)"] {
                v.push(p(format!("({f} (* {k} {a}))")));
                v.push(p(format!("({f} (* -{k} {a}))")));
                v.push(p(format!("(^ ({f} {a}) {k})")));
                v.push(p(format!("(^ ({f} {a}) -{k})")));
                v.push(p(format!("({f} (* {k}/2 {a}))")));
            }
            for j in 0..=3 {
                v.push(p(format!("({f} (+ (* {k} x) (* {j} y)))")));
                v.push(p(format!("({f} (+ (* {j} y) (* -{k} x)))")));
                v.push(p(format!("({f} (+ (* {k} x) {j}))")));
                v.push(p(format!("({f} (+ (* {k} x) y (* {j} z)))")));
            }
        }
    }
    for i in -2..=n {
        for j in -2..=n.min(6) {
            v.push(p(format!("(* (^ (sin x) {i}) (^ (cos x) {j}))")));
            v.push(p(format!("(* (^ (cos x) {i}) (^ (sin y) {j}))")));
            v.push(p(format!("(* 2 (^ (cos y) {i}) (^ (sin x) {j}) z)")));
            v.push(p(format!("(+ (^ (sin x) {i}) (^ (cos x) {j}))")));
        }
    }
    let sc = ["(sin x)", "(cos x)", "(sin y)", "(cos y)", "(sin (* 2 x))", "(cos (+ x y))", "x", "2"];
    let sc: Vec<T> = sc.iter().map(|s| parse(s)).collect();
    for k in 2..=(if big { 5 } else { 4 }) {
        multisets(k, &sc, &mut |m| {
            v.push(prod(m));
            let mut r = m.to_vec();
            r.reverse();
            v.push(prod(r));
            if k <= 3 {
                v.push(T::pow(sum(m), T::int(2)));
                v.push(sum([prod(m), parse("(^ (sin x) 2)")]));
            }
        });
    }
    dedup(v)
}

pub fn explog_family(big: bool) -> Vec<T> {
    let mut v = vec![];
    let terms = ["x", "y", "2", "(* 2 x)", "(* x y)", "(* -1 y)", "(ln x)", "(* 2 (ln y))", "(^ x 2)", "1/2", "(+ x y)"];
    let terms: Vec<T> = terms.iter().map(|s| parse(s)).collect();
    for k in 1..=(if big { 4 } else { 3 }) {
        tuples(k, &terms, &mut |t| {
            v.push(T::pow(T::E, sum(t)));
            v.push(T::pow(T::E, prod(t)));
        });
    }
    let fac = ["x", "y", "2", "(^ x 2)", "(^ x y)", "(^ y -1)", "(+ x y)", "#e", "(^ #e x)", "(^ x 1/2)", "#pi"];
    let fac: Vec<T> = fac.iter().map(|s| parse(s)).collect();
    for k in 1..=(if big { 4 } else { 3 }) {
        tuples(k, &fac, &mut |t| {
            v.push(T::f(F::Log(Base::E), prod(t)));
            if k < 3 {
                v.push(T::f(F::Log(Base::E), sum(t)));
                for b in LOGS {
                    v.push(T::f(F::Log(b), prod(t)));
                    v.push(T::f(F::Log(b), T::pow(prod(t), parse("3"))));
                    v.push(T::f(F::Log(b), T::pow(prod(t), parse("z"))));
                }
                v.push(T::pow(T::E, T::f(F::Log(Base::E), prod(t))));
                v.push(prod([parse("x"), T::f(F::Log(Base::E), prod(t))]));
            }
        });
    }
    // exponents that have to be multiplied out
    let out = ts(&["2", "-1", "x", "y", "(^ x 2)", "(^ y -1)", "(+ x 1)", "(+ x (* -1 y))", "(+ (* 3 x) (* -2 y))", "(+ x y z)", "(+ (* 1/2 x) -1)", "(+ (ln x) (* -1 y))"]);
    for k in 2..=3 {
        tuples(k, &out, &mut |t| {
            v.push(T::pow(T::E, prod(t)));
            if k == 2 {
                v.push(T::pow(T::pow(T::E, t[0].clone()), t[1].clone()));
                v.push(T::pow(T::E, T::pow(t[0].clone(), t[1].clone())));
                v.push(T::pow(T::E, sum([T::var("w"), prod(t)])));
            }
        });
    }
    for n in -4..=4 {
        for b in ["(ln x)", "(log:2 x)", "x", "(+ x y)", "(* x y)"] {
            v.push(p(format!("(^ #e (* {n} {b}))")));
            v.push(p(format!("(^ (^ #e {b}) {n})")));
            v.push(p(format!("(^ 2 (* {n} {b}))")));
            v.push(p(format!("(ln (^ {b} {n}))")));
            v.push(p(format!("(log:2 (^ 2 (* {n} {b})))")));
            v.push(p(format!("(log:10 (^ 10 {n}))")));
        }
    }
    dedup(v)
}

/// sums and products of three and four operands that interact
pub fn collection_family(big: bool) -> Vec<T> {
    let mut v = vec![];
    let fac = ts(&[
        "2", "1/2", "#pi", "x", "y", "(* x y)", "(^ (* x y) 1/2)", "(+ x 1)", "(* 1/2 (+ x 1))", "(^ x -1)", "(^ (+ x 1) -1)",
        "(sin x)", "(^ x y)", "(* x (^ y -1))", "(^ #e x)", "(^ #pi 1/2)", "(^ (sin x) 2)", "(^ (* 2 x) 1/2)", "(+ x y)", "#e", "(^ (* x (+ x 1)) 1/2)",
    ]);
    let ter = ts(&[
        "2", "-1/2", "#pi", "x", "(* -1 x)", "(* 2 x)", "y", "(* x y)", "(* y x 3)", "(* 1/2 (+ x 1))", "(* 1/2 (+ x y))", "(* -1 (+ x 1))",
        "(sin x)", "(* 2 (sin x))", "(^ x -1)", "(^ x 2)", "(* #pi x)", "(* 2 #pi)", "(+ x y)", "(* (+ x y) x)", "#e",
    ]);
    tuples(2, &fac, &mut |t| v.push(prod(t)));
    tuples(2, &ter, &mut |t| v.push(sum(t)));
    tuples(3, &fac, &mut |t| v.push(prod(t)));
    tuples(3, &ter, &mut |t| v.push(sum(t)));
    let k = if big { 5 } else { 4 };
    for k in 4..=k {
        multisets(k, &fac, &mut |t| v.push(prod(t)));
        multisets(k, &ter, &mut |t| v.push(sum(t)));
    }
    dedup(v)
}

/// Numbers of many values in every place a number can have.
pub fn number_family(big: bool) -> Vec<T> {
    let mut ns = vec![];
    for d in 1..=6 {
        for n in 1..=12 {
            ns.push(T::Rat(n, d));
        }
    }
    for (n, d) in [(16, 1), (25, 1), (27, 1), (32, 1), (36, 1), (49, 1), (64, 1), (100, 1), (121, 1), (125, 1), (144, 1), (1, 8), (1, 9), (1, 16), (27, 8), (8, 27), (4, 9), (9, 25), (25, 36), (1, 10), (3, 10), (7, 10), (1, 100), (99, 100), (22, 7), (17, 13), (1, 7), (13, 7)] {
        ns.push(T::Rat(n, d));
    }
    // in lowest terms, of both signs
    let ns: Vec<T> = ns.into_iter().flat_map(|t| [p(t.to_string()), p(format!("-{t}"))]).collect();
    let ns = dedup(ns);
    let mut v = vec![];
    for n in &ns {
        for s in [
            "{n}", "(^ x {n})", "(* {n} x)", "(* x {n})", "(+ x {n})", "(+ {n} x)", "(^ {n} x)", "(^ {n} 1/2)", "(^ {n} -1/3)", "(^ {n} 2)", "(^ {n} 3)", "(^ {n} -1)", "(^ {n} -2)", "(* {n} (+ x y))", "(* {n} x y)",
            "(^ x (* {n} y))", "(^ #e (* {n} x))", "(^ #e {n})", "(^ #pi {n})", "(ln (^ x {n}))", "(ln {n})", "(ln (* {n} x))", "(sin {n})", "(sin (* {n} x))", "(cos (* {n} x))", "(sin (* {n} #pi))", "(cos (* {n} #pi))", "(tan (* {n} x))", "(sin (+ x {n}))", "(cos (+ (* {n} x) y))",
            "(* {n} #pi)", "(+ #e {n})", "(log:{n} x)", "(log:2 {n})", "(log:{n} {n})", "(* {n} (sin x))", "(* {n} (^ x 2))", "(+ (* {n} x) (* x y))", "(* (^ x {n}) y)", "(^ (* x y) {n})", "(^ (^ x 2) {n})", "(^ (^ x {n}) 2)", "(^ (^ x {n}) 1/2)", "(* {n} (^ x -1))", "(* {n} (^ (+ x 1) -1))",
            "(* x (^ {n} -1))", "(* x (^ (* {n} y) -1))", "(^ (+ x {n}) 2)", "(^ (+ x {n}) -1)", "(^ (* {n} x) 2)", "(^ (* {n} x) 1/2)", "(+ (* {n} x) (* {n} y))", "(+ (* {n} x) {n})", "(* (sin x) (^ (cos x) {n}))", "(^ (sin x) {n})", "(^ (cos x) {n})", "(* (^ 2 1/2) {n})", "(+ (^ x {n}) 1)", "(+ (^ x {n}) (^ x 2))", "(* (^ x {n}) (^ x -1))", "(* (^ x {n}) (+ x 1))",
        ] {
            // a base below zero or one is no base of a logarithm
            if s.starts_with("(log:{n}") && !matches!(n, T::Rat(a, b) if *a > 0 && a != b) {
                continue;
            }
            v.push(p(s.replace("{n}", &n.to_string())));
        }
        // high powers of sums are in the expansion family
        if matches!(n, T::Rat(a, _) if a.abs() <= 12) {
            for s in ["(^ (+ x y) {n})", "(^ (+ x 1) {n})", "(* x (^ (+ x y) {n}))"] {
                v.push(p(s.replace("{n}", &n.to_string())));
            }
        }
    }
    let small: Vec<T> = ns.iter().filter(|t| matches!(t, T::Rat(n, d) if n.abs() <= if big { 9 } else { 6 } && *d <= if big { 4 } else { 3 })).cloned().collect();
    tuples(2, &small, &mut |t| {
        for s in ["(+ {n} {m})", "(* {n} {m})", "(^ {n} {m})", "(+ (* {n} x) (* {m} x))", "(* (^ x {n}) (^ x {m}))", "(^ (^ x {n}) {m})", "(* (^ 2 {n}) (^ 2 {m}))", "(* (^ x {n}) (^ y {m}))", "(^ (* {n} x) {m})", "(+ (* {n} x) {m})", "(+ (^ x {n}) (* {m} x))", "(* {n} (^ x {m}))", "(sin (+ (* {n} x) (* {m} y)))"] {
            v.push(p(s.replace("{n}", &t[0].to_string()).replace("{m}", &t[1].to_string())));
        }
    });
    dedup(v)
}

/// Long, deep and large, and numbers of many values.
pub fn scale_family(big: bool) -> Vec<T> {
    let mut v = size_family(big);
    v.extend(number_family(big));
    dedup(v)
}

/// Sums, products and towers of many more parts than anybody writes, for operations whose
/// cost does not explode with the number of parts.
pub fn huge_family() -> Vec<T> {
    let mut v = vec![];
    for len in [40usize, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300] {
        let name = |k: usize| T::Var(format!("x{k}"));
        let all: Vec<T> = (0..len).map(name).collect();
        let rev: Vec<T> = all.iter().rev().cloned().collect();
        let same = vec![T::var("x"); len];
        let mult: Vec<T> = (0..len).map(|k| prod([T::int(k as i128 + 2), name(k)])).collect();
        let like: Vec<T> = (0..len).map(|k| prod([T::int(k as i128 - 20), T::var(["x", "y"][k % 2])])).collect();
        let powers: Vec<T> = (0..len).map(|k| T::pow(T::var("x"), T::int(k as i128 - 30))).collect();
        let nums: Vec<T> = (0..len).map(|k| T::int(k as i128)).collect();
        let pairs: Vec<T> = (0..len).map(|k| prod([name(k), name((k + 1) % len)])).collect();
        let back: Vec<T> = (0..len).map(|k| if k % 2 == 0 { name(k / 2) } else { prod([T::int(-1), name(k / 2)]) }).collect();
        let inv: Vec<T> = (0..len).map(|k| if k % 2 == 0 { name(k / 2) } else { T::pow(name(k / 2), T::int(-1)) }).collect();
        for t in [&all, &rev, &same, &mult, &like, &powers, &nums, &pairs, &back] {
            v.push(sum(&t[..]));
        }
        for t in [&all, &rev, &same, &powers, &pairs, &inv] {
            v.push(prod(&t[..]));
        }
        // the last part is different
        for last in ["y", "0", "2", "undef", "(sin x)", "(^ x0 2)"] {
            let mut t = all.clone();
            t.push(parse(last));
            v.push(sum(&t[..]));
            v.push(prod(&t[..]));
        }
        if len <= 130 {
            let tower = |f: &dyn Fn(T, usize) -> T| (0..len).fold(T::var("x"), |t, k| f(t, k));
            v.push(tower(&|t, k| sum([t, name(k)])));
            v.push(tower(&|t, k| sum([name(k), t])));
            v.push(tower(&|t, k| prod([t, name(k)])));
            v.push(tower(&|t, k| prod([name(k), t])));
            v.push(tower(&|t, k| if k % 2 == 0 { sum([t, name(k)]) } else { prod([t, name(k)]) }));
            v.push(tower(&|t, k| if k % 2 == 0 { T::f(F::Sin, t) } else { sum([t, name(k)]) }));
            v.push(tower(&|t, _| T::f(F::ATan, t)));
            v.push(tower(&|t, k| T::pow(name(k), t)));
        }
    }
    dedup(v)
}

/// One tree for every size along each dimension in which an expression can grow.
pub fn size_family(big: bool) -> Vec<T> {
    let mut v = vec![];
    let n = if big { 16 } else { 12 };
    let names = ["x", "y", "z", "u", "v", "w", "a", "b", "c", "xx", "x1", "x_1", "alpha", "α", "sin", "e", "pi", "i", "X", "Y"];
    // long sums and products, in both directions
    let at = |s: &str, k: usize| p(s.replace("{k}", &k.to_string()).replace("{v}", names[(k - 1) % names.len()]).replace("{p}", ["x", "y", "z"][k % 3]).replace("{s}", if k % 2 == 0 { "-" } else { "" }));
    let terms = [
        "{v}", "x", "{p}", "(* {k} x)", "(* {k} {p})", "(^ x {k})", "(^ {p} {k})", "(* {k} (^ x {k}))", "(^ x -{k})", "{k}", "1/{k}", "(sin {v})", "(sin (* {k} x))", "(^ x 1/{k})", "(^ 2 1/{k})",
        "(* {v} x)", "(* {s}1 x)", "(* {s}{k} {p})", "(ln {v})", "(^ {v} {p})", "(* x {p} {v})", "(^ (sin x) {k})", "(^ #e {v})", "(+ x {k})", "(+ {v} 1)", "(* 1/{k} x)",
    ];
    for s in terms {
        let sums = s.contains("(+");
        // long products of sines are contracted to as many terms as there are subsets
        let long: &[usize] = if s.contains("sin") || sums { &[] } else { &[17, 20, 33] };
        for len in (4..=n).chain(long.iter().copied()) {
            let mut t: Vec<T> = (1..=len).map(|k| at(s, k)).collect();
            v.push(sum(&t[..]));
            // a product of sums is as large as 2 to the number of its factors, one of
            // numbers as their factorial
            if if sums { len <= 7 } else { len <= 20 || !s.contains("{k}") } {
                v.push(prod(&t[..]));
            }
            t.reverse();
            v.push(sum(&t[..]));
            if if sums { len <= 7 } else { len <= 20 || !s.contains("{k}") } {
                v.push(prod(&t[..]));
            }
        }
    }
    // many different operands and some of them again
    for s in ["{v}", "(sin {v})", "(^ {v} 2)", "(* 2 {v})", "(* {v} x)"] {
        for len in if big { vec![5, 6, 7, 8, 9, 10, 12, 14, 16] } else { vec![5, 7, 9, 10, 12] } {
            let t: Vec<T> = (1..=len).map(|k| at(s, k)).collect();
            let (l, r) = t.split_at(len / 2);
            for j in [0, len / 2, len - 1] {
                let again = [t[j].clone()];
                v.extend([sum([&again[..], &t[..]].concat()), sum([&t[..], &again[..]].concat())]);
                v.extend([prod([&again[..], &t[..]].concat()), prod([&t[..], &again[..]].concat())]);
                v.push(sum([&t[..], &[prod([T::int(-1), t[j].clone()])]].concat()));
                v.push(prod([&t[..], &[T::pow(t[j].clone(), T::int(-1))]].concat()));
            }
            let rev: Vec<T> = t.iter().rev().cloned().collect();
            v.extend([sum([&t[..], &rev[..]].concat()), prod([&t[..], &rev[..]].concat())]);
            v.extend([sum([sum(l), sum(r)]), sum([sum(r), sum(l)]), prod([prod(l), prod(r)]), prod([prod(r), prod(l)])]);
            v.extend([sum([sum(l), sum(&t[..])]), prod([prod(l), prod(&t[..])]), sum([sum(&rev[..]), sum(r)]), prod([prod(&rev[..]), prod(r)])]);
        }
    }
    // deep towers
    type Step = fn(T, i128) -> T;
    let steps: [Step; 9] = [
        |t, k| sum([t, p(format!("{}", ["x", "y", "1"][k as usize % 3]))]),
        |t, k| sum([p(format!("{}", ["x", "y", "1"][k as usize % 3])), t]),
        |t, k| prod([t, p(format!("{}", ["x", "y", "2"][k as usize % 3]))]),
        |t, k| prod([p(format!("{}", ["x", "y", "2"][k as usize % 3])), t]),
        |t, k| T::pow(t, T::int([2, -1, 1][k as usize % 3])),
        |t, k| if k % 2 == 0 { sum([t, p("y".into())]) } else { prod([t, p("x".into())]) },
        |t, k| T::f([F::Sin, F::ATan][k as usize % 2], t),
        |t, k| if k % 2 == 0 { T::f(F::Sin, t) } else { sum([t, p("1".into())]) },
        |t, _| T::pow(p("x".into()), t),
    ];
    for (i, s) in steps.iter().enumerate() {
        for leaf in ["x", "2"] {
            let mut t = parse(leaf);
            let depth = match i {
                4 => n - 6,
                6 | 7 | 8 => n - 4,
                _ => 20,
            };
            for k in 0..depth as i128 {
                t = s(t, k);
                if leaf == "2" && (i == 6 || i == 4) {
                    continue;
                }
                v.push(t.clone());
            }
        }
    }
    // large exponents, multiples and numbers
    for k in [9, 10, 11, 12, 13, 15, 16, 17, 20, 25, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 255, 256, 1000] {
        for s in ["(^ x {k})", "(^ x -{k})", "(^ x {k}/7)", "(* {k} x)", "(* -{k} x y)", "(^ (* x y) {k})", "(^ #e (* {k} x))", "(ln (^ x {k}))", "(* (^ x {k}) (^ x -1))", "(+ (^ x {k}) (* -1 (^ x {k})))", "(^ (^ x {k}) 1/{k})", "(^ (^ x 2) {k})", "(* x (^ y {k}) (^ x {k}))", "(+ x {k})", "(* {k} (+ x y))", "(* 1/{k} x)"] {
            v.push(p(s.replace("{k}", &k.to_string())));
        }
        if k <= if big { 33 } else { 20 } {
            for s in ["(sin (* {k} x))", "(cos (* {k} x))", "(cos (* -{k} x y))", "(^ (sin x) {k})", "(^ (cos x) {k})", "(* (^ (sin x) {k}) (cos x))", "(^ (tan x) {k})", "(^ (+ x 1) {k})", "(^ (+ x y) {k})"] {
                if k <= 17 || !s.starts_with("(*") {
                    v.push(p(s.replace("{k}", &k.to_string())));
                }
            }
        }
    }
    for k in ["127", "128", "255", "256", "32767", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616", "36893488147419103233"] {
        for s in ["{k}", "-{k}", "(+ x {k})", "(* {k} x)", "(* -{k} x)", "(+ (* {k} x) x)", "(+ (* {k} x) (* -{k} x))", "(* x (^ {k} -1))", "(* 1/{k} x)", "(+ {k} 1)", "(+ {k} -1)", "(^ {k} -1)", "(* {k} {k})", "(+ (* {k} x) (* {k} y))", "(+ (* 1/{k} x) (* 1/{k} y))", "(* {k} (+ x y))", "(^ (* {k} x) 2)", "(* 1/{k} 2)", "(* 2/{k} x 3)", "(sin (+ x {k}))"] {
            // numbers of more than 127 bits are out of range
            if k.len() < 19 || !matches!(s, "(* {k} {k})" | "(^ (* {k} x) 2)" | "(+ (* 1/{k} x) (* 1/{k} y))") {
                v.push(p(s.replace("{k}", k)));
            }
        }
    }
    // names
    for a in names {
        for s in ["(+ {a} x)", "(* {a} x)", "(* 2 {a})", "(^ {a} 2)", "(^ {a} -1)", "(^ 2 {a})", "(sin {a})", "(* {a} (+ x {a}))", "(^ (+ {a} x) 2)", "(* {a} (sin x))", "(* {a} (^ x 2))", "(+ (* 2 {a}) {a})"] {
            v.push(p(s.replace("{a}", a)));
        }
    }
    dedup(v)
}
