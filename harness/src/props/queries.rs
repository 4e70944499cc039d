//! Questions about an expression are answered truthfully, and the parts it is
//! taken apart into make up the expression again.

use super::display::canon;
use crate::engine::*;
use crate::gen::{dedup, prod, sum, tuples};
use crate::space;
use crate::tree::*;
use calcu_rs::algos::separate_sin_cos;
use calcu_rs::atom::Atom;
use calcu_rs::polynomial::VarSet;
use calcu_rs::{Expr, SymbolicExpr};
use std::collections::BTreeSet;
use std::ops::ControlFlow;

/// what may be looked for
const PATTERNS: [&str; 24] = [
    "x", "y", "z", "a", "2", "-1", "1/2", "0", "1", "#pi", "#e", "undef", "(+ x y)", "(+ y x)", "(* x y)", "(* 2 x)", "(^ x 2)", "(^ x -1)", "(^ x 1/2)", "(sin x)", "(cos x)", "(ln x)",
    "(log:10 x)", "(* -1 y)",
];

fn trees(big: bool) -> Vec<T> {
    let mut v = space::general(true);
    v.extend(space::scale_family(big));
    v.extend(space::huge_family());
    if big {
        v.extend(space::collection_family(true));
        v.extend(space::trig_family(true));
        v.extend(space::explog_family(true));
        v.extend(space::fraction_family(true));
    } else {
        v.extend(space::collection_family(false));
        v.extend(space::trig_family(false));
        v.extend(space::explog_family(false));
        v.extend(space::fraction_family(false));
    }
    // degenerate operators
    for x in ["x", "2", "0", "(* x y)", "(+ x 1)", "(^ x 2)", "undef"] {
        let x = parse(x);
        v.push(sum([x.clone()]));
        v.push(prod([x.clone()]));
        v.push(T::pow(x.clone(), T::int(1)));
        v.push(T::pow(prod([x.clone()]), T::int(1)));
    }
    v.push(sum([]));
    v.push(prod([]));
    // powers and the variables they stand for
    let b = ["x", "y", "(+ x 1)", "(* x y)", "2", "(sin x)", "#pi", "(^ x y)"];
    let e = ["0", "1", "2", "3", "-1", "-2", "1/2", "3/2", "5/2", "-3/2", "y", "#pi"];
    let p: Vec<T> = b.iter().flat_map(|b| e.iter().map(move |e| T::pow(parse(b), parse(e)))).collect();
    tuples(2, &p, &mut |t| {
        v.push(sum(t));
        v.push(prod(t));
        v.push(sum([prod(t), parse("x")]));
        v.push(prod([parse("3"), sum([t[0].clone(), parse("1")]), t[1].clone()]));
    });
    dedup(v)
}

fn cases(t: Tier, emit: Emit) {
    let pats: Vec<T> = PATTERNS.iter().map(|s| parse(s)).collect();
    emit(Case::new("constants", [parse("x")]));
    for t in trees(t == Tier::Thorough) {
        emit(Case::new("parts", [t.clone()]));
        emit(Case::new("visit", [t.clone()]));
        emit(Case::new("variables", [t.clone()]));
        let mut a = vec![t];
        a.extend(pats.iter().cloned());
        emit(Case::new("free_of", a));
    }
}

fn contains(t: &T, s: &T) -> bool {
    t.unordered() == *s || t.children().into_iter().any(|c| contains(c, s))
}

/// the generalized variables of an expression
fn variables(t: &T, out: &mut BTreeSet<T>) {
    match t {
        T::Undef | T::Rat(..) | T::E | T::Pi => (),
        T::Sum(a) => a.iter().for_each(|x| variables(x, out)),
        T::Prod(a) => a.iter().for_each(|x| match x {
            T::Sum(_) => {
                out.insert(x.unordered());
            }
            x => variables(x, out),
        }),
        T::Pow(b, e) if matches!(**e, T::Rat(n, 1) if n >= 1) => {
            out.insert(b.unordered());
        }
        t => {
            out.insert(t.unordered());
        }
    }
}

fn flat(t: &T) -> &T {
    match t {
        T::Sum(a) | T::Prod(a) if a.len() == 1 => &a[0],
        T::Pow(b, e) if **e == T::int(1) => b,
        t => t,
    }
}

fn parts(t: &T, e: &Expr, o: &mut Out) {
    let number = matches!(t, T::Rat(..) | T::E | T::Pi);
    let rat = |p: &dyn Fn(i128, i128) -> bool| matches!(t, T::Rat(n, d) if p(*n, *d));
    let Some(got) = o.call("a predicate", || {
        [
            e.is_zero(), e.is_one(), e.is_min_one(), e.is_pi(), e.is_e(), e.is_neg(), e.is_pos(), e.is_int(), e.is_even(), e.is_odd(), e.is_number(), e.is_real(), e.is_irreducible(), e.is_const(),
            e.is_sin(), e.is_cos(), e.is_atom(), e.is_trig(), e.is_exponential(), e.is_undef(), e.is_sum(), e.is_prod(), e.is_pow(), e.is_func(), e.is_var(), e.is_rational(), e.is_irrational(),
        ]
    }) else {
        return;
    };
    let want = [
        *t == T::int(0), *t == T::int(1), *t == T::int(-1), *t == T::Pi, *t == T::E, rat(&|n, _| n < 0), rat(&|n, _| n > 0), rat(&|_, d| d == 1), rat(&|n, d| d == 1 && n % 2 == 0),
        rat(&|n, d| d == 1 && n % 2 != 0), number, number, number || matches!(t, T::Undef | T::Var(_)), number, matches!(t, T::Fn(F::Sin, _)), matches!(t, T::Fn(F::Cos, _)), t.children().is_empty(),
        matches!(t, T::Fn(f, _) if !matches!(f, F::Log(_))), matches!(flat(t), T::Pow(b, _) if **b == T::E) && matches!(t, T::Pow(..)), *t == T::Undef, matches!(t, T::Sum(_)), matches!(t, T::Prod(_)),
        matches!(t, T::Pow(..)), matches!(t, T::Fn(..)), matches!(t, T::Var(_)), matches!(t, T::Rat(..)), matches!(t, T::E | T::Pi),
    ];
    const NAMES: [&str; 27] = [
        "is_zero", "is_one", "is_min_one", "is_pi", "is_e", "is_neg", "is_pos", "is_int", "is_even", "is_odd", "is_number", "is_real", "is_irreducible", "is_const", "is_sin", "is_cos", "is_atom", "is_trig",
        "is_exponential", "is_undef", "is_sum", "is_prod", "is_pow", "is_func", "is_var", "is_rational", "is_irrational",
    ];
    for i in 0..NAMES.len() {
        o.check(got[i] == want[i], NAMES[i], || format!("{} is {}", NAMES[i], got[i]));
    }
    // the operands, in order
    if let Some((n, args)) = o.call("args", || (e.n_args(), e.iter_args().map(read).collect::<Vec<T>>())) {
        let want: Vec<T> = t.children().into_iter().cloned().collect();
        o.check(n == want.len() && args == want, "args", || format!("{n}: {args:?}"));
    }
    // numbers
    if let Some((i, r)) = o.call("try_unwrap_int", || (e.try_unwrap_int(), e.try_as_real())) {
        let want = match t {
            T::Rat(n, 1) => Some(*n),
            _ => None,
        };
        o.check(i == want, "try_unwrap_int", || format!("{i:?}"));
        o.check(r.is_some() == number, "try_as_real", || format!("{r:?}"));
        if let Some(r) = r {
            let want = match t {
                T::Rat(n, d) => *n as f64 / *d as f64,
                T::E => std::f64::consts::E,
                _ => std::f64::consts::PI,
            };
            let Some((f, back)) = o.call("real", || (r.f64_approx(), Atom::from(r.clone()))) else { return };
            o.check((f - want).abs() <= 1e-15 * want.abs(), "f64_approx", || format!("{f} for {t}"));
            o.check(read(&Expr::from(back.clone())) == *t && r == back && back == r, "real", || format!("{r:?} back to {back:?}"));
        }
    }
    // the same through the kinds of expressions themselves
    let kids: Vec<T> = t.children().into_iter().cloned().collect();
    if let Some((each, a, k, r)) = o.call("for_each_arg", || {
        let mut each = vec![];
        e.for_each_arg(|x| each.push(read(x)));
        fn args(s: &impl SymbolicExpr) -> (usize, bool, Vec<T>, Vec<T>) {
            (s.n_args(), s.is_atom(), s.args().iter().map(read).collect(), s.iter_args().map(read).collect())
        }
        let k = match e.atom() {
            Atom::Sum(s) => args(s),
            Atom::Prod(s) => args(s),
            Atom::Pow(s) => args(s),
            Atom::Func(s) => args(s),
            Atom::Var(s) => args(s),
            Atom::Rational(s) => args(s),
            Atom::Irrational(s) => args(s),
            Atom::Undef => (0, true, vec![], vec![]),
        };
        (each, args(e.atom()), k, [e.is_rational_and(|_| true), e.is_rational_and(|r| r.is_neg()), e.is_rational_and(|_| false)])
    }) {
        let want = (kids.len(), kids.is_empty(), kids.clone(), kids.clone());
        o.check(each == kids, "for_each_arg", || format!("{each:?}"));
        o.check(a == want && k == want, "args", || format!("{a:?} and {k:?}"));
        let israt = matches!(t, T::Rat(..));
        o.check(r == [israt, rat(&|n, _| n < 0), false], "is_rational_and", || format!("{r:?}"));
    }
    if let T::Rat(n, 1) = t {
        let Some(i) = o.call("unwrap_int", || e.unwrap_int()) else { return };
        o.check(i == *n, "unwrap_int", || format!("{i}"));
    }
    match e.atom() {
        Atom::Sum(s) => {
            let Some((z, u, f)) = o.call("Sum", || (s.is_zero(), s.is_undef(), s.first().map(|a| read(&Expr::from(a.clone()))))) else { return };
            o.check(z == (kids.is_empty() || kids == [T::int(0)]), "is_zero", || format!("{z}"));
            o.check(!u || kids.contains(&T::Undef), "is_undef", || format!("{u}"));
            o.check(u || kids != [T::Undef], "is_undef", || format!("{u}"));
            o.check(f.as_ref() == kids.first(), "first", || format!("{f:?}"));
        }
        Atom::Prod(s) => {
            let Some((z, i, u, f)) = o.call("Prod", || (s.is_zero(), s.is_one(), s.is_undef(), s.first().map(|a| read(&Expr::from(a.clone()))))) else { return };
            o.check(!z || kids.contains(&T::int(0)), "is_zero", || format!("{z}"));
            o.check(z || kids != [T::int(0)], "is_zero", || format!("{z}"));
            o.check(i == (kids.is_empty() || kids == [T::int(1)]), "is_one", || format!("{i}"));
            o.check(!u || kids.contains(&T::Undef), "is_undef", || format!("{u}"));
            o.check(u || kids != [T::Undef], "is_undef", || format!("{u}"));
            o.check(f.as_ref() == kids.first(), "first", || format!("{f:?}"));
        }
        Atom::Pow(p) => {
            let Some((b, x)) = o.call("Pow", || (read(p.base()), read(p.exponent()))) else { return };
            o.check(kids == [b.clone(), x.clone()], "base", || format!("{b} ^ {x}"));
        }
        Atom::Func(f) => {
            let Some(l) = o.call("try_unwrap_nat_log_ref", || f.try_unwrap_nat_log_ref().map(read)) else { return };
            o.check(l == matches!(t, T::Fn(F::Log(Base::E), _)).then(|| kids[0].clone()), "try_unwrap_nat_log_ref", || format!("{l:?}"));
        }
        _ => (),
    }
    // base and exponent
    if let Some((b, x, f)) = o.call("base", || (read(&e.base()), read(&e.exponent()), read(e.flatten()))) {
        let (wb, wx) = match flat(t) {
            T::Pow(b, x) => ((**b).clone(), (**x).clone()),
            _ => (t.clone(), T::int(1)),
        };
        o.check(b == wb && x == wx, "base", || format!("{b} ^ {x}"));
        o.check(f == *flat(t), "flatten", || format!("{f}"));
    }
    // rational coefficient and the rest
    if let Some((c, r)) = o.call("rational_coeff", || (e.rational_coeff(), e.non_rational_term())) {
        let c = c.map(|c| T::Rat(c.numer(), c.denom()));
        let r = r.as_ref().map(read);
        let none = matches!(t, T::Undef | T::Rat(..));
        o.check(c.is_none() == none, "rational_coeff", || format!("{c:?}"));
        if let Some(c) = &c {
            let whole = T::Prod(std::iter::once(c.clone()).chain(r.clone()).collect());
            o.check(canon(&whole) == canon(t), "coefficient", || format!("{c} times {r:?}"));
            let want = match t {
                T::Prod(a) => {
                    let mut v: Vec<T> = a.iter().filter(|x| !matches!(x, T::Rat(..))).cloned().collect();
                    match v.len() {
                        0 => None,
                        1 => v.pop(),
                        _ => Some(T::Prod(v)),
                    }
                }
                t => Some(t.clone()),
            };
            o.check(r == want, "non_rational_term", || format!("{r:?}"));
        } else {
            o.check(r.is_none(), "non_rational_term", || format!("{r:?}"));
        }
    }
    // the first operand and the rest
    match e.atom() {
        Atom::Sum(s) => {
            if let Some((a, b)) = o.call("as_binary_sum", || s.as_binary_sum()) {
                let (a, b) = (read(&a), read(&b));
                let T::Sum(v) = t else { unreachable!() };
                o.check(canon(&sum([a.clone(), b.clone()])) == canon(t) && v.first().is_none_or(|x| *x == a), "as_binary_sum", || format!("{a} and {b}"));
            }
        }
        Atom::Prod(p) => {
            if let Some((a, b)) = o.call("as_binary_mul", || p.as_binary_mul()) {
                let (a, b) = (read(&a), read(&b));
                let T::Prod(v) = t else { unreachable!() };
                o.check(canon(&prod([a.clone(), b.clone()])) == canon(t) && v.first().is_none_or(|x| *x == a), "as_binary_mul", || format!("{a} and {b}"));
            }
            if let Some(r) = o.call("term", || p.term()) {
                let r = r.as_ref().map(read);
                let T::Prod(v) = t else { unreachable!() };
                let w: Vec<T> = v.iter().filter(|x| !matches!(x, T::Rat(..) | T::E | T::Pi)).cloned().collect();
                let ok = match &r {
                    None => w.is_empty(),
                    Some(r) => !w.is_empty() && canon(r) == canon(&T::Prod(w)),
                };
                o.check(ok, "term", || format!("{r:?}"));
            }
        }
        Atom::Func(f) => {
            let T::Fn(k, a) = t else { unreachable!() };
            for b in [Base::E, Base::Pi, Base::Rat(10, 1), Base::Rat(2, 1), Base::Rat(1, 2), Base::Rat(10, 3)] {
                let Some(r) = o.call("try_unwrap_log_base", || f.try_unwrap_log_base(&real(&b)).map(read)) else { return };
                let want = (*k == F::Log(b)).then(|| (**a).clone());
                o.check(r == want, "try_unwrap_log_base", || format!("base {b:?}: {r:?}"));
            }
            let Some((l, tr)) = o.call("is_nat_log", || (f.is_nat_log(), f.is_trig())) else { return };
            o.check(l == (*k == F::Log(Base::E)) && tr != matches!(k, F::Log(_)), "is_nat_log", || format!("{l} {tr}"));
        }
        _ => (),
    }
    // sines and cosines of a product
    if let Some((r, s)) = o.call("separate_sin_cos", || separate_sin_cos(e)) {
        let (r, s) = (read(&r), read(&s));
        let power = |t: &T| match t {
            T::Fn(F::Sin | F::Cos, _) => true,
            T::Pow(b, x) => matches!(**b, T::Fn(F::Sin | F::Cos, _)) && matches!(**x, T::Rat(n, 1) if n > 0),
            _ => false,
        };
        let fs = |t: &T| match t {
            T::Prod(a) => a.clone(),
            T::Rat(1, 1) => vec![],
            t => vec![t.clone()],
        };
        super::value::value(t, &prod([r.clone(), s.clone()]), o);
        o.check(fs(&s).iter().all(power), "separate_sin_cos", || format!("{s} has something else"));
        if fs(t).iter().any(power) {
            let nested = fs(t).iter().any(|x| matches!(x, T::Prod(_) | T::Sum(_)));
            o.check(nested || !fs(&r).iter().any(power), "separate_sin_cos", || format!("{r} still has some"));
        }
    }
}

fn check(c: &Case, o: &mut Out) {
    let t = &c.args[0];
    let e = build(t);
    match c.op.as_str() {
        "constants" => {
            let Some(l) = o.call("constants", || [Expr::undef(), Expr::min_two(), Expr::min_one(), Expr::zero(), Expr::one(), Expr::two(), Expr::pi(), Expr::e(), Expr::var("x"), Expr::rational(7)].map(|e| read(&e))) else { return };
            let want = ["undef", "-2", "-1", "0", "1", "2", "#pi", "#e", "x", "7"].map(parse);
            for (l, w) in l.iter().zip(&want) {
                o.check(l == w, "constants", || format!("{l} instead of {w}"));
            }
        }
        "parts" => parts(t, &e, o),
        "visit" => {
            // every occurrence of every subexpression, once
            let Some(mut got) = o.call("iter_compl_sub_exprs", || e.iter_compl_sub_exprs().map(read).collect::<Vec<T>>()) else { return };
            let mut want: Vec<T> = t.subtrees().into_iter().cloned().collect();
            o.check(got.first() == Some(t), "root", || format!("{:?}", got.first()));
            got.sort();
            want.sort();
            o.check(got == want, "visit", || format!("visited {got:?}"));
            // visiting to change: x becomes z everywhere and nothing else changes
            let mut m = e.clone();
            let (x, z) = (Expr::var("x"), Expr::var("w"));
            let Some(()) = o.call("for_each_compl_sub_expr", || {
                m.for_each_compl_sub_expr(|s| {
                    if *s == x {
                        *s = z.clone();
                    }
                })
            }) else {
                return;
            };
            let (got, want) = (read(&m), rename(t));
            o.check(got == want, "rename", || format!("{got}"));
            o.check(read(&e) == *t, "original", || format!("the original became {}", read(&e)));
            // a visit that is told to stop does not look below
            let mut m = e.clone();
            let Some(()) = o.call("try_for_each_compl_sub_expr", || {
                m.try_for_each_compl_sub_expr(|s| {
                    if s.is_sum() || s.is_func() {
                        return ControlFlow::Break(());
                    }
                    if *s == x {
                        *s = z.clone();
                    }
                    ControlFlow::Continue(())
                })
            }) else {
                return;
            };
            let (got, want) = (read(&m), rename_until(t));
            o.check(got == want, "stop", || format!("{got}"));
            // mapping the operands changes each of them
            let Some(m) = o.call("map_args", || e.clone().map_args(|a| *a = Expr::pow_raw(&*a, Expr::var("w")))) else { return };
            let got: Vec<T> = read(&m).children().into_iter().cloned().collect();
            let want: Vec<T> = t.children().into_iter().map(|c| T::pow(c.clone(), T::var("w"))).collect();
            o.check(got == want, "map_args", || format!("{got:?}"));
            o.check(read(&e) == *t, "original", || format!("the original became {}", read(&e)));
        }
        "free_of" => {
            let pats: Vec<Expr> = c.args[1..].iter().map(build).collect();
            let mut any: Vec<Expr> = vec![];
            for (p, pt) in pats.iter().zip(&c.args[1..]) {
                let want = !contains(t, &pt.unordered());
                let Some(got) = o.call("free_of", || e.free_of(p)) else { return };
                o.check(got == want, "free_of", || format!("free of {pt}: {got}"));
                // the sets: everything it is free of, with and without p
                let Some(all) = o.call("free_of_set", || e.free_of_set(any.iter().chain([p]))) else { return };
                o.check(all == want, "free_of_set", || format!("free of {pt} and others it is free of: {all}"));
                if want {
                    any.push(p.clone());
                }
            }
        }
        "variables" => {
            // of the reduced form: an unreduced one may hide what it is
            let Some(r) = o.call("reduce", || e.reduce()) else { return };
            let rt = read(&r);
            let Some(vs) = o.call("variables", || r.variables()) else { return };
            let got: BTreeSet<T> = vs.iter().map(|v| read(v).unordered()).collect();
            let mut want = BTreeSet::new();
            variables(&rt, &mut want);
            o.check(got == want, "variables", || format!("{got:?} of {rt}, expected {want:?}"));
            if rt.has_undef() {
                return;
            }
            // an expression is a polynomial in its variables
            let set = VarSet::new(vs.iter());
            let Some(ok) = o.call("check", || r.as_polynomial_view(&set).check()) else { return };
            o.check(ok, "polynomial", || format!("{rt} is no polynomial in its variables {got:?}"));
            let Some(v) = o.call("variables", || build(t).variables()) else { return };
            o.check(v.iter().all(|v| contains(t, &read(v).unordered())), "foreign", || format!("{v:?}"));
        }
        _ => unreachable!(),
    }
}

fn rename(t: &T) -> T {
    match t {
        T::Var(v) if v == "x" => T::var("w"),
        T::Sum(a) => T::Sum(a.iter().map(rename).collect()),
        T::Prod(a) => T::Prod(a.iter().map(rename).collect()),
        T::Pow(b, e) => T::pow(rename(b), rename(e)),
        T::Fn(f, a) => T::f(*f, rename(a)),
        t => t.clone(),
    }
}
fn rename_until(t: &T) -> T {
    match t {
        T::Var(v) if v == "x" => T::var("w"),
        T::Prod(a) => T::Prod(a.iter().map(rename_until).collect()),
        T::Pow(b, e) => T::pow(rename_until(b), rename_until(e)),
        t => t.clone(),
    }
}


pub static QUERIES: Prop = Prop { id: "C12", cases, check, follow: no_follow, bounds: |_| "all trees of the general space and the collection, trigonometric, exponential and fraction families, every pair of 96 powers in sums and products, and degenerate sums and products; each with 27 predicates, all decompositions, the visitors, and 24 expressions that may occur in it".into(), assumptions: &["the reference trees read back through atom() are the expressions"] };
