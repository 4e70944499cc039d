//! reduce as a normal form.

use crate::engine::*;
use crate::gen::permutations;
use crate::space;
use crate::tree::*;
use calcu_rs::SymbolicExpr;

/// all argument orders of the top operator, and the fully reversed tree
fn reverse(t: &T) -> T {
    match t {
        T::Sum(a) => T::Sum(a.iter().rev().map(reverse).collect()),
        T::Prod(a) => T::Prod(a.iter().rev().map(reverse).collect()),
        T::Pow(b, e) => T::pow(reverse(b), reverse(e)),
        T::Fn(f, a) => T::f(*f, reverse(a)),
        t => t.clone(),
    }
}

fn cases(t: Tier, emit: Emit) {
    let mut v = space::general(true);
    v.extend(space::scale_family(true));
    v.extend(space::huge_family());
    let big = t == Tier::Thorough;
    v.extend(space::expansion_family(true));
    v.extend(space::fraction_family(true));
    v.extend(space::trig_family(true));
    v.extend(space::collection_family(true));
    v.extend(space::explog_family(true));
    v.extend(space::rational().three());
    if big {
        v.extend(space::algebraic().three());
        v.extend(space::trig().three());
        v.extend(space::numbers().three());
    }
    if big {
        space::deep(&[space::rational(), space::trig()], &mut |t| {
            emit(Case::new("idem", [t.clone()]));
            emit(Case::new("shape", [t]));
        });
    }
    for t in crate::gen::dedup(v) {
        emit(Case::new("idem", [t.clone()]));
        emit(Case::new("rev", [t.clone()]));
        emit(Case::new("shape", [t.clone()]));
        if let T::Sum(a) | T::Prod(a) = &t {
            if a.len() == 3 {
                emit(Case::new("assoc", [t.clone()]));
            }
            let key: Vec<String> = a.iter().map(T::to_string).collect();
            if (3..=4).contains(&a.len()) && key.windows(2).all(|w| w[0] <= w[1]) {
                emit(Case::new("perm", [t.clone()]));
            }
        }
    }
}

fn flat<'a>(a: &'a [T], v: &mut Vec<&'a T>, sum: bool) {
    for x in a {
        match x {
            T::Sum(b) if sum => flat(b, v, sum),
            T::Prod(b) if !sum => flat(b, v, sum),
            x => v.push(x),
        }
    }
}

/// A number times a sum is not distributed, but the sum itself is merged into the
/// sum around it.  So the result depends on the order when several multiples of
/// sums are added up and some of them happen to collect to the sum itself; the
/// property makes an exception for these.
pub fn multiples_of_sums(t: &T) -> bool {
    t.any(&|t| match t {
        T::Sum(a) => {
            let mut v = vec![];
            flat(a, &mut v, true);
            let multiple = |t: &&&T| match t {
                T::Prod(f) => {
                    let mut v = vec![];
                    flat(f, &mut v, false);
                    v.retain(|t| !matches!(t, T::Rat(..)));
                    v.len() == 1 && matches!(v[0], T::Sum(_))
                }
                _ => false,
            };
            v.len() > 2 && v.iter().filter(multiple).count() > 1
        }
        _ => false,
    })
}

fn shape(t: &T) -> Option<(&'static str, T)> {
    for s in t.subtrees() {
        let bad = match s {
            T::Undef if !matches!(t, T::Undef) => "undef inside",
            T::Sum(a) if a.len() < 2 => "short sum",
            T::Prod(a) if a.len() < 2 => "short product",
            T::Sum(a) if a.iter().any(|x| matches!(x, T::Sum(_))) => "nested sum",
            T::Prod(a) if a.iter().any(|x| matches!(x, T::Prod(_))) => "nested product",
            T::Sum(a) if a.iter().filter(|x| matches!(x, T::Rat(..))).count() > 1 => "two numbers in a sum",
            T::Prod(a) if a.iter().filter(|x| matches!(x, T::Rat(..))).count() > 1 => "two numbers in a product",
            T::Sum(a) if a.iter().any(|x| matches!(x, T::Rat(0, _))) => "zero term",
            T::Prod(a) if a.iter().any(|x| matches!(x, T::Rat(0, _) | T::Rat(1, 1))) => "trivial factor",
            T::Pow(_, e) if matches!(**e, T::Rat(0, _) | T::Rat(1, 1)) => "trivial exponent",
            T::Sum(a) if (0..a.len()).any(|i| (0..i).any(|j| a[i].unordered() == a[j].unordered())) => "equal terms",
            T::Prod(a) if (0..a.len()).any(|i| (0..i).any(|j| a[i].unordered() == a[j].unordered())) => "equal factors",
            T::Prod(a) if (0..a.len()).any(|i| (0..i).any(|j| base(&a[i]) == base(&a[j]))) => "equal bases",
            T::Sum(a) if (0..a.len()).any(|i| (0..i).any(|j| term(&a[i]) == term(&a[j]))) => "like terms",
            T::Pow(b, e) if matches!((&**b, &**e), (T::Rat(..), T::Rat(_, 1))) => "integer power of a number",
            T::Pow(b, _) if matches!(**b, T::Rat(1, 1)) => "power of one",
            T::Pow(b, _) if matches!(**b, T::Pow(..)) => "power of a power",
            T::Pow(b, e) if matches!((&**b, &**e), (T::Prod(_), T::Rat(_, 1))) => "integer power of a product",
            T::Fn(F::Sin | F::Cos, a) if matches!(&**a, T::Prod(v) if v.iter().any(|x| matches!(x, T::Rat(n, _) if *n < 0))) => "sine or cosine of a negative multiple",
            T::Fn(F::Sin | F::Cos, a) if matches!(**a, T::Rat(0, _)) => "sine or cosine of zero",
            T::Fn(F::Log(Base::E), a) if matches!(**a, T::E) => "logarithm of its base",
            T::Fn(F::Log(Base::Rat(n, d)), a) if **a == T::Rat(*n, *d) => "logarithm of its base",
            _ => continue,
        };
        return Some((bad, s.clone()));
    }
    None
}
fn base(t: &T) -> T {
    match t {
        T::Pow(b, _) => b.unordered(),
        t => t.unordered(),
    }
}
fn term(t: &T) -> T {
    match t {
        T::Prod(a) => {
            let v: Vec<T> = a.iter().filter(|x| !matches!(x, T::Rat(..))).map(|x| x.unordered()).collect();
            if v.len() == 1 {
                v[0].clone()
            } else {
                T::Prod(v).unordered()
            }
        }
        t => t.unordered(),
    }
}

fn check(c: &Case, o: &mut Out) {
    let t = &c.args[0];
    let Some(r) = o.call("reduce", || build(t).reduce()) else { return };
    let rt = read(&r);
    match c.op.as_str() {
        "idem" => {
            let Some(r2) = o.call("reduce", || build(&rt).reduce()) else { return };
            let r2 = read(&r2);
            o.check(r2.unordered() == rt.unordered(), "idempotent", || format!("{rt} reduces again to {r2}"));
        }
        "rev" => {
            let Some(r2) = o.call("reduce", || build(&reverse(t)).reduce()) else { return };
            let r2 = read(&r2);
            if multiples_of_sums(t) {
                o.vacuous();
                return;
            }
            if r2 != rt {
                o.note("results that differ in argument order only", 1);
            }
            o.check(r2.unordered() == rt.unordered(), "order", || format!("{rt} but in reverse order {r2}"));
        }
        "perm" => {
            if multiples_of_sums(t) {
                o.vacuous();
                return;
            }
            let (T::Sum(a) | T::Prod(a)) = t else { return };
            let u = rt.unordered();
            for q in permutations(a) {
                let q = if matches!(t, T::Sum(_)) { T::Sum(q) } else { T::Prod(q) };
                let Some(r2) = o.call("reduce", || build(&q).reduce()) else { return };
                let r2 = read(&r2);
                o.check(r2.unordered() == u, "order", || format!("{rt} but {q} reduces to {r2}"));
            }
        }
        "shape" => {
            o.compared();
            if let Some((k, s)) = shape(&rt) {
                o.fail(k, format!("{rt} contains {s}"));
            }
        }
        "assoc" => {
            if multiples_of_sums(t) {
                o.vacuous();
                return;
            }
            let mk = |v: Vec<T>| if matches!(t, T::Sum(_)) { T::Sum(v) } else { T::Prod(v) };
            let (T::Sum(a) | T::Prod(a)) = t else { return };
            for g in [
                mk(vec![mk(vec![a[0].clone(), a[1].clone()]), a[2].clone()]),
                mk(vec![a[0].clone(), mk(vec![a[1].clone(), a[2].clone()])]),
            ] {
                let Some(r2) = o.call("reduce", || build(&g).reduce()) else { return };
                let r2 = read(&r2);
                o.check(r2.unordered() == rt.unordered(), "assoc", || format!("{rt} but grouped {r2}"));
            }
        }
        _ => unreachable!(),
    }
}
pub static CANON: Prop = Prop { id: "C03", cases, check, follow: no_follow, bounds: |_| "the trees of C02, each reduced, reduced twice, reversed, inspected; all permutations of up to four operands, both groupings of three; thorough: also chains of four operators".into(), assumptions: &["the reference trees read back through atom() are the expressions"] };
