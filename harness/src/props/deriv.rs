//! Differentiation against an independent rule set.

use crate::engine::*;
use crate::eval::{const_rat, same_value, Verdict};
use crate::gen::*;
use crate::space;
use crate::tree::*;
use calcu_rs::Expr;

fn neg(t: T) -> T {
    prod([T::int(-1), t])
}
fn inv(t: T) -> T {
    T::pow(t, T::int(-1))
}
fn sq(t: T) -> T {
    T::pow(t, T::int(2))
}
fn one_minus_sq(t: T) -> T {
    sum([T::int(1), neg(sq(t))])
}

/// derivative by the textbook rules, not simplified
pub fn reference(t: &T, x: &str) -> T {
    match t {
        T::Undef => T::Undef,
        T::Rat(..) | T::E | T::Pi => T::int(0),
        T::Var(v) => T::int((v == x) as i128),
        T::Sum(a) => T::Sum(a.iter().map(|a| reference(a, x)).collect()),
        T::Prod(a) => T::Sum(
            (0..a.len())
                .map(|i| {
                    T::Prod(
                        a.iter()
                            .enumerate()
                            .map(|(j, f)| if i == j { reference(f, x) } else { f.clone() })
                            .collect(),
                    )
                })
                .collect(),
        ),
        T::Pow(f, g) => {
            let (df, dg) = (reference(f, x), reference(g, x));
            let has = |t: &T| t.vars().iter().any(|v| v == x);
            if !has(f) && !has(g) {
                return T::int(0);
            }
            if !has(g) {
                // g f^(g-1) f'
                if let Some((n, d)) = const_rat(g) {
                    return prod([T::Rat(n, d), T::pow((**f).clone(), T::Rat(n - d, d)), df]);
                }
                return prod([(**g).clone(), T::pow((**f).clone(), sum([(**g).clone(), T::int(-1)])), df]);
            }
            let ln = T::f(F::Log(Base::E), (**f).clone());
            let mut terms = vec![prod([dg, ln])];
            if has(f) {
                terms.push(prod([(**g).clone(), df, inv((**f).clone())]));
            }
            prod([t.clone(), T::Sum(terms)])
        }
        T::Fn(k, a) => {
            let d = reference(a, x);
            let f = |k: F| T::f(k, (**a).clone());
            let a = (**a).clone();
            let outer = match k {
                F::Sin => f(F::Cos),
                F::Cos => neg(f(F::Sin)),
                F::Tan => inv(sq(f(F::Cos))),
                F::Cot => neg(inv(sq(f(F::Sin)))),
                F::Sec => prod([f(F::Sin), inv(sq(f(F::Cos)))]),
                F::Csc => neg(prod([f(F::Cos), inv(sq(f(F::Sin)))])),
                F::ASin => T::pow(one_minus_sq(a), T::Rat(-1, 2)),
                F::ACos => neg(T::pow(one_minus_sq(a), T::Rat(-1, 2))),
                F::ATan => inv(sum([T::int(1), sq(a)])),
                F::ACot => neg(inv(sum([T::int(1), sq(a)]))),
                // 1 / (a^2 sqrt(1 - a^-2))
                F::ASec => prod([T::pow(a.clone(), T::int(-2)), T::pow(one_minus_sq(inv(a)), T::Rat(-1, 2))]),
                F::ACsc => neg(prod([T::pow(a.clone(), T::int(-2)), T::pow(one_minus_sq(inv(a)), T::Rat(-1, 2))])),
                F::Log(Base::E) => inv(a),
                F::Log(b) => {
                    let b = match b {
                        Base::Rat(n, d) => T::Rat(*n, *d),
                        Base::Pi => T::Pi,
                        Base::E => T::E,
                    };
                    inv(prod([a, T::f(F::Log(Base::E), b)]))
                }
            };
            prod([outer, d])
        }
    }
}

fn trees(big: bool) -> Vec<T> {
    let mut v = space::general(true);
    v.extend(space::scale_family(true));
    v.extend(space::huge_family().into_iter().filter(|t| t.size() < 150));
    v.extend(space::expansion_family(true));
    v.extend(space::fraction_family(true));
    v.extend(space::trig_family(true));
    v.extend(space::explog_family(true));
    let mut nested = vec![];
    for f in space::all_funcs() {
        for g in space::all_funcs() {
            nested.push(T::f(f, T::f(g, parse("x"))));
            nested.push(T::f(f, prod([parse("1/2"), T::f(g, parse("x"))])));
            nested.push(prod([T::f(f, parse("x")), T::f(g, parse("y")), parse("x")]));
            nested.push(T::pow(T::f(f, parse("x")), T::f(g, parse("x"))));
            nested.push(T::pow(parse("x"), prod([T::f(f, parse("x")), parse("y")])));
        }
        for a in ["(^ x 2)", "(* 2 x)", "(+ x y)", "(* x y)", "(* 1/3 x y)", "(^ x y)", "(^ y x)", "(^ 2 x)", "(^ #e x)", "(^ #pi x)", "(^ x -1)", "(+ x 2)", "(+ (^ x 2) 1)"] {
            nested.push(T::f(f, parse(a)));
            nested.push(prod([parse("x"), T::f(f, parse(a))]));
            nested.push(T::pow(T::f(f, parse(a)), T::int(2)));
            nested.push(T::pow(T::f(f, parse(a)), parse("1/2")));
        }
    }
    v.extend(nested);
    v.extend(space::trig().three());
    if big {
        v.extend(space::algebraic().three());
        v.extend(space::explog().three());
    }
    dedup(v)
}

fn cases(t: Tier, emit: Emit) {
    for t in trees(t == Tier::Thorough) {
        for x in ["x", "y", "w"] {
            emit(Case::new("derivative", [t.clone(), T::var(x)]));
        }
    }
    if t == Tier::Thorough {
        space::deep(&[space::trig(), space::explog()], &mut |t| emit(Case::new("derivative", [t, T::var("x")])));
    }
}

fn follow(t: &T, depth: usize, tier: Tier) -> Vec<Case> {
    if depth > tier.pick(1, 2) || t.size() > 40 {
        return vec![];
    }
    vec![Case::new("derivative", [t.clone(), T::var("x")])]
}

fn check(c: &Case, o: &mut Out) {
    let t = &c.args[0];
    let T::Var(x) = &c.args[1] else { unreachable!() };
    let e = build(t);
    let Some(r) = o.call("derivative", || e.derivative(Expr::var(x))) else { return };
    let r = read(&r);
    // where the expression itself is undefined its derivative is not judged
    let d = T::Sum(vec![reference(t, x), T::Prod(vec![T::int(0), t.clone()])]);
    match same_value(&d, &r) {
        Verdict::Same(_) => o.compared(),
        Verdict::Vacuous => o.vacuous(),
        Verdict::Differs(m) => {
            o.compared();
            o.fail("value", format!("{r}: {m}"));
        }
    }
    if o.depth() < 2 {
        o.succ(r);
    }
}

pub static DERIV: Prop = Prop { id: "C09", cases, check, follow, bounds: |_| "all trees of the spaces by each variable, continued to second (thorough: third) and mixed derivatives; thorough: also chains of four operators".into(), assumptions: crate::eval::ASSUMPTIONS };
