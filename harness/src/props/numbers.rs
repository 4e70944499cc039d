//! The numbers: rationals, and the constants pi and e next to them.

use crate::engine::*;
use crate::gen::dedup;
use crate::poly::rat;
use crate::tree::*;
use calcu_rs::atom::{Irrational, Real};
use calcu_rs::rational::{binomial_coeff, Rational};
use calcu_rs::{Expr, SymbolicExpr};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Pow, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

fn grid(n: i128, d: i128) -> Vec<T> {
    let mut v = vec![];
    for d in 1..=d {
        for n in -n..=n {
            let (n, d) = crate::eval::norm(n, d).unwrap();
            v.push(T::Rat(n, d));
        }
    }
    dedup(v)
}

fn large() -> Vec<T> {
    let mut v = vec![];
    let big = [1i128 << 31, (1 << 62) - 1, 1 << 63, 1_000_000_007, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i128::MAX, i128::MIN + 1, 1 << 100, 6_700_417 * 641];
    for n in big {
        for (n, d) in [(n, 1), (n, 3), (n, 1 << 20), (1, n), (-7, n), (n - 1, n), (n, n.checked_sub(2).unwrap_or(1)), (n, 1_000_003)] {
            if let Some((n, d)) = crate::eval::norm(n, d) {
                v.push(T::Rat(n, d));
            }
        }
    }
    v.extend(grid(3, 2));
    dedup(v)
}

/// numbers of every size: around the powers of two, over denominators of every size, and close to an integer
fn wide() -> Vec<T> {
    let mut v = vec![];
    for k in 1..127 {
        for e in [-1i128, 0, 1] {
            let n = if k == 126 { (1i128 << k) - 2 + e } else { (1i128 << k) + e };
            for d in [1i128, 2, 3, 5, 7, 10, 16, 100, 641, 1009, 4096, 65_537, 1_000_003, (1 << 31) - 1, 1 << 32, (1 << 53) + 1, (1 << 61) - 1, 1_000_000_000_000_000_009, (1 << 89) - 1] {
                for s in [1, -1] {
                    let near = n.checked_mul(d);
                    for (n, d) in [(Some(n), d), (near.and_then(|n| n.checked_add(1)), d), (near.and_then(|n| n.checked_sub(1)), d)] {
                        if let Some((n, d)) = n.and_then(|n| crate::eval::norm(s * n, d)) {
                            v.push(T::Rat(n, d));
                        }
                    }
                }
            }
        }
    }
    dedup(v)
}

fn cases(tier: Tier, emit: Emit) {
    let w = wide();
    let partners: Vec<T> = grid(4, 3).into_iter().chain(large().into_iter().step_by(3)).collect();
    for a in &w {
        emit(Case::new("one", [a.clone()]));
        for i in ["#e", "#pi"] {
            emit(Case::new("real", [a.clone(), parse(i)]));
        }
        for b in &partners {
            emit(Case::new("bin", [a.clone(), b.clone()]));
            emit(Case::new("bin", [b.clone(), a.clone()]));
            emit(Case::new("expr", [a.clone(), b.clone()]));
        }
        for b in grid(3, 3) {
            emit(Case::new("pow", [a.clone(), b]));
        }
    }
    let (n, d) = tier.pick((24, 12), (50, 24));
    let g = grid(n, d);
    let l = large();
    for a in g.iter().chain(&l) {
        emit(Case::new("one", [a.clone()]));
        for i in ["#e", "#pi"] {
            emit(Case::new("real", [a.clone(), parse(i)]));
        }
    }
    for set in [&g, &l] {
        for a in set.iter() {
            for b in set.iter() {
                emit(Case::new("bin", [a.clone(), b.clone()]));
                emit(Case::new("expr", [a.clone(), b.clone()]));
            }
        }
    }
    let (n, d) = tier.pick((16, 9), (24, 12));
    for a in grid(n, d).into_iter().chain(l) {
        for b in grid(tier.pick(13, 24), tier.pick(4, 7)) {
            emit(Case::new("pow", [a.clone(), b]));
        }
    }
    // every constructor from a pair of machine integers
    for a in [-12i128, -6, -4, -1, 0, 1, 2, 3, 4, 6, 8, 12, i32::MAX as i128, i32::MIN as i128] {
        for b in [-12i128, -6, -4, -1, 1, 2, 3, 4, 6, 8, 12, i32::MAX as i128] {
            emit(Case::new("new", [T::int(a), T::int(b)]));
        }
    }
    for n in 0..tier.pick(80, 110) {
        for k in 0..=n + 2 {
            emit(Case::new("binomial", [T::int(n), T::int(k)]));
        }
    }
}

fn pair(t: &T) -> (i128, i128) {
    match t {
        T::Rat(n, d) => (*n, *d),
        _ => panic!("{t}"),
    }
}
fn big(t: &T) -> BigRational {
    let (n, d) = pair(t);
    rat(n, d)
}
fn fits(r: &BigRational) -> bool {
    r.numer().to_i128().is_some() && r.denom().to_i128().is_some()
}
fn of(r: &Rational) -> BigRational {
    BigRational::new_raw(BigInt::from(r.numer()), BigInt::from(r.denom()))
}
fn hash(r: &Rational) -> u64 {
    let mut h = Fnv::new();
    r.hash(&mut FnvHasher(&mut h));
    h.finish()
}
struct FnvHasher<'a>(&'a mut Fnv);
impl Hasher for FnvHasher<'_> {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.bytes(b)
    }
}
/// in lowest terms with a positive denominator, and this value
fn is(got: &Rational, want: &BigRational) -> bool {
    of(got).numer() == want.numer() && of(got).denom() == want.denom()
}

/// Some intermediate result may not fit into 128 bits; num_rational computes
/// with the product of the denominators at most.
fn safe(v: &[&BigRational]) -> bool {
    let bits: u64 = v.iter().map(|r| r.numer().bits().max(r.denom().bits()) + 1).sum();
    bits < 126
}

fn check(c: &Case, o: &mut Out) {
    let q = |i: usize| {
        let (n, d) = pair(&c.args[i]);
        Rational::new(n, d)
    };
    match c.op.as_str() {
        "one" => one(&c.args[0], o),
        "new" => {
            let (a, b) = (pair(&c.args[0]).0, pair(&c.args[1]).0);
            let want = rat(a, b);
            let mut all = vec![Rational::new(a, b), Rational::from((a, b))];
            if let (Ok(a), Ok(b)) = (i32::try_from(a), i32::try_from(b)) {
                all.push(Rational::from((a, b)));
                all.push(Rational::from(a) / Rational::from(b));
                all.push(Rational::new(a, b));
            }
            for (i, r) in all.iter().enumerate() {
                o.check(is(r, &want), "new", || format!("constructor {i} gives {r:?}"));
            }
            let mut all = vec![Rational::from(a), Rational::new_int(a)];
            if let Ok(a) = i64::try_from(a) {
                all.push(a.into());
            }
            if let Ok(a) = u64::try_from(a) {
                all.push(a.into());
            }
            if let Ok(a) = i32::try_from(a) {
                all.push(a.into());
            }
            if let Ok(a) = u32::try_from(a) {
                all.push(a.into());
            }
            for (i, r) in all.iter().enumerate() {
                o.check(is(r, &rat(a, 1)), "from", || format!("conversion {i} of {a} gives {r:?}"));
            }
        }
        "bin" => bin(q(0), q(1), &big(&c.args[0]), &big(&c.args[1]), o),
        "expr" => expr(&c.args[0], &c.args[1], o),
        "pow" => pow(q(0), q(1), &big(&c.args[0]), &big(&c.args[1]), o),
        "real" => {
            let i = match c.args[1] {
                T::E => Irrational::E,
                _ => Irrational::PI,
            };
            let (a, b) = (Real::Rational(q(0)), Real::Irrational(i));
            // 50 digits
            let digits = match c.args[1] {
                T::E => "271828182845904523536028747135266249775724709369995",
                _ => "314159265358979323846264338327950288419716939937510",
            };
            let lower = BigRational::new(digits.parse().unwrap(), BigInt::from(10).pow(50u32));
            let want = big(&c.args[0]).cmp(&lower).then(Ordering::Less);
            o.check(a.cmp(&b) == want && b.cmp(&a) == want.reverse(), "order", || format!("{:?}, {:?}", a.cmp(&b), b.cmp(&a)));
            o.check(a != b, "equal", || "equal".into());
            let f = b.f64_approx();
            o.check((f - lower.to_f64().unwrap()).abs() < 1e-14, "approximation", || format!("{f}"));
        }
        "binomial" => {
            let (n, k) = (pair(&c.args[0]).0, pair(&c.args[1]).0);
            let Some(r) = o.call("binomial_coeff", || binomial_coeff(n, k)) else { return };
            let mut want = BigInt::one();
            if k > n {
                want = BigInt::zero();
            } else {
                for i in 0..k {
                    want = want * (n - i) / (i + 1);
                }
            }
            o.check(BigInt::from(r) == want, "binomial", || format!("{r} instead of {want}"));
        }
        _ => unreachable!(),
    }
}

fn one(t: &T, o: &mut Out) {
    let (n, d) = pair(t);
    let r = Rational::new(n, d);
    let w = rat(n, d);
    o.check(is(&r, &w), "lowest terms", || format!("{r:?}"));
    let int = d == 1;
    let flags = [
        ("is_zero", r.is_zero(), n == 0),
        ("is_one", r.is_one(), (n, d) == (1, 1)),
        ("is_two", r.is_two(), (n, d) == (2, 1)),
        ("is_min_one", r.is_min_one(), (n, d) == (-1, 1)),
        ("is_min_two", r.is_min_two(), (n, d) == (-2, 1)),
        ("is_pos", r.is_pos(), n > 0),
        ("is_neg", r.is_neg(), n < 0),
        ("is_int", r.is_int(), int),
        ("is_fraction", r.is_fraction(), !int),
        ("is_even", r.is_even(), int && n % 2 == 0),
        ("is_odd", r.is_odd(), int && n % 2 != 0),
    ];
    for (name, got, want) in flags {
        o.check(got == want, name, || format!("{got}"));
    }
    o.check(r.to_int() == if int { Some(n) } else { None }, "to_int", || format!("{:?}", r.to_int()));
    let Some(i) = o.call("inverse", || r.inverse()) else { return };
    match i {
        Some(i) => o.check(n != 0 && is(&i, &w.recip()), "inverse", || format!("{i:?}")),
        None => o.check(n == 0, "inverse", || "none".into()),
    };
    let Some(a) = o.call("abs", || r.abs()) else { return };
    o.check(is(&a, &w.abs()), "abs", || format!("{a:?}"));
    if safe(&[&w]) {
        let Some(f) = o.call("floor", || r.floor()) else { return };
        o.check(BigInt::from(f) == w.floor().to_integer(), "floor", || format!("{f}"));
    }
    let Some((q, m)) = o.call("div_rem", || r.div_rem()) else { return };
    let (qb, mb) = (of(&q), of(&m));
    o.check(q.is_int() && &qb + &mb == w && mb.abs() < BigRational::one() && (mb.is_zero() || mb.is_negative() == w.is_negative()), "div_rem", || {
        format!("{q:?} and {m:?}")
    });
    let f = r.f64_approx();
    let e = n as f64 / d as f64;
    o.check((f - e).abs() <= 1e-12 * e.abs(), "approximation", || format!("{f}"));
    let text = format!("{r:?}");
    let want = if int { format!("{n}") } else { format!("{n}/{d}") };
    o.check(text == want && format!("{r}") == want, "text", || text);
}

fn bin(a: Rational, b: Rational, x: &BigRational, y: &BigRational, o: &mut Out) {
    let ord = x.cmp(y);
    o.check(a.cmp(&b) == ord && a.partial_cmp(&b) == Some(ord), "order", || format!("{:?}", a.cmp(&b)));
    o.check((a == b) == ord.is_eq() && (!ord.is_eq() || hash(&a) == hash(&b)), "equal", || format!("{}", a == b));
    if x.denom() == y.denom() {
        let g = num_integer::gcd(x.numer().clone(), y.numer().clone());
        let w = BigRational::new(g, x.denom().clone());
        if fits(&w) && safe(&[&w]) {
            let Some(r) = o.call("int_gcd", || a.int_gcd(&b)) else { return };
            o.check(r.is_some_and(|r| is(&r, &w)), "int_gcd", || format!("{r:?}"));
        }
    } else {
        let Some(r) = o.call("int_gcd", || a.int_gcd(&b)) else { return };
        o.check(r.is_none(), "int_gcd", || format!("{r:?}"));
    }
    if !safe(&[x, y]) {
        o.vacuous();
        return;
    }
    let div = if y.is_zero() { None } else { Some(x / y) };
    for (op, want) in [('+', Some(x + y)), ('-', Some(x - y)), ('*', Some(x * y)), ('/', div)] {
        let Some(want) = want else { continue };
        let Some(all) = o.call("arithmetic", || {
            let (mut p, mut q) = (a, a);
            match op {
                '+' => {
                    p += b;
                    q += &b;
                    [a + b, a + &b, p, q]
                }
                '-' => {
                    p -= b;
                    q -= &b;
                    [a - b, a - &b, p, q]
                }
                '*' => {
                    p *= b;
                    q *= &b;
                    [a * b, a * &b, p, q]
                }
                _ => {
                    p /= b;
                    q /= &b;
                    [a / b, a / &b, p, q]
                }
            }
        }) else {
            continue;
        };
        for (i, r) in all.iter().enumerate() {
            o.check(is(r, &want), "arithmetic", || format!("{op} (variant {i}) gives {r:?} instead of {want}"));
        }
    }
}

fn power(x: &BigRational, n: &BigInt) -> Option<BigRational> {
    let n = n.to_i64()?;
    if x.is_zero() && n <= 0 {
        return None;
    }
    if n.unsigned_abs() > 300 {
        return None;
    }
    Some(Pow::pow(x, n as i32))
}

fn pow(a: Rational, b: Rational, x: &BigRational, y: &BigRational, o: &mut Out) {
    if x.is_zero() && !y.is_positive() {
        o.vacuous();
        return;
    }
    let Some((p, r)) = o.call("pow", || a.pow(b)) else { return };
    let Some(basic) = o.call("pow_basic", || a.pow_basic(b)) else { return };
    o.check(basic == if r.is_zero() { Some(p) } else { None }, "pow_basic", || format!("{basic:?}"));
    o.check(is(&p, &of(&p).reduced()) && is(&r, &of(&r).reduced()), "lowest terms", || format!("{p:?} {r:?}"));
    let neg = y.is_negative();
    let base = if neg { x.recip() } else { x.clone() };
    let expo = y.abs();
    if r.is_zero() {
        // complete: the exact value
        o.check(y.is_integer() && power(x, &y.to_integer()) == Some(of(&p)), "power", || format!("{p:?}"));
        return;
    }
    let whole = power(&base, &expo.to_integer());
    // nothing done, or the integer part of the exponent
    let none = of(&p) == base && of(&r) == expo;
    let part = whole.as_ref() == Some(&of(&p)) && of(&r) == expo.fract();
    o.check(none || part, "power", || format!("{p:?} and the exponent {r:?} remaining"));
    // what can be calculated is
    if whole.as_ref().is_some_and(|w| safe(&[w])) && expo > BigRational::one() {
        o.check(!y.is_integer() && part, "incomplete", || format!("{p:?} and the exponent {r:?} remaining"));
    }
}

/// sums, products, quotients and powers of number expressions are numbers
fn expr(a: &T, b: &T, o: &mut Out) {
    let (x, y) = (big(a), big(b));
    let (e, f) = (build(a), build(b));
    let number = |r: &Expr, w: &BigRational| match read(r) {
        T::Rat(n, d) => BigInt::from(n) == *w.numer() && BigInt::from(d) == *w.denom(),
        _ => false,
    };
    if safe(&[&x, &y]) {
        let div = if y.is_zero() { None } else { Some(&x / &y) };
        for (op, want) in [('+', Some(&x + &y)), ('-', Some(&x - &y)), ('*', Some(&x * &y)), ('/', div)] {
            let Some(r) = o.call("operator", || match op {
                '+' => (&e + &f).reduce(),
                '-' => (&e - &f).reduce(),
                '*' => (&e * &f).reduce(),
                _ => (&e / &f).reduce(),
            }) else {
                continue;
            };
            match want {
                Some(want) => o.check(number(&r, &want), "expression", || format!("{op} gives {r:?} instead of {want}")),
                None => o.check(read(&r) == T::Undef, "expression", || format!("division by 0 gives {r:?}")),
            };
        }
    }
    if !y.is_integer() {
        return;
    }
    match power(&x, &y.to_integer()) {
        Some(w) if safe(&[&w]) => {
            let Some(r) = o.call("power", || Expr::pow(&e, &f).reduce()) else { return };
            o.check(number(&r, &w), "expression", || format!("power {r:?} instead of {w}"));
        }
        None if x.is_zero() && !y.is_positive() => {
            let Some(r) = o.call("power", || Expr::pow(&e, &f).reduce()) else { return };
            o.check(read(&r) == T::Undef, "expression", || format!("power of 0 {r:?}"));
        }
        _ => (),
    }
}

pub static NUMBERS: Prop = Prop { id: "C15", cases, check, follow: no_follow, bounds: |_| "all pairs of fractions with small numerators and denominators and 128-bit extremes; powers with fractional exponents".into(), assumptions: &["the reference trees read back through atom() are the expressions"] };
