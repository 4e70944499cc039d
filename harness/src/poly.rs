//! Reference polynomial arithmetic over the rationals.

use crate::tree::T;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Zero};
use std::collections::BTreeMap;

pub type Mono = BTreeMap<T, u32>;
pub type Poly = BTreeMap<Mono, BigRational>;

pub fn rat(n: i128, d: i128) -> BigRational {
    BigRational::new(BigInt::from(n), BigInt::from(d))
}

pub fn constant(c: BigRational) -> Poly {
    let mut p = Poly::new();
    if !c.is_zero() {
        p.insert(Mono::new(), c);
    }
    p
}

pub fn add(a: &Poly, b: &Poly) -> Poly {
    let mut r = a.clone();
    for (m, c) in b {
        let e = r.entry(m.clone()).or_insert_with(BigRational::zero);
        *e += c;
        if e.is_zero() {
            r.remove(m);
        }
    }
    r
}

pub fn mul(a: &Poly, b: &Poly) -> Poly {
    let mut r = Poly::new();
    for (m, c) in a {
        for (n, d) in b {
            let mut k = m.clone();
            for (v, e) in n {
                *k.entry(v.clone()).or_default() += e;
            }
            let e = r.entry(k.clone()).or_insert_with(BigRational::zero);
            *e += c * d;
            if e.is_zero() {
                r.remove(&k);
            }
        }
    }
    r
}

/// The polynomial a tree denotes in its "atoms": maximal subtrees that are not
/// sums, products, numbers or powers with a non-negative integer exponent.
/// None: not of that kind (undefined, 0^0, negative powers).
pub fn poly(t: &T, atoms: bool) -> Option<Poly> {
    Some(match t {
        T::Undef => return None,
        T::Rat(n, d) => constant(rat(*n, *d)),
        T::Sum(a) => {
            let mut r = Poly::new();
            for x in a {
                r = add(&r, &poly(x, atoms)?);
            }
            r
        }
        T::Prod(a) => {
            let mut r = constant(BigRational::one());
            for x in a {
                r = mul(&r, &poly(x, atoms)?);
            }
            r
        }
        T::Pow(b, e) if matches!(**e, T::Rat(n, 1) if (0..=128).contains(&n)) => {
            let T::Rat(n, 1) = **e else { unreachable!() };
            let b = poly(b, atoms)?;
            if n == 0 && b.is_empty() {
                return None;
            }
            let mut r = constant(BigRational::one());
            for _ in 0..n {
                r = mul(&r, &b);
            }
            r
        }
        T::Var(_) => single(t),
        _ if atoms => single(t),
        _ => return None,
    })
}

fn single(t: &T) -> Poly {
    let mut m = Mono::new();
    m.insert(t.clone(), 1);
    let mut p = Poly::new();
    p.insert(m, BigRational::one());
    p
}

/// the terms of a tree read as a flat sum
pub fn terms(t: &T) -> Vec<&T> {
    match t {
        T::Sum(a) => a.iter().collect(),
        T::Rat(0, _) => vec![],
        t => vec![t],
    }
}
