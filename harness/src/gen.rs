//! Enumerators of reference trees.

use crate::tree::{parse, F, T};

pub fn ts(s: &[&str]) -> Vec<T> {
    s.iter().map(|s| parse(s)).collect()
}

/// every tuple of length n over the alphabet, in lexicographic order
pub fn tuples(n: usize, a: &[T], f: &mut dyn FnMut(&[T])) {
    fn go(n: usize, a: &[T], cur: &mut Vec<T>, f: &mut dyn FnMut(&[T])) {
        if n == 0 {
            return f(cur);
        }
        for x in a {
            cur.push(x.clone());
            go(n - 1, a, cur, f);
            cur.pop();
        }
    }
    go(n, a, &mut vec![], f)
}

/// every multiset of size n (non-decreasing index tuples)
pub fn multisets(n: usize, a: &[T], f: &mut dyn FnMut(&[T])) {
    fn go(n: usize, from: usize, a: &[T], cur: &mut Vec<T>, f: &mut dyn FnMut(&[T])) {
        if n == 0 {
            return f(cur);
        }
        for i in from..a.len() {
            cur.push(a[i].clone());
            go(n - 1, i, a, cur, f);
            cur.pop();
        }
    }
    go(n, 0, a, &mut vec![], f)
}

/// all orders of a slice
pub fn permutations(v: &[T]) -> Vec<Vec<T>> {
    if v.len() <= 1 {
        return vec![v.to_vec()];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}

/// one operator over children taken from two alphabets: sums, products (both
/// orders arise when the caller passes the alphabets both ways) and powers
pub fn sum(v: impl Into<Vec<T>>) -> T {
    T::Sum(v.into())
}
pub fn prod(v: impl Into<Vec<T>>) -> T {
    T::Prod(v.into())
}

pub struct Shape<'a> {
    /// exponents a base may be raised to
    pub exps: &'a [T],
    /// functions that may be applied
    pub funcs: &'a [F],
}

/// every tree with one operator on top and children from `a` (first) and `b`
pub fn over(a: &[T], b: &[T], s: &Shape) -> Vec<T> {
    let mut v = vec![];
    for x in a {
        for y in b {
            v.push(sum([x.clone(), y.clone()]));
            v.push(prod([x.clone(), y.clone()]));
        }
    }
    v.extend(unary(a, s));
    v
}

pub fn unary(a: &[T], s: &Shape) -> Vec<T> {
    let mut v = vec![];
    for x in a {
        for e in s.exps {
            v.push(T::pow(x.clone(), e.clone()));
        }
        for f in s.funcs {
            v.push(T::f(*f, x.clone()));
        }
    }
    v
}

pub fn dedup(v: Vec<T>) -> Vec<T> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|t| seen.insert(t.clone())).collect()
}
