//! Reference semantics: what an expression denotes.
//!
//! Two independent interpretations of a tree are used as the oracle.
//!
//! * `fp`: exact evaluation in the prime field of order 2^61-1, for trees that
//!   denote rational functions of their variables (integer exponents, no
//!   transcendental constants or functions).  Equal rational functions evaluate
//!   equal wherever both are defined, so this can never raise a false alarm; two
//!   different rational functions of degree d agree at the fixed generic point
//!   only if that point is a root of their difference (d out of 2^61 points).
//! * `real`: evaluation over the reals with a running bound on the rounding
//!   error, at a fixed list of points, for everything else.

use crate::tree::{Base, F, T};

pub const ASSUMPTIONS: &[&str] = &[
    "rational functions that agree at a fixed generic point of the field with 2^61-1 elements are equal",
    "values over the reals are compared at seven fixed points; only a difference beyond the bound on rounding errors counts, so the others agree to that bound",
    "laws of real powers and logarithms are required only at points where bases and arguments are positive",
    "arithmetic outside the range of 128-bit integers is not explored",
];

pub const P: u64 = (1 << 61) - 1;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fp {
    Val(u64),
    /// a division by zero, 0^0 or the undefined symbol
    Undef,
    /// not a rational function
    Outside,
}

fn fmul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
fn fadd(a: u64, b: u64) -> u64 {
    ((a as u128 + b as u128) % P as u128) as u64
}
fn fpow(mut a: u64, mut n: u64) -> u64 {
    let mut r = 1;
    while n > 0 {
        if n & 1 == 1 {
            r = fmul(r, a)
        }
        a = fmul(a, a);
        n >>= 1;
    }
    r
}
fn fint(n: i128) -> u64 {
    n.rem_euclid(P as i128) as u64
}

fn name_hash(s: &str, salt: u64) -> u64 {
    let mut h = crate::tree::Fnv::new();
    h.bytes(s.as_bytes());
    h.bytes(&salt.to_le_bytes());
    h.finish()
}

/// value of a variable in the field
pub fn fp_var(s: &str) -> u64 {
    name_hash(s, 77) % P
}

pub type Env<'a> = &'a dyn Fn(&str) -> Option<u64>;

pub fn fp(t: &T) -> Fp {
    fp_env(t, &|_| None)
}

/// `env` overrides the value of some variables
pub fn fp_env(t: &T, env: Env) -> Fp {
    match t {
        T::Undef => Fp::Undef,
        T::Rat(n, d) => match fint(*d) {
            0 => Fp::Outside,
            d => Fp::Val(fmul(fint(*n), fpow(d, P - 2))),
        },
        T::E | T::Pi => Fp::Outside,
        T::Var(v) => Fp::Val(env(v).unwrap_or_else(|| fp_var(v))),
        T::Sum(a) | T::Prod(a) => {
            let sum = matches!(t, T::Sum(_));
            let mut acc = if sum { 0 } else { 1 };
            let mut outside = false;
            for x in a {
                match fp_env(x, env) {
                    Fp::Undef => return Fp::Undef,
                    Fp::Outside => outside = true,
                    Fp::Val(v) => acc = if sum { fadd(acc, v) } else { fmul(acc, v) },
                }
            }
            if outside {
                Fp::Outside
            } else {
                Fp::Val(acc)
            }
        }
        T::Pow(b, e) => {
            let bv = fp_env(b, env);
            let ev = fp_env(e, env);
            if bv == Fp::Undef || ev == Fp::Undef {
                return Fp::Undef;
            }
            let (Fp::Val(b), Some((n, 1))) = (bv, const_rat(e)) else {
                return Fp::Outside;
            };
            if n.unsigned_abs() > 1 << 40 {
                return Fp::Outside;
            }
            match (b, n) {
                (0, n) if n <= 0 => Fp::Undef,
                (b, n) if n >= 0 => Fp::Val(fpow(b, n as u64)),
                (b, n) => Fp::Val(fpow(fpow(b, P - 2), (-n) as u64)),
            }
        }
        T::Fn(_, a) => match fp_env(a, env) {
            Fp::Undef => Fp::Undef,
            _ => Fp::Outside,
        },
    }
}

fn gcd(a: i128, b: i128) -> i128 {
    num_integer::gcd(a, b)
}
pub fn norm(n: i128, d: i128) -> Option<(i128, i128)> {
    if d == 0 {
        return None;
    }
    let g = gcd(n, d);
    let (n, d) = (n / g, d / g);
    if d < 0 {
        Some((n.checked_neg()?, d.checked_neg()?))
    } else {
        Some((n, d))
    }
}

/// the exact value of a constant rational subtree
pub fn const_rat(t: &T) -> Option<(i128, i128)> {
    match t {
        T::Rat(n, d) => Some((*n, *d)),
        T::Sum(a) => a.iter().try_fold((0i128, 1i128), |(n, d), x| {
            let (xn, xd) = const_rat(x)?;
            norm(
                n.checked_mul(xd)?.checked_add(xn.checked_mul(d)?)?,
                d.checked_mul(xd)?,
            )
        }),
        T::Prod(a) => a.iter().try_fold((1i128, 1i128), |(n, d), x| {
            let (xn, xd) = const_rat(x)?;
            norm(n.checked_mul(xn)?, d.checked_mul(xd)?)
        }),
        T::Pow(b, e) => {
            let (n, d) = const_rat(b)?;
            let (k, 1) = const_rat(e)? else { return None };
            if n == 0 && k <= 0 {
                return None;
            }
            let (n, d) = if k < 0 { norm(d, n)? } else { (n, d) };
            let k = u32::try_from(k.unsigned_abs()).ok()?;
            Some((n.checked_pow(k)?, d.checked_pow(k)?))
        }
        _ => None,
    }
}

// ---------------------------------------------------------------------------
// reals

#[derive(Clone, Copy, Debug)]
pub struct V {
    pub v: f64,
    /// bound on |v - exact|
    pub e: f64,
}

#[derive(Clone, Copy, Debug)]
pub enum R {
    Val(V),
    /// outside the real domain
    Undef,
    /// numerically undecidable here
    Unk,
}

const EPS: f64 = 4.0 * f64::EPSILON;

fn val(v: f64, e: f64) -> R {
    if v.is_finite() && e.is_finite() {
        R::Val(V {
            v,
            e: e + EPS * v.abs(),
        })
    } else {
        R::Unk
    }
}

pub const N_POINTS: usize = 7;

/// The fixed points.  0..=3 have every variable positive; 1 in (0,1) for the
/// inverse functions, 2 all above 1; 4..=6 mix signs.
pub fn var_at(p: usize, s: &str) -> f64 {
    const X: [f64; N_POINTS] = [0.6180339, 0.3177821, 2.7131421, 1.9021130, -0.7354211, 1.3713371, -1.1293847];
    const Y: [f64; N_POINTS] = [1.7320508, 0.7739231, 1.3170911, 0.4142135, 1.2173091, -0.5270013, -0.6173205];
    const Z: [f64; N_POINTS] = [0.9238795, 0.5403023, 1.8414709, 2.2360679, -1.9113221, 0.4311937, 1.4512309];
    match s {
        "x" => X[p],
        "y" => Y[p],
        "z" => Z[p],
        _ => {
            let h = name_hash(s, p as u64);
            let u = (h >> 11) as f64 / (1u64 << 53) as f64;
            match p {
                0 | 3 => 0.3 + 2.0 * u,
                1 => 0.1 + 0.8 * u,
                2 => 1.1 + 2.0 * u,
                _ => {
                    let m = 0.3 + 1.7 * u;
                    if h & 1 == 0 {
                        -m
                    } else {
                        m
                    }
                }
            }
        }
    }
}

pub type REnv<'a> = &'a dyn Fn(&str) -> V;

pub fn point(p: usize) -> impl Fn(&str) -> V {
    move |s| V {
        v: var_at(p, s),
        e: 0.0,
    }
}

/// below this a result may have lost digits to underflow
const TINY: f64 = 1e-280;

pub fn real(t: &T, env: REnv) -> R {
    macro_rules! get {
        ($t:expr) => {
            match real($t, env) {
                R::Val(v) => v,
                o => return o,
            }
        };
    }
    match t {
        T::Undef => R::Undef,
        T::Rat(n, d) => {
            let v = *n as f64 / *d as f64;
            R::Val(V {
                v,
                e: if *d == 1 && n.unsigned_abs() < 1 << 52 {
                    0.0
                } else {
                    EPS * v.abs()
                },
            })
        }
        T::E => val(std::f64::consts::E, 0.0),
        T::Pi => val(std::f64::consts::PI, 0.0),
        T::Var(s) => R::Val(env(s)),
        T::Sum(a) => {
            let (mut v, mut e, mut unk) = (0.0f64, 0.0f64, false);
            for x in a {
                match real(x, env) {
                    R::Val(x) => {
                        v += x.v;
                        e += x.e + EPS * v.abs().max(x.v.abs());
                    }
                    R::Undef => return R::Undef,
                    R::Unk => unk = true,
                }
            }
            if unk {
                R::Unk
            } else {
                val(v, e)
            }
        }
        T::Prod(a) => {
            let (mut v, mut e, mut unk) = (1.0f64, 0.0f64, false);
            for x in a {
                match real(x, env) {
                    R::Val(x) => {
                        e = v.abs() * x.e + x.v.abs() * e + e * x.e;
                        let nonzero = v != 0.0 && x.v != 0.0;
                        v *= x.v;
                        unk |= nonzero && v.abs() < TINY;
                        e += EPS * v.abs();
                    }
                    R::Undef => return R::Undef,
                    R::Unk => unk = true,
                }
            }
            if unk {
                R::Unk
            } else {
                val(v, e)
            }
        }
        T::Pow(b, x) => {
            let bv = get!(b);
            let xv = get!(x);
            let zero_like = bv.v.abs() <= 8.0 * bv.e;
            if let Some((n, 1)) = const_rat(x) {
                if n == 0 {
                    return if bv.v == 0.0 && bv.e == 0.0 {
                        R::Undef
                    } else if zero_like {
                        R::Unk
                    } else {
                        val(1.0, 0.0)
                    };
                }
                if n < 0 {
                    if bv.v == 0.0 && bv.e == 0.0 {
                        return R::Undef;
                    }
                    if zero_like {
                        return R::Unk;
                    }
                }
                if n.unsigned_abs() > 1 << 20 {
                    return R::Unk;
                }
                let v = bv.v.powi(n as i32);
                if bv.v != 0.0 && v.abs() < TINY {
                    return R::Unk;
                }
                if zero_like {
                    // n > 0
                    return val(v, (bv.v.abs() + bv.e).powi(n as i32));
                }
                let m = bv.v.abs() - bv.e;
                let rel = n.unsigned_abs() as f64 * (bv.e / m + EPS);
                if rel > 0.1 {
                    return R::Unk;
                }
                return val(v, v.abs() * 2.0 * rel);
            }
            if zero_like {
                return R::Unk;
            }
            if bv.v < 0.0 {
                return R::Undef;
            }
            let l = bv.v.ln();
            let v = (xv.v * l).exp();
            if v < TINY {
                return R::Unk;
            }
            let rel = xv.v.abs() * bv.e / (bv.v - bv.e)
                + l.abs() * xv.e
                + EPS * (1.0 + (xv.v * l).abs());
            if rel > 0.1 {
                return R::Unk;
            }
            val(v, 2.0 * v.abs() * rel)
        }
        T::Fn(f, a) => {
            let a = get!(a);
            func(*f, a)
        }
    }
}

fn recip(a: V) -> R {
    if a.v == 0.0 && a.e == 0.0 {
        return R::Undef;
    }
    if a.v.abs() <= 8.0 * a.e {
        return R::Unk;
    }
    val(1.0 / a.v, 2.0 * a.e / (a.v * a.v))
}
fn mulv(a: V, b: V) -> R {
    val(
        a.v * b.v,
        a.v.abs() * b.e + b.v.abs() * a.e + a.e * b.e,
    )
}

fn func(f: F, a: V) -> R {
    let sin = V {
        v: a.v.sin(),
        e: a.e + EPS * (1.0 + a.v.abs()),
    };
    let cos = V {
        v: a.v.cos(),
        e: a.e + EPS * (1.0 + a.v.abs()),
    };
    let quot = |n: V, d: V| match recip(d) {
        R::Val(r) => mulv(n, r),
        o => o,
    };
    match f {
        F::Sin => R::Val(sin),
        F::Cos => R::Val(cos),
        F::Tan => quot(sin, cos),
        F::Cot => quot(cos, sin),
        F::Sec => recip(cos),
        F::Csc => recip(sin),
        F::ASin | F::ACos => {
            let m = a.v.abs();
            if m - a.e > 1.0 {
                return R::Undef;
            }
            let s = 1.0 - (m + a.e) * (m + a.e);
            if s < 1e-9 {
                return R::Unk;
            }
            let v = if f == F::ASin { a.v.asin() } else { a.v.acos() };
            val(v, 2.0 * a.e / s.sqrt())
        }
        F::ATan => val(a.v.atan(), a.e),
        F::ACot => val(std::f64::consts::FRAC_PI_2 - a.v.atan(), a.e + EPS),
        F::ASec | F::ACsc => match recip(a) {
            R::Val(r) => func(if f == F::ASec { F::ACos } else { F::ASin }, r),
            o => o,
        },
        F::Log(b) => {
            let base = match b {
                Base::E => None,
                Base::Pi => Some(std::f64::consts::PI),
                Base::Rat(n, d) => Some(n as f64 / d as f64),
            };
            if let Some(b) = base {
                if b <= 0.0 || b == 1.0 {
                    return R::Undef;
                }
            }
            if a.v == 0.0 && a.e == 0.0 {
                return R::Undef;
            }
            if a.v.abs() <= 8.0 * a.e {
                return R::Unk;
            }
            if a.v < 0.0 {
                return R::Undef;
            }
            let l = a.v.ln();
            let e = 2.0 * a.e / (a.v - a.e) + EPS;
            match base {
                None => val(l, e),
                Some(b) => val(l / b.ln(), e / b.ln().abs()),
            }
        }
    }
}

/// Is the point inside the domain on which the laws of real powers and logarithms
/// hold without case distinctions?  Every base of a non-integer power and every
/// argument of a logarithm, and every factor and every base inside those, has to
/// be positive there.
pub fn regular(t: &T, env: REnv, d: Domain) -> bool {
    let here = match t {
        _ if d == Domain::All => return true,
        T::Pow(b, x) => match const_rat(x) {
            Some((_, 1)) => true,
            _ if d == Domain::Split && matches!(**b, T::Var(_) | T::Fn(..) | T::Sum(_) | T::Rat(..)) => value_positive(b, env),
            _ if d == Domain::Nested && never_power(b) => value_positive(b, env),
            _ => positive(b, env),
        },
        T::Fn(F::Log(_), a) if d == Domain::Regular => positive(a, env),
        _ => true,
    };
    here && t.children().into_iter().all(|c| regular(c, env, d))
}
/// The points an operation answers for.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Domain {
    /// all at which the expression has a value
    All,
    /// those at which powers of products and powers can be split
    Split,
    /// those at which every power of a power obeys (b^c)^d = b^(c*d)
    Nested,
    /// those at which all laws of powers and logarithms hold
    Regular,
}
/// Is it plain that the base does not collect to a power of something?
fn never_power(b: &T) -> bool {
    let sum_inside = |t: &T| t.any(&|t| matches!(t, T::Sum(_)));
    match b {
        T::Var(_) | T::Fn(..) => true,
        T::Prod(a) | T::Sum(a) if !a.iter().any(sum_inside) && !b.any(&|t| matches!(t, T::Fn(..))) => match crate::poly::poly(b, true) {
            Some(p) if p.keys().any(|m| m.keys().any(|t| !matches!(t, T::Var(_)))) => false,
            Some(p) if p.len() == 1 => {
                let (m, c) = p.first_key_value().unwrap();
                *c != crate::poly::rat(1, 1) || m.len() > 1
            }
            Some(p) => p.len() > 1,
            None => false,
        },
        _ => false,
    }
}
fn positive(t: &T, env: REnv) -> bool {
    match t {
        T::Prod(a) => a.iter().all(|x| positive(x, env)),
        T::Pow(b, _) => positive(b, env),
        T::Sum(a) if a.len() == 1 => positive(&a[0], env),
        // an odd function of a product takes the sign of the factors
        T::Fn(F::Sin | F::Tan | F::Cot | F::Csc | F::ASin | F::ATan | F::ACsc, a) => {
            value_positive(t, env) && !a.any(&|t| matches!(t, T::Rat(n, _) if *n < 0))
        }
        // the terms may collect to a single one, or to none but one
        T::Sum(_) => value_positive(t, env) && (!collapses(t) || {
            let mut v = vec![];
            flat_terms(t, &mut v);
            v.into_iter().all(|x| !nonzero(x) || factors_positive(x, env))
        }),
        _ => value_positive(t, env),
    }
}
fn value_positive(t: &T, env: REnv) -> bool {
    match real(t, env) {
        R::Val(v) => v.v > 8.0 * v.e,
        _ => false,
    }
}
fn nonzero(t: &T) -> bool {
    fp(t) != Fp::Val(0)
}
/// Can the terms of a sum cancel until a single one is left?  The sum is then a
/// rational multiple of one of its terms or has a single monomial.
fn collapses(t: &T) -> bool {
    if crate::poly::poly(t, true).is_some_and(|p| p.len() <= 1) {
        return true;
    }
    let second = |s: &str| Some(name_hash(s, 78) % P);
    let ratio = |x: &T, env: Env| match (fp_env(x, env), fp_env(t, env)) {
        (Fp::Val(x), Fp::Val(s)) if x != 0 => Some(fmul(s, fpow(x, P - 2))),
        _ => None,
    };
    let mut v = vec![];
    flat_terms(t, &mut v);
    v.into_iter().filter(|x| nonzero(x)).any(|x| {
        let r = ratio(x, &|_| None);
        r.is_none() || r == ratio(x, &second)
    })
}
fn flat_terms<'a>(t: &'a T, v: &mut Vec<&'a T>) {
    match t {
        T::Sum(a) => a.iter().for_each(|x| flat_terms(x, v)),
        _ => v.push(t),
    }
}
/// up to its sign, as a product of positive factors
fn factors_positive(t: &T, env: REnv) -> bool {
    match t {
        T::Prod(a) => a.iter().all(|x| factors_positive(x, env)),
        T::Pow(b, _) => factors_positive(b, env),
        _ if const_rat(t).is_some() => true,
        _ => positive(t, env),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// equal on everything compared (number of points, 0 for the field)
    Same(usize),
    Differs(String),
    /// no point at which the left side is defined
    Vacuous,
}

/// Does `to` denote the same value as `from`, wherever `from` is defined (and
/// regular)?
pub fn same_value(from: &T, to: &T) -> Verdict {
    same_value_on(from, to, Domain::Regular)
}
pub fn same_value_on(from: &T, to: &T, d: Domain) -> Verdict {
    match (fp(from), fp(to)) {
        (Fp::Undef, _) => return Verdict::Vacuous,
        (Fp::Val(a), Fp::Val(b)) => {
            return if a == b {
                Verdict::Same(0)
            } else {
                Verdict::Differs(format!(
                    "different rational functions (values {a} and {b} mod 2^61-1)"
                ))
            }
        }
        (Fp::Val(_), Fp::Undef) => {
            return Verdict::Differs("a defined rational function became undefined".into())
        }
        _ => (),
    }
    same_real(from, to, d, &|_, _| None)
}

/// as `same_value`, over the reals, with some variables overridden per point on
/// both sides
pub fn same_value_env(from: &T, to: &T, over: &dyn Fn(usize, &str) -> Option<V>) -> Verdict {
    same_real(from, to, Domain::Regular, over)
}
fn same_real(from: &T, to: &T, domain: Domain, over: &dyn Fn(usize, &str) -> Option<V>) -> Verdict {
    let mut n = 0;
    for p in 0..N_POINTS {
        let base = point(p);
        let env = |s: &str| over(p, s).unwrap_or_else(|| base(s));
        if !regular(from, &env, domain) {
            continue;
        }
        let R::Val(a) = real(from, &env) else {
            continue;
        };
        match real(to, &env) {
            R::Val(b) => match cmp(a, b) {
                Some(true) => n += 1,
                Some(false) => {
                    return Verdict::Differs(format!(
                        "at point {p} the value {} became {}",
                        a.v, b.v
                    ))
                }
                None => (),
            },
            R::Undef => {
                return Verdict::Differs(format!(
                    "at point {p} the value {} became undefined",
                    a.v
                ))
            }
            R::Unk => (),
        }
    }
    if n == 0 {
        Verdict::Vacuous
    } else {
        Verdict::Same(n)
    }
}

/// Some(equal?) or None when the error bounds are too wide to tell
pub fn cmp(a: V, b: V) -> Option<bool> {
    let tol = 16.0 * (a.e + b.e);
    let scale = 1e-5 * (1.0 + a.v.abs().min(b.v.abs()));
    if (a.v - b.v).abs() > tol {
        // a difference has to be well outside the error bound
        if tol > scale * 1e3 {
            return None;
        }
        return Some(false);
    }
    if tol > scale {
        None
    } else {
        Some(true)
    }
}
