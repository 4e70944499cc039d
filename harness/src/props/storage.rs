//! Writing an expression out and reading it in gives the same expression.

use crate::engine::*;
use crate::gen::{dedup, prod, sum, tuples};
use crate::space;
use crate::tree::*;
use calcu_rs::atom::{Atom, Func, Real};
use calcu_rs::rational::Rational;
use calcu_rs::Expr;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

const BIG: [i128; 12] = [
    0,
    1,
    255,
    1 << 31,
    (1 << 53) + 1,
    (1 << 63) - 1,
    1 << 63,
    (1 << 64) - 1,
    1 << 64,
    (1 << 100) + 12345,
    i128::MAX - 1,
    i128::MAX,
];

fn cases(t: Tier, emit: Emit) {
    let big = t == Tier::Thorough;
    let mut v = space::general(true);
    v.extend(space::scale_family(true));
    // files of serde_json are nested at most 128 deep
    v.extend(space::huge_family().into_iter().filter(|t| t.depth() < 30));
    v.extend(space::collection_family(false));
    v.extend(space::trig_family(big));
    v.extend(space::explog_family(big));
    let mut nums = vec![];
    for n in BIG {
        for s in [1, -1] {
            nums.push(T::int(s * n));
            for d in BIG {
                if d > 0 && s * n != 0 {
                    let (n, d) = crate::eval::norm(s * n, d).unwrap();
                    nums.push(T::Rat(n, d));
                }
            }
        }
    }
    for n in -12..=12i128 {
        for d in 1..=12i128 {
            let (n, d) = crate::eval::norm(n, d).unwrap();
            nums.push(T::Rat(n, d));
        }
    }
    let nums = dedup(nums);
    for n in &nums {
        v.push(T::pow(T::var("x"), n.clone()));
        v.push(sum([n.clone(), T::var("x")]));
        if let T::Rat(n, d) = n {
            if *n > 0 {
                v.push(T::f(F::Log(Base::Rat(*n, *d)), T::var("x")));
            }
        }
    }
    v.extend(nums);
    // names with characters that need care
    for s in ["", "x1", "α", "ρ_1", "a'b", "\"", "\\", "é", "x\u{0}", "1", "pi", "e", "Undef", "null", "[0]", "X", "x ", " x", "x y", " ", "\n", "\t", "x\n", "x\r", "\u{1F600}", "e\u{301}", "\u{feff}x", "\u{200b}", "\u{7f}", "\u{80}", "\u{2028}", "Ä", "ß", "ſ", "İ", "𝒙", "\u{10ffff}", "/", "\\u0041", "$x", "#e", "(x)", "x,y", "{x}", "true", "0", "-1", "1/2", "oo", "undef", "Var", "_", "'", "`", "%"] {
        v.push(T::var(s));
        v.push(sum([T::var(s), T::var("x")]));
        v.push(T::f(F::Sin, T::var(s)));
    }
    for n in [1usize, 7, 8, 15, 16, 22, 23, 24, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 65536] {
        v.push(T::Var("x".repeat(n)));
        v.push(T::Var("é".repeat(n) + "1"));
        v.push(sum([T::Var("x".repeat(n)), T::Var("x".repeat(n - 1) + "y")]));
    }
    v.push(sum([]));
    v.push(prod([]));
    v.push(sum([T::var("x")]));
    // every kind of node in every position
    let k: Vec<T> = ["x", "undef", "1/2", "-3", "#e", "#pi", "(+ x y)", "(* 2 x)", "(^ x 2)", "(sin x)", "(asec x)", "(log:pi x)", "(log:1/2 x)", "(+)", "(* x)"].iter().map(|s| parse(s)).collect();
    tuples(if big { 3 } else { 2 }, &k, &mut |t| {
        v.push(sum(t));
        v.push(prod(t));
        v.push(T::pow(t[0].clone(), t[1].clone()));
        v.push(T::pow(prod(t), t[0].clone()));
        for f in ALL_F {
            v.push(T::f(f, sum(t)));
        }
    });
    for t in dedup(v) {
        emit(Case::new("json", [t]));
    }
    // what a file may hold instead of an expression
    let mut damaged = dedup(space::general(false).into_iter().filter(|t| t.size() <= if big { 6 } else { 4 }).chain(k.iter().cloned()).collect());
    damaged.extend(["(+ (* 2 x) (^ y -1) (sin (* #pi z)))", "(log:1/2 (^ (+ x 1) 2/3))", "(^ (^ (^ x 2) 3) y)", "(* undef #e (ln #pi))"].iter().map(|s| parse(s)));
    for f in ALL_F {
        damaged.push(T::f(f, T::var("x")));
    }
    for t in damaged {
        for kind in ["cut", "junk", "replaced", "renamed", "removed", "doubled", "wrapped", "swapped"] {
            emit(Case::new(kind, [t.clone()]));
        }
    }
    // what a file may claim a number to be
    let small: Vec<i128> = (-6..=6).chain([i128::MAX, -i128::MAX]).collect();
    for n in &small {
        for d in &small {
            emit(Case::new(format!("number:{n}:{d}"), []));
        }
    }
}

fn hash(e: &Expr) -> u64 {
    let mut h = DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}

/// every value that is made from `v` by changing one of its parts
fn changed(v: &Value, kind: &str) -> Vec<Value> {
    let mut r: Vec<Value> = vec![];
    match kind {
        "replaced" => r.extend([json!(null), json!(true), json!(1.5), json!({}), json!({"Nonsense": [1, 2]}), json!([[[]]])]),
        "wrapped" => r.extend([json!([v]), json!([v, v]), json!({"atom": v}), json!({"args": v}), json!({"Sum": v})]),
        _ => (),
    }
    match v {
        Value::Array(a) => {
            for i in 0..a.len() {
                let with = |x: &[Value]| Value::Array([&a[..i], x, &a[i + 1..]].concat());
                match kind {
                    "removed" => r.push(with(&[])),
                    "doubled" => r.push(with(&[a[i].clone(), a[i].clone()])),
                    "swapped" => r.extend((0..i).map(|j| {
                        let mut a = a.clone();
                        a.swap(i, j);
                        Value::Array(a)
                    })),
                    _ => (),
                }
                r.extend(changed(&a[i], kind).into_iter().map(|x| with(&[x])));
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                let with = |l: Vec<(String, Value)>| {
                    let mut m = m.clone();
                    m.remove(k);
                    m.extend(l);
                    Value::Object(m)
                };
                match kind {
                    "removed" => r.push(with(vec![])),
                    "renamed" => r.extend(["Nonsense", ""].map(|n| with(vec![(n.into(), x.clone())]))),
                    _ => (),
                }
                r.extend(changed(x, kind).into_iter().map(|y| with(vec![(k.clone(), y)])));
            }
        }
        _ => (),
    }
    r
}

/// equal up to the way numbers are written
fn alike(a: &Value, b: &Value) -> bool {
    let ints = |v: &Value| match v {
        Value::Array(v) if v.len() == 2 => v[0].as_i64().zip(v[1].as_i64()),
        _ => None,
    };
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => match (ints(a), ints(b)) {
            (Some((n, d)), Some((m, e))) => crate::eval::norm(n as i128, d as i128) == crate::eval::norm(m as i128, e as i128),
            _ => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| alike(x, y)),
        },
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| alike(v, w))),
        _ => a == b,
    }
}

/// a damaged text is rejected; what a text that was changed but is accepted was
/// read as says the same
fn damaged(c: &Case, o: &mut Out) {
    let e = build(&c.args[0]);
    let text = serde_json::to_string(&e).unwrap();
    let rejected = |text: &str, o: &mut Out| match o.attempt(|| serde_json::from_str::<Expr>(text).map(|e| read(&e))) {
        Err(_) => o.fail("panic", format!("reading {text} panicked")),
        Ok(r) => {
            o.check(r.is_err(), "accepted", || format!("{text} was read as {r:?}"));
        }
    };
    let whole: Value = serde_json::from_str(&text).unwrap();
    match c.op.as_str() {
        "cut" => {
            for i in (0..text.len()).filter(|i| text.is_char_boundary(*i)) {
                rejected(&text[..i], o);
                if i > 0 {
                    rejected(&text[i..], o);
                }
            }
        }
        "junk" => {
            for t in ["x", "0", ",", "}", "]", "null", "{}", &text] {
                rejected(&format!("{text}{t}"), o);
                rejected(&format!("{t}{text}"), o);
            }
        }
        "replaced" | "renamed" => {
            for v in changed(&whole, &c.op) {
                rejected(&v.to_string(), o);
            }
        }
        k => {
            for v in changed(&whole, k) {
                let text = v.to_string();
                let Ok(r) = o.attempt(|| serde_json::from_str::<Expr>(&text)) else {
                    o.fail("panic", format!("reading {text} panicked"));
                    continue;
                };
                let Ok(r) = r else {
                    o.vacuous();
                    continue;
                };
                let back = serde_json::to_value(&r).unwrap();
                o.check(alike(&v, &back), "altered", || format!("{text} was read as {r:?}, which is {back}"));
            }
        }
    }
}

fn check(c: &Case, o: &mut Out) {
    if !c.args.is_empty() && c.op != "json" {
        return damaged(c, o);
    }
    if let Some(a) = c.op.strip_prefix("number:") {
        let (n, d) = a.split_once(':').unwrap();
        let (n, d): (i128, i128) = (n.parse().unwrap(), d.parse().unwrap());
        // every way a pair of integers can be written down
        for text in [format!("[{n},{d}]"), format!("{{\"numer\":{n},\"denom\":{d}}}"), format!("[[{n},{d}]]")] {
            let Ok(r) = o.attempt(|| serde_json::from_str::<Rational>(&text)) else {
                o.fail("panic", format!("reading {text} panicked"));
                continue;
            };
            let Ok(r) = r else {
                o.vacuous();
                continue;
            };
            let got = (r.numer(), r.denom());
            let want = crate::eval::norm(n, d);
            o.check(Some(got) == want, "number", || format!("{text} was read as {got:?}"));
        }
        return;
    }
    let t = &c.args[0];
    let e = build(t);
    let Some(Ok(s)) = o.call("to_string", || serde_json::to_string(&e)) else {
        return o.fail("write", "cannot be written".into());
    };
    let Some(r) = o.call("from_str", || serde_json::from_str::<Expr>(&s)) else { return };
    let r = match r {
        Ok(r) => r,
        Err(m) => return o.fail("read", format!("{s}: {m}")),
    };
    let rt = read(&r);
    o.check(rt == *t, "json", || format!("read back as {rt} from {s}"));
    o.check(r == e && hash(&r) == hash(&e) && r.cmp(&e).is_eq(), "equal", || format!("{s} is not equal to what was written"));
    // reading is a function of the text
    let Some(Ok(s2)) = o.call("to_string", || serde_json::to_string(&r)) else {
        return o.fail("write", "cannot be written again".into());
    };
    o.check(s == s2, "text", || format!("{s} was written again as {s2}"));
    // the pretty form, the byte form, and every part on its own
    let Some(Ok(p)) = o.call("to_string_pretty", || serde_json::to_string_pretty(&e)) else {
        return o.fail("write", "cannot be written".into());
    };
    let Some(Ok(r)) = o.call("from_slice", || serde_json::from_slice::<Expr>(p.as_bytes())) else {
        return o.fail("read", p);
    };
    o.check(read(&r) == *t, "pretty", || format!("read back as {}", read(&r)));
    let Some(Ok(r)) = o.call("from_reader", || serde_json::from_reader::<_, Expr>(s.as_bytes())) else {
        return o.fail("read", "cannot be read from a stream".into());
    };
    o.check(read(&r) == *t, "stream", || format!("read back as {}", read(&r)));
    // a serde_json::Value holds no integer of more than 64 bits
    match o.call("to_value", || serde_json::to_value(&e)) {
        None => return,
        Some(Err(_)) => o.vacuous(),
        Some(Ok(v)) => {
            let Some(Ok(r)) = o.call("from_value", || serde_json::from_value::<Expr>(v)) else {
                return o.fail("read", "cannot be read from a value".into());
            };
            o.check(read(&r) == *t, "value", || format!("read back as {}", read(&r)));
        }
    }
    // as a part of something larger
    let many = (vec![e.clone(), Expr::add_raw(&e, &e)], Some(e.clone()));
    let Some(Ok((l, r))) = o.call("collection", || serde_json::from_str::<(Vec<Expr>, Option<Expr>)>(&serde_json::to_string(&many).unwrap())) else {
        return o.fail("read", "cannot be read from a list".into());
    };
    o.check(l.len() == 2 && read(&l[0]) == *t && read(&l[1]) == read(&many.0[1]), "list", || format!("read back as {l:?}"));
    o.check(r.as_ref().map(read).as_ref() == Some(t), "option", || format!("read back as {r:?}"));
    let Some(Ok(a)) = o.call("atom", || serde_json::from_str::<Atom>(&serde_json::to_string(e.atom()).unwrap())) else {
        return o.fail("read", "the atom cannot be read".into());
    };
    o.check(read(&Expr::from(a.clone())) == *t, "atom", || format!("{a:?}"));
    match e.atom() {
        Atom::Rational(q) => {
            let Some(Ok(b)) = o.call("rational", || serde_json::from_str::<Rational>(&serde_json::to_string(q).unwrap())) else {
                return o.fail("read", "the number cannot be read".into());
            };
            o.check(b == *q, "rational", || format!("{b}"));
        }
        Atom::Func(f) => {
            let Some(Ok(b)) = o.call("func", || serde_json::from_str::<Func>(&serde_json::to_string(f).unwrap())) else {
                return o.fail("read", "the function cannot be read".into());
            };
            o.check(read(&Expr::from(Atom::Func(b.clone()))) == *t, "func", || format!("{b:?}"));
            if let Func::Log(q, _) = f {
                let Some(Ok(b)) = o.call("real", || serde_json::from_str::<Real>(&serde_json::to_string(q).unwrap())) else {
                    return o.fail("read", "the base cannot be read".into());
                };
                o.check(b == *q, "real", || format!("{b}"));
            }
        }
        _ => (),
    }
}

pub static STORAGE: Prop = Prop { id: "C17", cases, check, follow: no_follow, bounds: |_| "all trees of the general space, the collection, trigonometric and exponential families, every kind of node in every position, numbers up to the limits of 128 bits, and names with unusual characters, each written and read as JSON in several ways; every pair of 16 integers as a number in a file; for a pool of stored expressions every text cut short and every one with one part replaced, removed, renamed, repeated, wrapped or exchanged".into(), assumptions: &["JSON stands for every format that serde can write"] };
