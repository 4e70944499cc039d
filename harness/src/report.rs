//! The verdict: known findings, violation files, evidence.

use crate::engine::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::fs;
use std::path::PathBuf;
use std::time::{Duration, Instant};

fn root() -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/.."))
        .canonicalize()
        .unwrap()
}

pub struct Known {
    key: String,
    what: String,
}

/// Lines of known_findings.txt:
///   finding: property=<id> case=[<case>] kind=<kind> -- <what fails>
///   fixed: property=<id> <commit> <what failed>         (suppresses nothing)
fn known(id: &str) -> Vec<Known> {
    let mut v = vec![];
    let s = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    for l in s.lines() {
        let Some(r) = l.strip_prefix(&format!("finding: property={id} case=[")) else { continue };
        let (case, r) = r.split_once("] kind=").expect("malformed finding");
        let (kind, what) = r.split_once(" -- ").expect("malformed finding");
        v.push(Known {
            key: format!("{case}\t{kind}"),
            what: format!("{case}: {what}"),
        });
    }
    v
}

pub fn scratch(id: &str) -> PathBuf {
    root().join("out").join(format!("run-{id}-{}", std::process::id()))
}

pub fn check(p: &'static Prop, tier: Tier) -> i32 {
    let start = Instant::now();
    let root = root();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = known(p.id);
    let keys: BTreeSet<String> = known.iter().map(|k| k.key.clone()).collect();
    let out = root.join("out");
    fs::create_dir_all(&out).unwrap();
    fs::create_dir_all(root.join("evidence")).unwrap();
    let deadline = Duration::from_secs(tier.pick(420, 3600));
    let s = explore(p, tier, &scratch(p.id), &keys, deadline);

    let (old, new): (Vec<&Violation>, Vec<&Violation>) = s
        .violations
        .iter()
        .partition(|v| keys.contains(&format!("{}\t{}", v.case, v.kind)));
    for k in &known {
        if old.iter().any(|v| format!("{}\t{}", v.case, v.kind) == k.key) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }
    println!(
        "{} {}: {} cases, {} states, {} calls into the implementation, {} comparisons ({} vacuous), {} violations, {:.1} s{}",
        p.id,
        tier.name(),
        s.cases,
        s.states,
        s.transitions,
        s.compared,
        s.vacuous,
        new.len(),
        start.elapsed().as_secs_f64(),
        if s.complete { "" } else { ", not complete" }
    );
    for w in &s.why_incomplete {
        println!("  {w}");
    }
    // the smallest case of every kind and operation, at most 8
    let mut shown: Vec<&&Violation> = vec![];
    for v in &new {
        let op = |v: &Violation| (v.kind.clone(), v.case.split(' ').next().unwrap().to_string());
        if shown.len() < 8 && !shown.iter().any(|w| op(w) == op(v)) {
            shown.push(v);
        }
    }
    for (n, v) in shown.iter().enumerate() {
        let f = out.join(format!("{}-{}.txt", p.id, n + 1));
        fs::write(
            &f,
            format!(
                "property\t{}\ntier\t{}\ncase\t{}\nkind\t{}\ndetail\t{}\n",
                p.id,
                tier.name(),
                v.case,
                v.kind,
                v.detail
            ),
        )
        .unwrap();
        println!("VIOLATION property={} replay={}", p.id, f.display());
        println!("  {} [{}] {}", v.case, v.kind, v.detail);
    }
    let mut samples: Vec<String> = s.samples.clone();
    samples.sort();
    samples.dedup();
    // a spread over the small and the large ones
    let step = samples.len().div_ceil(24).max(1);
    let samples: Vec<String> = samples.into_iter().step_by(step).collect();
    let ev = json!({
        "property": p.id,
        "tier": tier.name(),
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": s.states,
            "transitions": s.transitions,
            "traces_validated_against_impl": s.compared,
            "vacuous_comparisons": s.vacuous,
            "cases": s.cases,
            "initial_cases": s.initial,
            "cases_reached_by_operations": s.followed,
            "samples": samples,
            "exhaustive": s.complete,
            "bounds": (p.bounds)(tier),
            "incomplete_because": s.why_incomplete,
            "notes": s.notes,
            "meaning": "states: distinct reference trees visited; transitions: guarded calls into the real library; traces_validated_against_impl: comparisons of what the library returned with the reference",
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": new.len(),
    });
    let f = root.join("evidence").join(format!("{}.json", p.id));
    fs::write(&f, serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    if new.is_empty() && s.compared == 0 {
        eprintln!("nothing was compared");
        return 3;
    }
    if new.is_empty() { 0 } else { 1 }
}

pub fn replay_file(path: &str) -> i32 {
    let s = fs::read_to_string(path).expect("cannot read the violation file");
    let get = |k: &str| {
        s.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}\t")))
            .unwrap_or_else(|| panic!("no {k} in the file"))
            .to_string()
    };
    let (id, case) = (get("property"), get("case"));
    println!("{id}: {case}");
    let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
    if id == "C18" {
        crate::props::notation::prepare(tier);
    }
    if id == "C20" {
        crate::props::builtins::prepare(tier);
    }
    let p = crate::props::find(&id);
    if replay(p, &Case::parse(&case)) {
        println!("VIOLATION property={id} replay={path}");
        1
    } else {
        println!("holds");
        0
    }
}
