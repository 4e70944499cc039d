#!/usr/bin/env python3
"""Mutation testing of the checks: small changes of every kind all over the
sources, in a scratch copy; those that build and pass the repository's tests
are given to the checks, and those no check reports are listed.

  mutate.py DIR LOG [seed] [count]    DIR: scratch directory (created)
"""
import json, os, random, re, subprocess, sys, shutil, time
DIR, LOG = sys.argv[1], sys.argv[2]
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
COUNT = int(sys.argv[4]) if len(sys.argv) > 4 else 100
FILES = sys.argv[5].split(",") if len(sys.argv) > 5 else ["algos.rs", "atom.rs", "polynomial.rs", "rational.rs", "sym_fmt.rs", "transforms.rs", "utils.rs", "../macros/src/lib.rs"]
REPO, VER = DIR + "/repo", DIR + "/verif"

def sh(cmd, t=1000, **k):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")

def setup():
    if not os.path.exists(VER):
        os.makedirs(DIR)
        sh(f"git clone -q /verif {VER}")
    sh(f"rm -rf {REPO}; git clone -q /repo {REPO}; cp /repo/Cargo.lock {REPO}/")
    # uncommitted work counts
    sh(f"cp -a /verif/harness/src /verif/harness/gen /verif/harness/Cargo.toml {VER}/harness/; cp /verif/known_findings.txt {VER}/")
    for f in ["run.sh"]:
        s = open(f"/verif/{f}").read().replace("cd /repo ", f"cd {REPO} ")
        open(f"{VER}/{f}", "w").write(s)

SWAPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" \* ", " + "), (r" / ", " * "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " /= "), (r" /= ", " *= "), (r" \+= ", " *= "), (r" \*= ", " += "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bis_pos\b", "is_neg"), (r"\bis_neg\b", "is_pos"), (r"\bis_even\b", "is_odd"), (r"\bis_odd\b", "is_even"),
    (r"\bis_one\b", "is_zero"), (r"\bis_zero\b", "is_one"), (r"\bis_int\b", "is_pos"), (r"\bis_neg_one\b", "is_neg"),
    (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bany\b", "all"), (r"\ball\b", "any"), (r"\bfirst\b", "last"), (r"\blast\b", "first"),
    (r"Expr::one\(\)", "Expr::zero()"), (r"Expr::zero\(\)", "Expr::one()"), (r"Rational::ONE", "Rational::ZERO"), (r"Rational::ZERO", "Rational::ONE"), (r"Rational::MINUS_ONE", "Rational::ONE"),
    (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"\bSin\b", "Cos"), (r"\bCos\b", "Sin"),
    (r"\bbase\(\)", "exponent()"), (r"\bexponent\(\)", "base()"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"),
    (r"\bnumer\(\)", "denom()"), (r"\bdenom\(\)", "numer()"), (r"\bnumerator\(\)", "denominator()"), (r"\bdenominator\(\)", "numerator()"),
    (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\b2\b", "1"), (r"\b3\b", "2"), (r"\b4\b", "5"),
    (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.abs\(\)", ""), (r"\.floor\(\)", ".ceil()"), (r"\.ceil\(\)", ".floor()"), (r"\.reduce\(\)", ""), (r"\.expand\(\)", ""),
    (r"\.trig_expand\(\)", ""), (r"\.cancel\(\)", ""), (r"\.factor_out\(\)", ""), (r"\.rationalize\(\)", ""), (r"\.neg\(\)", ""), (r"-&", "&"),
    (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"\bSome\(([a-z_.()]+)\)$", r"None"), (r"Less\b", "Greater"), (r"Greater\b", "Less"),
    (r"\bif (?!let)([^{}]+) \{", r"if !(\1) {"), (r"\bif (?!let)([^{}]+) \{", r"if (\1) && false {"), (r"\bif (?!let)([^{}]+) \{", r"if (\1) || true {"),
    (r" if ([^=]+) =>", r" =>"), (r" if ([^=]+) =>", r" if !(\1) =>"), (r" if ([^=]+) =>", r" if false && \1 =>"),
    (r"^(\s+)(?!return|let|use|pub|type|const|impl|self\s*$)([a-z_]+(\.|\s[-+*/]?=|\().*;)$", r"\1"),
    (r"^(\s+)([A-Z][A-Za-z:]+(\([^()]*\))?( \| [A-Z][A-Za-z:()_]+)*) => ([^{}]+),$", r"\1"),
    (r"\breturn [^;{]+;", ";"),
]

def mutants():
    out = []
    for f in FILES:
        p = os.path.normpath(f"{REPO}/src/{f}")
        lines = open(p).read().split("\n")
        # only lines of the original repository
        blame = sh(f"git -C {REPO} blame -s {p}").stdout.split("\n")
        fn, block = "", False
        for i, l in enumerate(lines):
            # block comments
            if block or l.strip().startswith("/*"):
                block = "*/" not in l
                continue
            if re.match(r"\s*#\[cfg\(test\)\]", l): break
            m = re.search(r"\bfn (\w+)", l)
            if m: fn = m.group(1); continue
            code = l.split("//")[0].rstrip()
            s = code.strip()
            if not blame[i].startswith("^"): continue
            if not s or s.startswith("#") or s.startswith("*") or "println!" in s or "debug_assert" in s or s.startswith("use ") or "macro_rules" in s or "Float" in s or "Infinity" in s or '"oo"' in s: continue
            for a, b in SWAPS:
                for m in re.finditer(a, code):
                    n = code[:m.start()] + m.expand(b) + code[m.end():]
                    if n != code: out.append((p, i, l, n, fn))
    return out

KEYS = [("trig|sin|cos|tan|sec|angle|quadrant", ["C07", "C01"]), ("expand_ln|expand_exp|ln_|exp_|log|contract", ["C08", "C01"]), ("expand|distrib", ["C04", "C10"]), ("deriv", ["C09"]),
        ("common|factor|separate", ["C06", "C05"]), ("cancel|rationalize|numer|denom|fraction", ["C05", "C15"]), ("subs|replace", ["C13"]),
        ("simplify|cost|explore|transf|complexity", ["C10"]), ("hash|cmp|eq|ord", ["C11", "C03"]), ("is_|base|expo|coeff|args|free|term", ["C12", "C02"]), ("serial|seri|visit", ["C17"]), ("fmt|print", ["C16"]),
        ("reduce|sort|accum|merge", ["C02", "C03"]), ("degree|mono|poly|var", ["C14"])]
BYFILE = {"rational.rs": ["C15", "C17"], "sym_fmt.rs": ["C16"], "polynomial.rs": ["C14"], "atom.rs": ["C12", "C01", "C11", "C02"], "lib.rs": ["C18"], "utils.rs": ["C11", "C13"], "transforms.rs": ["C07"]}
ALL = ["C02", "C03", "C12", "C01", "C11", "C04", "C05", "C06", "C07", "C08", "C09", "C13", "C14", "C15", "C16", "C18", "C19", "C17", "C10"]

def order(p, fn):
    o = []
    for k, cs in KEYS:
        if re.search(k, fn): o += cs
    o = o[:3] + BYFILE.get(os.path.basename(p), []) + o + ALL
    return list(dict.fromkeys(o))

def log(s):
    print(s, flush=True)
    open(LOG, "a").write(s + "\n")

env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=DIR + "/tgt", CARGO_RESOLVER_LOCKFILE_PATH="/tmp/mutl/Cargo.lock", CARGO_PROFILE_DEV_DEBUG="0")
setup()
random.seed(SEED)
ms = mutants()
random.shuffle(ms)
log(f"# {len(ms)} mutants, seed {SEED}")
done = 0
for p, i, old, new, fn in ms:
    if done >= COUNT: break
    lines = open(p).read().split("\n")
    assert lines[i] == old
    lines[i] = new
    open(p, "w").write("\n".join(lines))
    try:
        r = sh("cargo test -p calcu-rs --lib --no-run --offline", 120, cwd=REPO, env=env)
        if r.returncode: continue
        r = sh("cargo test -p calcu-rs --lib --no-fail-fast --offline -- --test-threads 8", 60, cwd=REPO, env=env)
        passed = sum(int(x) for x in re.findall(r"(\d+) passed", r.stdout))
        if passed < 26: continue
        done += 1
        t0 = time.time()
        res = None
        for c in order(p, fn):
            r = sh(f"bash run.sh check {c} quick", 900, cwd=VER)
            if r.returncode:
                res = f"{c} rc={r.returncode}"
                break
        name = f"{os.path.relpath(p, REPO)}:{i+1} {fn}"
        log(f"{'caught ' + res if res else 'SURVIVED'} {name} [{time.time()-t0:.0f}s]\n  - {old.strip()}\n  + {new.strip()}")
    finally:
        lines[i] = old
        open(p, "w").write("\n".join(lines))
