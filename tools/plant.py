#!/usr/bin/env python3
"""Plants the bugs described in bugs.py in /repo's working tree, one at a time,
confirms them and keeps them under seeded/<id>/.

  plant.py ID...        plant, confirm, run the check of the property, undo
"""
import json, os, re, subprocess, sys, shutil
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

DEMO_SH = '''#!/bin/bash
# exits 0 when the property holds for the cases in main.rs; run in /repo
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work=/tmp/calcu-demo-@ID@
rm -rf /tmp/calcu-demo-@ID@
mkdir -p "$work/src" || exit 2
cp "$here/main.rs" "$work/src/main.rs" || exit 2
cp "$here/Cargo.lock" "$work/Cargo.lock" || exit 2
cat >"$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
calcu-rs = { path = "$repo" }
serde_json = "1"
END
cd "$work" || exit 2
export CARGO_NET_OFFLINE=true
@FLAGS@CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}" timeout 280 cargo run --quiet --offline
rc=$?
cd /
rm -rf /tmp/calcu-demo-@ID@
exit $rc
'''

MAIN = '''// %s
#![allow(unused)]
use calcu_rs::prelude::*;
use calcu_rs::{expr, Expr};

fn main() {
%s
}
'''

def clean():
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"

def plant(bug):
    bid = bug["id"]
    clean()
    d = os.path.join(ROOT, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH.replace("@ID@", bid).replace("@FLAGS@", 'export RUSTFLAGS="--cfg calcu_mc"\n' if "rubi::mc" in bug["demo"] else ""))
    body = "\n".join("    " + l for l in bug["demo"].strip("\n").split("\n"))
    open(os.path.join(d, "main.rs"), "w").write(MAIN % (bug["breaks"], body))
    shutil.copy(os.path.join(ROOT, "tools", "demo.lock"), os.path.join(d, "Cargo.lock"))
    json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    env = dict(os.environ, DEMO_TARGET="/tmp/demo-target")
    demo = lambda: sh(f"bash {d}/demo.sh", cwd="/repo", env=env)
    r = demo()
    if r.returncode != 0:
        return f"{bid}: demo fails on the unchanged tree\n{r.stdout[-800:]}{r.stderr[-1500:]}"
    try:
        for f, a, b in bug["edits"]:
            p = os.path.join("/repo", f)
            s = open(p).read()
            n = s.count(a)
            if n != 1:
                return f"{bid}: {n} matches of {a!r}"
            open(p, "w").write(s.replace(a, b))
        # only lines of the original repository
        patch = sh("git -C /repo diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode != 0:
            return f"{bid}: does not build\n{r.stderr[-1500:]}"
        r = sh("bash /opt/vp/test.sh /tmp/plant.json")
        t = r.stdout.strip().split("\n")[-1]
        if "26 passed, 0 failed" not in t:
            return f"{bid}: tests: {t}\n" + open("/tmp/plant.json").read()[-600:]
        r = demo()
        if r.returncode == 0:
            return f"{bid}: demo passes with the change\n{r.stdout[-500:]}"
        if "panicked" not in r.stderr and "overflow" not in r.stderr and r.returncode != 124:
            return f"{bid}: demo broken\n{r.stderr[-800:]}"
        r = sh(f"bash run.sh check {bug['property']} quick", cwd=ROOT)
        lines = r.stdout.split("\n")
        v = [l for i, l in enumerate(lines) if l.startswith("VIOLATION") or (i and lines[i - 1].startswith("VIOLATION"))]
        return f"{bid} ({bug['property']}): {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} rc={r.returncode}\n   " + "\n   ".join(x[:220] for x in v[:4]) + ("" if r.returncode == 1 else "\n" + r.stdout[-300:] + r.stderr[-300:])
    finally:
        sh("git -C /repo checkout -- .")

want = sys.argv[1:]
for b in BUGS:
    if b["id"] in want or (want == ["all"]) or any(w.endswith("*") and b["id"].startswith(w[:-1]) for w in want):
        print(plant(b), flush=True)
