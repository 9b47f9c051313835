#!/usr/bin/env python3
"""Writes and validates /verif/seeded/<id>/ from the specs in tools/seeds/*.py (old/new text, demo body, meta)."""
import sys, os, json, subprocess, shutil, glob, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# Builds demo.rs against /repo in a scratch directory and runs it: exit 0 if the property holds on its inputs.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-2026-08-21-x86_64-unknown-linux-gnu}
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" && cp "$D/demo.rs" "$W/src/main.rs"
cat >"$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
stroke = { path = "$PWD" }
num-traits = { version = "0.2", default-features = false }
EOF
export CARGO_TARGET_DIR="$W/target" CARGO_INCREMENTAL=0 RUSTFLAGS="@FLAGS@"
cd "$W" && cargo build -q --offline 2>"$W/log" || { cat "$W/log"; exit 3; }
timeout 60 "$W/target/debug/demo"
'''
PRE = '''#![allow(unused_imports, dead_code, incomplete_features)]
#![feature(generic_const_exprs)]
use stroke::bezier_segment::BezierSegment;
use stroke::{BSpline, Bezier, CubicBezier, LineSegment, Point, PointN, QuadraticBezier, Spline};
type P1 = PointN<f64, 1>; type P2 = PointN<f64, 2>; type P3 = PointN<f64, 3>;
fn p<const N: usize>(a: [f64; N]) -> PointN<f64, N> { PointN::new(a) }
fn near(a: f64, b: f64, tol: f64) { assert!((a - b).abs() <= tol, "got {a:?}, want {b:?}"); }
'''
def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)
def load():
    out = []
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        sp = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        out += m.SEEDS
    return out
def main():
    want = sys.argv[1:]
    R = "/tmp/seedrepo"
    if os.path.isdir(R): shutil.rmtree(R)
    run(["cp", "-a", "/repo", R]); run(["git", "-C", R, "checkout", "-f", "."])
    for s in load():
        if want and s["id"] not in want: continue
        d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
        for f, old, new in s["edits"]:
            path = f"{R}/src/{f}"; t = open(path).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(path, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(run(["git", "-C", R, "diff"]).stdout)
        open(d + "/demo.rs", "w").write(s.get("pre", PRE) + "fn main() {\n" + s["demo"] + "\n}\n")
        open(d + "/demo.sh", "w").write(DEMO_SH.replace("@FLAGS@", s.get("flags", ""))); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # existing tests with the change
        env = dict(os.environ, CARGO_TARGET_DIR=R + "/target", RUSTUP_TOOLCHAIN="nightly-2026-08-21-x86_64-unknown-linux-gnu")
        t = run(["cargo", "test", "--offline", "--lib"], cwd=R, env=env)
        tests = "25 passed; 0 failed" in t.stdout
        bad = run(["bash", d + "/demo.sh"], cwd=R)
        run(["git", "-C", R, "checkout", "-f", "."])
        good = run(["bash", d + "/demo.sh"], cwd=R)
        ok = tests and good.returncode == 0 and bad.returncode not in (0, 3)
        print(("ok   " if ok else "BAD  ") + s["id"], "tests" if tests else "TESTS FAIL", good.returncode, bad.returncode, "" if ok else (t.stdout[-600:] if not tests else "") + t.stderr[-1500:] * (not tests) + good.stdout[-800:] + good.stderr[-800:] + bad.stdout[-500:], (bad.stderr.strip().splitlines() or [""])[1:2], flush=True)
    shutil.rmtree(R)
main()
