#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {
 "C01": ("property-based testing against the Bernstein sum", ""),
 "C02": ("property-based testing of every evaluator against the Bernstein sum", ""),
 "C03": ("property-based testing against blossom control points; random nested-split histories", ""),
 "C04": ("property-based testing against Bernstein difference formulas", ""),
 "C05": ("property-based testing against certified per-axis extrema (Bernstein branch and bound)", ""),
 "C06": ("property-based testing against certified per-axis extrema (Bernstein branch and bound)", ""),
 "C07": ("property-based testing against an independent clamped projection", ""),
 "C08": ("property-based testing against a certified minimum of the squared-distance polynomial", ""),
 "C09": ("property-based testing against an independent flattening, with metamorphic bounds", ""),
 "C10": ("property-based testing against reference distances with the rounding band left open", ""),
 "C11": ("property-based testing against a decision table, over a grid of (K,C,D) instantiations", ""),
 "C12": ("property-based testing of the domain decision, with an operation-counting scalar bounding the work", ""),
 "C13": ("property-based testing against the recursive Cox-de Boor definition", ""),
 "C14": ("metamorphic property-based testing (locality, hull, affine maps)", ""),
 "C15": ("property-based testing against derivatives of the Cox-de Boor basis functions", ""),
 "C16": ("property-based testing against an independent flattening over the knot domain", ""),
 "C17": ("property-based testing against component-wise reference arithmetic, bit-exact", ""),
 "C18": ("differential property-based testing: user-defined point and scalar types against PointN", ""),
 "C19": ("differential property-based testing: enum against the wrapped curve", ""),
 "C20": ("metamorphic property-based testing across representations of one curve", ""),
 "C21": ("metamorphic property-based testing with affine maps and random hull directions", ""),
 "C22": ("model-based stateful property testing against a plain list of points", ""),
 "C23": ("property-based testing under a counting global allocator", ""),
 "C24": ("property-based fuzzing of all operations over arbitrary finite bit patterns", ""),
 "C25": ("property-based testing of C01-C24 in the 32-bit native-float build", ""),
}
note = ("Random search with shrinking over generated inputs: no absence proof. Trusts the reference implementations in "
        "harness/src/oracle.rs, the first-order rounding bounds used as tolerances, rustc and proptest. Degrees, dimensions and "
        "numbers of control points are sampled from the instantiated set described in DESIGN.md.")
hooks = [l.split()[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines() if l.split(" ", 1)[1].startswith("hook:")]
m = {"version": 1, "setup_cmd": "bash ./check.sh --build",
     "hooks": {"guard": "stroke_vp_f32 (rustc --cfg)", "enable": "RUSTFLAGS='--cfg stroke_vp_f32' cargo build, used by check.sh for C25 only; every other check builds /repo with the guard off", "source_commits": hooks},
     "checks": [{"property": p["id"], "quick_cmd": f"bash ./check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash ./check.sh {p['id']}",
                 "technique": T[p["id"]][0] + "; thorough: further rounds, then coverage-guided fuzzing (libFuzzer) of the same checks", "level": "exploration", "level_note": note} for p in props],
     "not_applicable": [],
     "notes": "Known findings and fixed defects: known_findings.txt. Replay a failure: ./check.sh --replay FILE."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props: jsonschema.validate(p, ps)
for f in sorted(os.listdir(V + "/evidence")) if os.path.isdir(V + "/evidence") else []:
    jsonschema.validate(json.load(open(V + "/evidence/" + f)), json.load(open("/root/.vp/EVIDENCE.schema.json")))
print("ok", hooks)
