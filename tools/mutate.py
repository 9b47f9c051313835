#!/usr/bin/env python3
"""mutate.py OUT [WORKERS [LIMIT [SEED]]]: systematic mutation of /repo's sources in scratch copies under /tmp/mut.
A mutant counts when it compiles and passes the existing tests; the checks then run on it at a low case count until
one reports a violation. Survivors are listed in OUT for inspection (many are equivalent). Never touches /repo."""
import sys, os, re, subprocess, shutil, random, threading, queue, json
OUT = sys.argv[1]; W = int(sys.argv[2]) if len(sys.argv) > 2 else 4
LIMIT = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9; SEED = int(sys.argv[4]) if len(sys.argv) > 4 else 1
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); B = "/tmp/mut"
FILES = ["line.rs", "quadratic_bezier.rs", "cubic_bezier.rs", "bezier.rs", "bezier_segment.rs", "bspline.rs", "point_generic.rs"]
ORDER = {"line.rs": "C02 C07 C05 C06 C03 C04", "quadratic_bezier.rs": "C02 C05 C06 C08 C09 C10 C03 C04", "cubic_bezier.rs": "C02 C05 C06 C08 C09 C10 C03 C04",
         "bezier.rs": "C01 C03 C04 C08 C09 C22", "bezier_segment.rs": "C19", "bspline.rs": "C13 C12 C11 C15 C16", "point_generic.rs": "C17"}
def muts(line):
    out = []
    def sub(pat, rs):
        for m in re.finditer(pat, line):
            for r in (rs if isinstance(rs, list) else [rs]):
                new = m.expand(r) if "\\" in r else r
                out.append(line[:m.start()] + new + line[m.end():])
    sub(r" \+ ", " - "); sub(r" - ", " + "); sub(r" \* ", " / "); sub(r" / ", " * "); sub(r" \+= ", " -= "); sub(r" -= ", " += ")
    sub(r" < ", [" <= ", " > "]); sub(r" <= ", [" < ", " >= "]); sub(r" > ", [" >= ", " < "]); sub(r" >= ", [" > ", " <= "]); sub(r" == ", " != "); sub(r" != ", " == ")
    sub(r" && ", " || "); sub(r" \|\| ", " && "); sub(r"\.\.=", ".."); sub(r"\.min\(", ".max("); sub(r"\.max\(", ".min(")
    sub(r"\b0\.0\b", ["1.0", "1e-9"]); sub(r"\b([1-9]\d*)\.0\b", [r"(\1.0 + 1.0)", r"(\1.0 + 1e-9)"])
    sub(r"(?<![\w.])(\d+)(?![\w.])", [r"(\1 + 1)"]); sub(r"\bEPSILON\b", "(EPSILON * 1e6)")
    sub(r"\bif ([^{]+) \{", ["if true || (\\1) {", "if false && (\\1) {"])
    sub(r"\bself\.start\b", "self.end"); sub(r"\bself\.end\b", "self.start"); sub(r"\bself\.ctrl1\b", "self.ctrl2"); sub(r"\bself\.ctrl2\b", "self.ctrl1"); sub(r"\bself\.ctrl\b", "self.start")
    s = line.strip()
    if s.endswith(";") and not s.startswith(("let", "return", "use", "type", "const", "pub", "fn")): out.append("\n")
    if s in ("break;", "continue;"): out.append("\n")
    return [o for o in out if o != line]
def main():
    jobs = []
    for f in FILES:
        dead = False
        for i, l in enumerate(open(f"/repo/src/{f}").read().split("\n")):
            # functions nothing public reaches
            if re.match(r"    (pub |pub\(crate\) )?fn ", l) or "fn " in l: dead = "fn solve_t_for_axis" in l or (f == "cubic_bezier.rs" and "fn real_roots" in l)
            if dead: continue
            if l.startswith("#[cfg(test)]") or l.startswith("mod tests"): break
            s = l.strip()
            if not s or s.startswith(("//", "use ", "#", "pub fn", "fn ", "impl", "where", "type ", "const ")): continue
            code = l.split("//")[0]
            for m in dict.fromkeys(muts(code)): jobs.append((f, i, l, m))
    random.Random(SEED).shuffle(jobs); jobs = jobs[:LIMIT]
    done = set(tuple(x.strip() for x in l.split(" | ")[1:]) for l in open(OUT)) if os.path.exists(OUT) else set()
    jobs = [j for j in jobs if (f"{j[0]}:{j[1]+1}", j[2].strip(), j[3].strip()) not in done]
    print(len(jobs), "mutants", flush=True)
    orig = {f: open(f"/repo/src/{f}").read() for f in FILES}
    q = queue.Queue(); [q.put(j) for j in jobs]; lock = threading.Lock(); count = {}
    def worker(w):
        d = f"{B}/{w}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run(f"git clone -q /repo {d}/repo && cp -r {V}/harness {d}/harness && rm -rf {d}/harness/target", shell=True, check=True)
        t = open(f"{d}/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{d}/repo"').replace("opt-level = 2", "opt-level = 1")
        open(f"{d}/harness/Cargo.toml", "w").write(t)
        env = dict(os.environ, CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=d + "/t", CARGO_BUILD_JOBS="2", VP_FACTOR="1.5", VP_REPLAYS=d + "/r", VP_CORPUS=d + "/none", VP_WATCHDOG="300", RUSTUP_TOOLCHAIN="nightly-2026-08-21-x86_64-unknown-linux-gnu")
        def run(c, t, cwd):
            try: return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
            except subprocess.TimeoutExpired: return None
        while True:
            try: f, i, l, m = q.get_nowait()
            except queue.Empty: return
            p = f"{d}/repo/src/{f}"; src = orig[f]; lines = src.split("\n"); assert lines[i] == l
            lines[i] = m; open(p, "w").write("\n".join(lines))
            r = run("cargo test --offline --lib", 300, d + "/repo")
            if r is None: st = "test-timeout"
            elif r.returncode: st = "no-compile" if "could not compile" in r.stderr else "tests"
            else:
                b = run("cargo build --release --offline --bin vp", 600, d + "/harness")
                if b is None or b.returncode: st = "harness-no-compile"
                else:
                    st = "SURVIVED"; first = ORDER[f].split()
                    for c in first + [x for x in (f"C{k:02d}" for k in range(1, 25)) if x not in first]:
                        r = run(f"{d}/t/release/vp run {c} {d}/ev.json", 400, d)
                        if r is None or r.returncode == 1 or r.returncode < 0: st = "caught " + c; break
                        if r.returncode: st = f"error {c} {r.returncode}"; break
            open(p, "w").write(src)
            with lock:
                k = st.split()[0]; count[k] = count.get(k, 0) + 1
                with open(OUT, "a") as o: o.write(f"{st} | {f}:{i+1} | {l.strip()} | {m.strip()}\n")
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(json.dumps(count)); shutil.rmtree(B, ignore_errors=True)
main()
