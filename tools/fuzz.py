#!/usr/bin/env python3
"""fuzz.py ID EVIDENCE: the coverage-guided stage of the thorough tier. Builds /verif/fuzz against /repo's current tree with
coverage instrumentation, runs one libFuzzer process per core for VP_FUZZ_S seconds from a random corpus in a scratch directory,
and adds what it covered to the evidence file. Exit 0: held; 1: VIOLATION printed; 2: does not build."""
import sys, os, json, subprocess, tempfile, shutil, random, glob, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID, EV = sys.argv[1], sys.argv[2]
f32 = ID == "C25"
T = V + ("/target-fuzz32" if f32 else "/target-fuzz"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
secs = int(os.environ.get("VP_FUZZ_S", "180")); jobs = int(os.environ.get("VP_FUZZ_JOBS", "8"))
flags = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares"
env = dict(os.environ, CARGO_TARGET_DIR=T, CARGO_INCREMENTAL="0", RUSTFLAGS=flags + (" --cfg stroke_vp_f32" if f32 else ""))
os.makedirs(T, exist_ok=True)
h = subprocess.run("cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum", shell=True, capture_output=True, text=True).stdout
hf = T + "/.repo-hash"
if not os.path.exists(hf) or open(hf).read() != h:
    for triple in ([], ["--target", "x86_64-unknown-linux-gnu"]):
        subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "stroke"] + triple, cwd=V + "/fuzz", env=env, capture_output=True)
b = subprocess.run(["cargo", "build", "--release", "--offline", "--target", "x86_64-unknown-linux-gnu"], cwd=V + "/fuzz", env=env, capture_output=True, text=True)
if b.returncode:
    print(b.stderr[-3000:], file=sys.stderr); sys.exit(2)
open(hf, "w").write(h)
B = T + "/x86_64-unknown-linux-gnu/release/vpfuzz"
if secs == 0: sys.exit(0)
R = os.environ.get("VP_REPLAYS", V + "/replays"); os.makedirs(R, exist_ok=True)
D = tempfile.mkdtemp(prefix="vpfuzz")
try:
    rng = random.Random(f"{ID} {seed}"); procs = []
    for j in range(jobs):
        c = f"{D}/{j}"; os.makedirs(c + "/corpus")
        for i in range(64):
            open(f"{c}/corpus/{i}", "wb").write(rng.randbytes(rng.choice([200, 800, 2400])))
        e = dict(os.environ, VP_PROP=ID, VP_OUT=c + "/stats.json", VP_REPLAY=f"{R}/{ID}-fuzz{j}.replay")
        a = [B, c + "/corpus", f"-max_total_time={secs}", f"-seed={rng.randrange(1, 2**31)}", "-max_len=4000", "-len_control=0", "-rss_limit_mb=3500", "-timeout=600", "-use_value_profile=1", f"-artifact_prefix={c}/", "-verbosity=1", "-print_final_stats=1"]
        procs.append((j, c, e, a, subprocess.Popen(a, env=e, cwd=c, stdout=open(c + "/out", "w"), stderr=open(c + "/err", "w"))))
    bad = None; tot = dict(execs=0, nontrivial=0, distinct=0, edges=0, jobs=jobs, seconds=secs, subs={}); samples = []
    end = time.time() + secs + 120
    for j, c, e, a, p in procs:
        try: p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        out = open(c + "/out").read(); err = open(c + "/err", errors="replace").read()
        if p.returncode == 1 and "VIOLATION" in out:
            bad = bad or out
        elif p.returncode not in (0, -9):
            art = glob.glob(c + "/crash-*") + glob.glob(c + "/timeout-*")
            if art:
                r = subprocess.run([B], env=dict(e, VP_ARTIFACT=art[0]), capture_output=True, text=True)
                bad = bad or (r.stdout if "VIOLATION" in r.stdout else None)
            else:
                print(f"fuzz worker {j} ended with {p.returncode}: {err[-300:]}", file=sys.stderr)
        try: s = json.load(open(c + "/stats.json"))
        except (OSError, ValueError): continue
        for k in ("execs", "nontrivial", "distinct"): tot[k] += s[k]
        for k, v in s["subs"].items(): tot["subs"][k] = tot["subs"].get(k, 0) + v
        cov = re.findall(r"cov: (\d+)", err); tot["edges"] = max([tot["edges"]] + [int(x) for x in cov])
        if s["sample"]: samples.append(s["sample"])
    ev = json.load(open(EV)); cv = ev["coverage"]; cv["fuzz"] = tot
    cv["evaluations"] += tot["execs"]; cv["distinct_nontrivial"] += tot["distinct"]; cv["samples"] += samples[:3]
    ev["wall_s"] = round(ev["wall_s"] + secs, 2)
    if bad: ev["violations"] += 1
    json.dump(ev, open(EV, "w"), indent=1)
    print(f"{ID}: coverage-guided: {tot['execs']} executions, {tot['distinct']} distinct non-trivial, {tot['edges']} edges")
    if bad: print(bad, end=""); sys.exit(1)
finally:
    shutil.rmtree(D, ignore_errors=True)
