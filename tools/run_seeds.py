#!/usr/bin/env python3
"""run_seeds.py [-w WORKERS] [-f FACTOR] [-s SEED] [-a] [ID...]: apply each seeded change to a scratch copy of /repo, build the
harness against it and run the check of its property (-a: every check) as in the quick tier. Never touches /repo."""
import sys, os, json, subprocess, shutil, threading, queue, argparse
ap = argparse.ArgumentParser()
ap.add_argument("-w", type=int, default=3); ap.add_argument("-f", default="20"); ap.add_argument("-s", default="1"); ap.add_argument("-a", action="store_true"); ap.add_argument("--dir", default=None); ap.add_argument("ids", nargs="*")
A = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); B = f"/tmp/seedrun{os.getpid()}"; S = A.dir or V + "/seeded"
ids = [i for i in sorted(os.listdir(S)) if os.path.exists(f"{S}/{i}/patch.diff") and (not A.ids or i in A.ids)]
q = queue.Queue(); [q.put(i) for i in ids]; lock = threading.Lock(); missed = []
def worker(w):
    d = f"{B}/{w}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(f"git clone -q /repo {d}/repo && cp -r {V}/harness {d}/harness && rm -rf {d}/harness/target && sed -i 's#path = \"/repo\"#path = \"{d}/repo\"#' {d}/harness/Cargo.toml", shell=True, check=True)
    env0 = dict(os.environ, CARGO_INCREMENTAL="0", VP_FACTOR=A.f, VERIF_SEED=A.s, VP_REPLAYS=d + "/r", VP_CORPUS=V + "/corpus", RUSTUP_TOOLCHAIN="nightly-2026-08-21-x86_64-unknown-linux-gnu")
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        prop = json.load(open(f"{S}/{i}/meta.json"))["property"]
        r = subprocess.run(["git", "-C", d + "/repo", "apply", f"{S}/{i}/patch.diff"], capture_output=True, text=True)
        res = []; msg = ""
        if r.returncode: msg = "DOES NOT APPLY " + r.stderr
        else:
            for p in ([f"C{k:02d}" for k in range(1, 26)] if A.a else [prop]):
                env = dict(env0); t = d + ("/t32" if p == "C25" else "/t"); env["CARGO_TARGET_DIR"] = t
                if p == "C25": env["RUSTFLAGS"] = "--cfg stroke_vp_f32"
                b = subprocess.run(["cargo", "build", "--release", "--offline", "--bin", "vp"], cwd=d + "/harness", env=env, capture_output=True, text=True)
                if b.returncode: res.append(p + "(build)"); msg = b.stderr[-800:]; continue
                r = subprocess.run([t + "/release/vp", "run", p, d + "/ev.json"], env=env, capture_output=True, text=True)
                if r.returncode:
                    res.append(f"{p}({r.returncode})")
                    if p == prop: msg = " ".join(x.strip() for x in r.stdout.split("\n")[1:2])[:170]
        s = "caught" if f"{prop}(1)" in res else "MISSED"
        with lock:
            if s == "MISSED": missed.append(i)
            print(s, i, f"[{prop}]", " ".join(res), msg, flush=True)
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(A.w)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(B, ignore_errors=True)
print("missed:", *missed)
