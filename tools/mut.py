#!/usr/bin/env python3
"""Mutation study (development only; no check reads this).

mut.py MUTANTS.py [-s secs] [-j jobs] [-w workers] [name...]
For every mutant (name, props, [(file, old, new), ...]): copy /repo to scratch,
apply, build, run the stable tests, then run the named properties' checks
against the copy.  One line per mutant/property is appended to /tmp/mut/results."""
import sys, os, subprocess, shutil, json, re, argparse, runpy
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("names", nargs="*")
ap.add_argument("-s", default="30"); ap.add_argument("-j", type=int, default=2); ap.add_argument("-w", default="4")
ap.add_argument("-o", default="/tmp/mut/results"); ap.add_argument("-1", dest="first", action="store_true", help="stop at the first property which catches it")
a = ap.parse_intermixed_args()
MUTS = runpy.run_path(a.file)["MUTS"]
stable = set()
def prep():
    global stable
    b = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(b.get("stable", []))
prep()
def one(m):
    name, props, edits = m
    d = "/tmp/mut/w/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    repo = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        for f, old, new in edits:
            s = open(f"{repo}/{f}").read()
            if s.count(old) != 1:
                return f"{name}: EDIT {f} matches {s.count(old)}"
            open(f"{repo}/{f}", "w").write(s.replace(old, new))
        for x in ("build.sh", "test.sh", "steps.py"):
            s = open("/opt/vp/" + x).read().replace("/opt/vp/build.sh", d + "/build.sh").replace("/opt/vp/steps.py", d + "/steps.py").replace("/repo", repo)
            open(f"{d}/{x}", "w").write(s)
        diff = subprocess.run(["git", "-C", repo, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(f"/tmp/mut/{name}.diff", "w").write(diff)
        b = subprocess.run(["bash", d + "/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode:
            return f"{name}: BUILD FAILED " + b.stdout[-600:]
        subprocess.run(["bash", d + "/test.sh", d + "/out.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        o = json.load(open(d + "/out.json"))
        miss = stable - set(o["passed"])
        if miss:
            return f"{name}: TESTS FAIL {sorted(miss)[:3]}"
        res = []
        for p in props:
            env = dict(os.environ, AA_REPO=repo, AA_BUILD=d + "/b", AA_QUICK_S=a.s, AA_WORKERS=a.w, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            v = d + "/verif"
            if not os.path.exists(v):
                os.makedirs(v)
                for x in ("check.py", "build.py", "sim", "compat", "findings", "known_findings.txt", "tools", "properties.jsonl", "MANIFEST.json"):
                    if os.path.exists(f"{HERE}/{x}"):
                        subprocess.run(["cp", "-a", f"{HERE}/{x}", v], check=True)
            r = subprocess.run(["python3", v + "/check.py", p, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            what = ""
            for l in vio[:1]:
                mm = re.search(r"replay=(\S+)", l)
                try:
                    j = json.load(open(mm.group(1)))
                    what = json.dumps(j)[:0]
                except Exception:
                    pass
            tail = [l for l in r.stdout.splitlines() if l.strip()][-6:]
            cls = [l for l in r.stdout.splitlines() if "class" in l.lower()][:2]
            ok = r.returncode == 1 and any(f"property={p} " in l for l in vio)
            res.append(f"{p}={'CAUGHT' if ok else 'MISSED rc=%d' % r.returncode} {' | '.join(cls)[:160]}")
            open(f"/tmp/mut/{name}.{p}.log", "w").write(r.stdout)
            if ok and a.first:
                break
        return f"{name}: " + " ; ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)
todo = [m for m in MUTS if not a.names or m[0] in a.names]
with ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(one, todo):
        print(r, flush=True)
        open(a.o, "a").write(r + "\n")
