#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property by seeded simulation of the code in /repo's working tree:
builds the simulator, runs many episodes in parallel, gates and minimises
every violation, and writes evidence/PROPERTY.json.

exit 0  no episode violated the property
exit 1  VIOLATION line(s) on stdout, each with a replay file that reproduces
other   the check itself went wrong"""
import json, os, subprocess, sys, time, signal, threading, tempfile, re

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

# profile mix per property (profile=weight)
MIX = {
 "C01": "basic=6,segs=4,conc=2,house=1,mix=1,big=1,many=1,alias=1,large=1",
 "C02": "crash=7,alias=1",
 "C03": "ioerr=3,readerr=2",
 "C04": "wprot=3,race=1,mix=2,conc=2,crash=2,ioerr=2,rebuild=1,neg=1,large=1",
 "C05": "basic=4,segs=4,conc=4,crash=2,ioerr=2,mix=2,neg=2,big=1,alias=1,many=1",
 "C06": "race=6,segs=6,conc=5,crash=2,ioerr=4,mix=2,wprot=2,big=1,many=1,large=1",
 "C07": "conc=6,race=2,house=2,mix=2",
 "C08": "reindex=6,crash=2,readerr=1,many=1,alias=1,large=1",
 "C09": "house=4,index=1,bulkidx=1,sizes=1",
 "C10": "index=5,house=2,reindex=2,filter=2,bulkidx=2,readerr=1,large=1",
 "C11": "basic=6,segs=6,conc=4,index=2,big=1",
 "C12": "corrupt=6,readerr=1",
 "C13": "corrupt=6,ioerr=1,readerr=2,segs=1",
 "C14": "stow=1",
 "C15": "stowfail=1",
 "C16": "filter=9,bulkidx=1,readerr=1",
 "C17": "segs=6,conc=5,race=1,crash=4,ioerr=4,big=1,alias=3,large=1",
 "C18": "rebuild=4,readerr=1,many=1",
 "C19": "holds=3,race=2,crash=2,ioerr=3,stowfail=1,conc=3,neg=1,sizes=1",
 "C20": "neg=2,basic=2,segs=1,args=1",
 "C21": "clock=1",
 "C22": "cache=6,wprot=2,many=1",
 "C23": "sizes=5,segs=1,args=1,large=1",
 "C24": "args=6,neg=1",
}
# decided by backup.py, which runs the script utilities/select_silos.py
SCRIPT = ("C25",)
QUICK_S = float(os.environ.get("AA_QUICK_S", "30"))
THOROUGH_S = float(os.environ.get("AA_THOROUGH_S", "600"))
WORKERS = int(os.environ.get("AA_WORKERS", "8"))

RULE = ("One evaluation is one episode: a configuration, a workload of AardWARC commands, an environment, a schedule "
        "policy and a fault plan, all drawn from one seed, run to its end in the simulator and judged by the oracles "
        "after every phase. It is non-trivial if at least two commands ran; episodes are distinct when the hashes of "
        "their complete system-call traces differ.")

def sh(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, ""
    return r.returncode, r.stdout.decode("utf-8", "replace")

def load_findings(prop):
    known, fixed = [], []
    fn = os.path.join(HERE, "known_findings.txt")
    for l in open(fn) if os.path.exists(fn) else []:
        l = l.strip()
        m = re.match(r"known: property=(\S+) class=(\S+) replay=(\S+) (.*)$", l)
        if m and m.group(1) == prop:
            known.append({"class": m.group(2), "replay": os.path.join(HERE, m.group(3)), "text": m.group(4)})
    return known

def items(d, prop, known):
    """the violations of `prop` in one report, listed findings left out"""
    out = [f for f in d.get("fails", []) if prop in f["tags"]]
    for f in d.get("known", []):
        if prop in f["tags"] and not any(f["class"].startswith(k["class"]) for k in known):
            out.append(f)
    return out

class Worker(threading.Thread):
    def __init__(self, exe, prof, seed, step, secs, stop, cmd=None):
        super().__init__(daemon=True)
        self.cmd = cmd or [exe, "run", "-p", prof, "-s", str(seed), "-k", str(step), "-t", str(secs), "-a"]
        self.lines, self.stats, self.rc, self.stop = [], None, None, stop
        self.p = subprocess.Popen(self.cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    def run(self):
        for l in self.p.stdout:
            try:
                d = json.loads(l.decode("utf-8", "replace"))
            except ValueError:
                continue
            if d["t"] == "stats":
                self.stats = d
            else:
                self.lines.append(d)
                self.stop(d)
        self.rc = self.p.wait()

def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            a[k] = a.get(k, 0) + v

def gate(exe, d, prop, known, outdir, minsecs):
    """Reproduce in fresh processes, minimise, reproduce again.  Returns (path, item) or None."""
    want = items(d, prop, known)
    base = os.path.join(outdir, "%s-%s-%d" % (prop, d["profile"], d["seed"]))
    full = base + ".full.json"
    rep = []
    for i in range(2):
        rc, o = sh([exe, "one", "-p", d["profile"], "-s", str(d["seed"]), "-o", full], 240)
        try:
            rep.append(json.loads(o.strip().splitlines()[-1]))
        except (ValueError, IndexError):
            return None
    if rep[0] != rep[1] or not items(rep[0], prop, known):
        return None
    classes = [f["class"] for f in items(rep[0], prop, known)]
    cls = next((f["class"] for f in want if f["class"] in classes), classes[0])
    def reproduces(fn):
        r = []
        for i in range(2):
            rc, o = sh([exe, "replay", fn], 240)
            try:
                r.append(json.loads(o.strip().splitlines()[-1]))
            except (ValueError, IndexError):
                return None
        if r[0] != r[1]:
            return None
        return next((f for f in items(r[0], prop, known) if f["class"] == cls), None)
    path = base + "." + re.sub(r"[^A-Za-z0-9]+", "-", cls) + ".json"
    sh([exe, "minimise", full, path, "-c", cls, "-P", prop, "-t", str(minsecs)], minsecs * 3 + 60)
    f = reproduces(path) if os.path.exists(path) else None
    if f is None:
        path = full
        f = reproduces(path)
        if f is None:
            return None
    return path, f

def script_check(prop, tier, seed):
    """C25: the Python script, simulated in Python."""
    t0 = time.time()
    secs = THOROUGH_S if tier == "thorough" else min(QUICK_S, 40)
    py = [sys.executable, "-B", os.path.join(HERE, "backup.py")]
    first = seed * 10000000 + int(prop[1:]) * 100000
    print("check %s tier=%s seed=%d script simulator" % (prop, tier, seed), flush=True)
    hits, ev, lk = [], threading.Event(), threading.Lock()
    def stop(d):
        with lk:
            hits.append(d)
        ev.set()
    ws = [Worker(None, None, 0, 0, 0, stop, py + ["run", str(first + i), str(secs), str(WORKERS)]) for i in range(WORKERS)]
    for w in ws:
        w.start()
    end = time.time() + secs + 240
    while any(w.is_alive() for w in ws) and time.time() < end and not ev.is_set():
        ev.wait(0.2)
    early = ev.is_set()
    if early:
        time.sleep(1.0)
    for w in ws:
        if w.is_alive() and early:
            w.p.terminate()
    for w in ws:
        w.join(15 if early else max(1.0, end - time.time()))
        if w.is_alive():
            w.p.kill()
            w.join(10)
    bad = [w for w in ws if w.stats is None and not early]
    runtime = time.time() - t0
    outdir = os.path.join(HERE, "replays")
    os.makedirs(outdir, exist_ok=True)
    good, seen, ungated = [], set(), 0
    with lk:
        todo = sorted(hits, key=lambda d: (len(d["fails"]), d["seed"]))
    def rep(args):
        rc, o = sh(py + args, 240)
        try:
            return json.loads(o.strip().splitlines()[-1])
        except (ValueError, IndexError):
            return None
    for d in todo:
        cls = d["fails"][0]["class"]
        if cls in seen or len(good) >= 3:
            continue
        full = os.path.join(outdir, "%s-%d.full.json" % (prop, d["seed"]))
        a, b = rep(["one", str(d["seed"]), full]), rep(["one", str(d["seed"]), full])
        if a is None or a != b or not any(f["class"] == cls for f in a["fails"]):
            ungated += 1
            continue
        path = os.path.join(outdir, "%s-%d.%s.json" % (prop, d["seed"], cls))
        sh(py + ["minimise", full, path, cls, "20"], 120)
        for q in (path, full):
            a, b = (rep(["replay", q]), rep(["replay", q])) if os.path.exists(q) else (None, None)
            f = next((f for f in a["fails"] if f["class"] == cls), None) if a is not None and a == b else None
            if f is not None:
                seen.add(cls)
                good.append((d, (q, f)))
                break
        else:
            ungated += 1
    agg, hashes, states, samples, n = {}, set(), set(), [], 0
    for w in ws:
        if w.stats:
            n += w.stats["n"]
            merge(agg, w.stats["stats"])
            hashes.update(w.stats["hashes"])
            states.update(w.stats["states"])
            samples += w.stats["samples"][:1]
    n = max(n, len(todo))
    for d, g in good:
        samples.insert(0, {"violation": g[1], "replay": g[0], "seed": d["seed"]})
    cov = {"evaluations": n, "distinct_nontrivial": len(hashes),
           "rule": "One evaluation is one episode: silos, quota, surroundings, a series of runs of the script with growth, clock changes and failures between and within them, all drawn from one seed, followed by undisturbed runs until everything was staged. Every episode runs the script at least once; episodes are distinct when the hashes of their complete system-call traces differ.",
           "samples": samples[:6], "seeds": {"first": first, "step": 1, "workers": WORKERS, "count": n},
           "runs_per_hour": round(n * 3600 / max(runtime, 0.1)), "seeds_per_hour": round(n * 3600 / max(runtime, 0.1)),
           "script_runs": agg.get("runs", 0), "script_results": agg.get("results", {}), "undisturbed_runs": agg.get("liveness_runs", 0),
           "simulated_system_calls": agg.get("calls", 0), "simulated_seconds": round(agg.get("sim_s", 0), 3), "faults_fired": agg.get("faults", {}),
           "selection_checks": agg.get("selection_checks", 0), "partial_order_checks": agg.get("partial_checks", 0), "staged_files_verified": agg.get("staged_verified", 0),
           "distinct_archive_states": len(states), "distinct_archive_states_measure": "hash of the staged sizes, the silos' sizes and the outcome after a run",
           "components_real": ["utilities/select_silos.py, unmodified", "Python's buffered I/O, SHA-256 and HMAC"],
           "components_stubbed": ["os, shutil, time and open: an in-memory file system and clock", "the cryptography package: AES-CTR is another stream cipher of the same interface"],
           "stopped_early": early}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": ["a killed run dies between two system calls; what it wrote before is durable (no power loss)", "one run at a time; no silo is larger than the quota",
                           "sampling: absence of a violation is evidence over the seeds run, not a proof"],
           "wall_s": round(time.time() - t0, 1), "violations": len(good)}
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print("%d episodes, %d distinct, %d runs of the script, %.0f s" % (n, len(hashes), agg.get("runs", 0), runtime), flush=True)
    for d, (path, f) in good:
        print("%s (seed %d): %s" % (f["class"], d["seed"], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if good:
        return 1
    if ungated:
        print("ERROR: %d violations did not reproduce from their seed" % ungated)
        return 3
    if bad:
        print("ERROR: %d of %d workers died: %s" % (len(bad), len(ws), [w.rc for w in bad]))
        return 3
    return 0

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = THOROUGH_S if tier == "thorough" else QUICK_S
    if prop in SCRIPT:
        return script_check(prop, tier, seed)
    prof = MIX[prop]
    t0 = time.time()
    exe, thash = B.build()
    print("check %s tier=%s seed=%d profiles %s simulator %s" % (prop, tier, seed, prof, thash), flush=True)
    known = load_findings(prop)
    for k in known:
        rc, o = sh([exe, "replay", k["replay"]], 240)
        try:
            d = json.loads(o.strip().splitlines()[-1])
        except (ValueError, IndexError):
            d = {}
        if any(prop in f["tags"] and f["class"].startswith(k["class"]) for f in d.get("known", [])):
            print("KNOWN-FINDING: property=%s %s (replay %s)" % (prop, k["text"], os.path.relpath(k["replay"], HERE)), flush=True)
        else:
            print("note: listed finding %s was not reproduced by its replay file" % k["class"], flush=True)
    first = seed * 10000000 + int(prop[1:]) * 100000
    tb = time.time()
    hits, ev, lk = [], threading.Event(), threading.Lock()
    def stop(d):
        if items(d, prop, known):
            with lk:
                hits.append(d)
            ev.set()
    ws = [Worker(exe, prof, first + i, WORKERS, secs, stop) for i in range(WORKERS)]
    for w in ws:
        w.start()
    end = time.time() + secs + 240
    tried, good = set(), []
    while any(w.is_alive() for w in ws) and time.time() < end and not ev.is_set():
        ev.wait(0.2)
    if ev.is_set():
        time.sleep(1.0)
    early = ev.is_set()
    for w in ws:
        if w.is_alive() and early:
            w.p.terminate()
    for w in ws:
        w.join(15 if early else max(1.0, end - time.time()))
        if w.is_alive():
            w.p.kill()
            w.join(10)
    bad = [w for w in ws if w.stats is None and not early]
    runtime = time.time() - tb
    outdir = os.path.join(HERE, "replays")
    os.makedirs(outdir, exist_ok=True)
    seen, failed_gate = set(), 0
    tg = time.time()
    with lk:
        todo = sorted(hits, key=lambda d: (len(d["fails"]), d["seed"]))
    for d in todo:
        cl = items(d, prop, known)[0]["class"]
        if cl in seen or len(good) >= 3 or time.time() - tg > 300:
            continue
        g = gate(exe, d, prop, known, outdir, 20 if tier == "quick" else 60)
        if g is None:
            failed_gate += 1
            continue
        seen.add(cl)
        good.append((d, g))
    # evidence
    agg, per, inter, states, hashes, samples = {}, {}, set(), set(), set(), []
    n = checks = knownhits = 0
    for w in ws:
        if w.stats:
            s = w.stats
            n += s["n"]; checks += s["checks"]
            merge(agg, s["stats"]); merge(per, s["profiles"])
            inter.update(s["inter"]); states.update(s["states"]); hashes.update(s["hashes"])
            samples += s["samples"]
        knownhits += sum(1 for d in w.lines if d.get("isknown"))
    n = max(n, len(todo))
    for d, g in good:
        samples.insert(0, {"violation": g[1], "replay": g[0], "profile": d["profile"], "seed": d["seed"]})
    sym = os.path.join(B.BUILD, "symbols-%s.txt" % thash)
    syms = dict(l.strip().split(": ", 1) for l in open(sym) if ": " in l) if os.path.exists(sym) else {}
    cov = {
        "evaluations": n, "distinct_nontrivial": len(hashes), "rule": RULE, "samples": samples[:6],
        "seeds": {"first": first, "step": 1, "workers": WORKERS, "count": n},
        "runs_per_hour": round(n * 3600 / max(runtime, 0.1)), "seeds_per_hour": round(n * 3600 / max(runtime, 0.1)),
        "oracle_checks": checks, "episodes_per_profile": per,
        "commands_run": agg.get("ops", 0), "commands_by_kind": agg.get("opkinds", {}),
        "simulated_processes": agg.get("procs", 0), "simulated_system_calls": agg.get("syscalls", 0),
        "simulated_seconds": round(agg.get("sim_us", 0) / 1e6, 3),
        "faults_fired": agg.get("faults", {}), "environment_actions": agg.get("env", {}),
        "probes": agg.get("probes", {}), "schedule_policies": agg.get("policies", {}),
        "scheduling_decisions": agg.get("decisions", 0), "context_switches": agg.get("switches", 0),
        "distinct_interleavings": len(inter), "distinct_interleavings_measure": "hash of the sequence of (process, system call class, object) over calls on shared objects within one phase",
        "distinct_archive_states": len(states), "distinct_archive_states_measure": "hash of all files below the silo directory at the end of a phase",
        "known_finding_episodes": knownhits,
        "components_real": ["every source file listed in SRCS of /repo/Makefile, unmodified", "zlib", "libmd SHA-256 (streaming)", "libc string, formatting and sorting functions: " + syms.get("passthrough", "")],
        "components_stubbed": ["kernel, file system, processes, pipes, clock and libc I/O: " + syms.get("simulated", ""), "mtree(1), sh(1), ssh(1) as run by stow"],
        "simulator": thash, "stopped_early": bool(early),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": ["a killed process dies between two system calls; what it wrote before is durable (no power loss)",
                           "the simulated kernel behaves like a local POSIX file system: atomic O_APPEND writes, link, rename and O_EXCL",
                           "sampling: absence of a violation is evidence over the seeds run, not a proof"],
           "wall_s": round(time.time() - t0, 1), "violations": len(good)}
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print("%d episodes, %d distinct, %d oracle checks, %.0f s, %d episodes with listed findings" % (n, len(hashes), checks, runtime, knownhits), flush=True)
    for d, (path, f) in good:
        print("%s (profile %s seed %d): %s" % (f["class"], d["profile"], d["seed"], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if good:
        return 1
    if failed_gate:
        print("ERROR: %d violations did not reproduce from their seed" % failed_gate)
        return 3
    if bad:
        print("ERROR: %d of %d workers died: %s" % (len(bad), len(ws), [w.rc for w in bad]))
        return 3
    return 0

if __name__ == "__main__":
    sys.exit(main())
