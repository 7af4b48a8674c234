#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
NOTE25 = ("The unmodified Python script runs in process against a simulated file system, clock, directory order and failing or killing system calls, "
  "all decided by the seed. The cryptography package is a stub (real SHA-256 and HMAC, a stand-in stream cipher): AES itself is not checked. "
  "A clean run is evidence over the seeds explored, not proof. A call the world does not know ends the check with exit 3.")
checks = [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
  "technique": "deterministic simulation with fault injection (seeded schedule and fault search, model oracle)",
  "level": "exploration",
  "level_note": NOTE25 if p["id"] in check.SCRIPT else "The unmodified C sources run under a simulated kernel; seeds choose configuration, workload, schedule and faults (%s). A clean run is evidence over the seeds explored, not proof. Trusts the simulated kernel, the independent WARC parser and the reference model; process death only between system calls, no power loss." % check.MIX[p["id"]]}
  for p in props if p["id"] in check.MIX or p["id"] in check.SCRIPT]
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] not in check.MIX and p["id"] not in check.SCRIPT],
     "notes": "No hooks in /repo: the seam is the libc symbol boundary of the objects compiled from /repo's sources (build.py)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
