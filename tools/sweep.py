#!/usr/bin/env python3
"""Development aid: runs the profiles of properties and lists every run that is not clean, whatever property it belongs to.
sweep.py PROP... [seed=N] [frac=F] [base=N]"""
import os, sys, collections, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
from dst import runner, profiles
kw = dict(a.split("=") for a in sys.argv[1:] if "=" in a)
props = [a for a in sys.argv[1:] if "=" not in a] or sorted(profiles.PROFILES)
for p in props:
  t0 = time.monotonic()
  jobs = runner.plan(p, "quick", int(kw.get("seed", 1)))
  jobs = [j for j in jobs if not profiles.BYNAME[j[0]].get("limit")]
  jobs = jobs[:int(len(jobs) * float(kw.get("frac", 1)))]
  pool = runner.Pool(int(kw.get("jobs", 8)))
  n, bad = collections.Counter(), []
  for r in pool.run(runner.job(i, j) for i, j in enumerate(jobs)):
    n[r["kind"] if r["status"] != "ok" else "ok"] += 1
    if r["status"] != "ok": bad.append(r)
  pool.close()
  print(p, dict(n), "%.0fs" % (time.monotonic() - t0), flush=True)
  for r in bad[:12]: print("  ", r["gen"], r["kind"], r["tags"], r["detail"][-300:] if r["status"] == "error" else r["detail"][:300], flush=True)
