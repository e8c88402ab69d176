"""./check determinism [seeds per profile]: every seed is one exactly repeatable execution.

Runs the same (profile, seed) pairs three times: in eight processes, in reverse order in three processes, and in eight
processes with another string hash seed and under CPU load; every event log, schedule, step count and verdict has to be equal."""
import os, subprocess, sys, time
from . import profiles, runner

KEYS = ("status", "kind", "detail", "crc", "schedcrc", "steps", "switches", "nev", "simtime", "counters", "stats")


def main(n=20):
  jobs = [(name, s) for name in sorted(profiles.BYNAME) for s in range(900001, 900001 + n)]
  def sweep(jobs, workers, hashseed="0"):
    pool = runner.Pool(workers, hashseed)
    out = {tuple(r["gen"]): r for r in pool.run(runner.job(i, j) for i, j in enumerate(jobs))}
    pool.close()
    return out
  t0 = time.monotonic()
  a = sweep(jobs, 8)
  b = sweep(jobs[::-1], 3)
  load = [subprocess.Popen([sys.executable, "-c", "while True: pass"]) for _ in range(8)]
  try: c = sweep(jobs, 8, "12345")
  finally:
    for p in load: p.kill(); p.wait()
  bad = 0
  for what, o in (("reverse order, 3 processes", b), ("other hash seed, loaded machine", c)):
    diff = [(k, [x for x in KEYS if a[k].get(x) != o[k].get(x)]) for k in a if any(a[k].get(x) != o[k].get(x) for x in KEYS)]
    print("%s: %d of %d executions differ" % (what, len(diff), len(a)), flush=True)
    for d in diff[:10]: print("  ", d)
    bad += len(diff)
  print("%d profiles, %d executions, %.0f s" % (len(profiles.BYNAME), 3 * len(jobs), time.monotonic() - t0))
  return 1 if bad else 0
