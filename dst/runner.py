"""Check runner: simulated runs of one property on all cores, minimisation, replay files, evidence."""
import argparse, collections, copy, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class Pool:
  "worker processes; jobs are handed out in order, results come back as they finish"
  def __init__(self, n, hashseed="0"):
    self.scratch = tempfile.mkdtemp(prefix="dst-", dir=os.environ.get("TMPDIR") or "/tmp")
    env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1", DST_SCRATCH=self.scratch,
               PYTHONUNBUFFERED="1")
    env.pop("PYTHONSTARTUP", None)
    self.procs = [subprocess.Popen([PY, "-m", "dst.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                   env=env, cwd=VERIF, text=True) for _ in range(n)]
    for p in self.procs:
      line = p.stdout.readline()
      d = json.loads(line) if line else {"fatal": "worker did not start"}
      if "fatal" in d:
        self.close()
        raise RuntimeError(d["fatal"])

  def run(self, jobs, stop=None):
    "jobs: iterator of dicts; yields results"
    it, lock, out = iter(jobs), threading.Lock(), queue.Queue()
    def feed(p):
      while True:
        with lock:
          if stop and stop():
            break
          try: j = next(it)
          except StopIteration: break
        try:
          p.stdin.write(json.dumps(j) + "\n")
          p.stdin.flush()
          line = p.stdout.readline()
          r = json.loads(line)
        except (OSError, ValueError):
          r = {"status": "error", "kind": "worker-died", "detail": "worker process died", "tags": [], "id": j["id"], "gen": j.get("gen")}
          out.put(r)
          break
        out.put(r)
      out.put(None)
    ts = [threading.Thread(target=feed, args=(p,), daemon=True) for p in self.procs]
    for t in ts: t.start()
    left = len(ts)
    while left:
      r = out.get()
      if r is None: left -= 1
      else: yield r

  def close(self):
    for p in self.procs:
      try: p.stdin.close()
      except OSError: pass
      p.kill()
      p.wait()
    shutil.rmtree(self.scratch, ignore_errors=True)


# ------------------------------------------------------------------ minimisation
def same(r, want):
  return r["status"] == "violation" and r["kind"] == want["kind"] and (not want.get("prop") or want["prop"] in r["tags"])


def try_all(pool, scns, want, end=None):
  "index of the first scenario that still fails the same way (none is started after end)"
  res = {}
  late = (lambda: time.monotonic() > end) if end else None
  for r in pool.run([{"id": i, "scn": s, "limit": s["cfg"].get("limit", 30)} for i, s in enumerate(scns)], late):
    res[r["id"]] = r
  for i in range(len(scns)):
    if i in res and same(res[i], want): return i, res[i]
  return None, None


def simpler(scn):
  "candidates with one thing simpler"
  out = []
  def edit(fn):
    s = copy.deepcopy(scn)
    if fn(s) is not False and s != scn: out.append(s)
  for k in ("net_s", "net_c", "net_t"):
    edit(lambda s: s["cfg"].pop(k, None))
  edit(lambda s: s["cfg"].get("sched", {}).update(preempt=0.0))
  edit(lambda s: s["cfg"].get("sched", {}).update(kind="fifo"))
  edit(lambda s: s["cfg"].pop("more_ports", False))
  edit(lambda s: s["cfg"].pop("visual", False))
  edit(lambda s: s.__setitem__("epilogue", False))
  used = json.dumps(scn["ops"])
  for k in list(scn["cfg"].get("options", {})):
    edit(lambda s: s["cfg"]["options"].pop(k))
  vers = {c: d.get("ver", 5) for c, d in scn["cfg"].get("clients", {}).items() if isinstance(d, dict)}
  if len(set(vers.values())) > 1:
    for v in (5,) if "$share" in used else (4, 5):
      edit(lambda s: [d.update(ver=v) for d in s["cfg"]["clients"].values()])
    for c in vers:
      if vers[c] == 4 or "$share" not in used: edit(lambda s: s["cfg"]["clients"][c].update(ver=9 - vers[c]))
  for c in list(scn["cfg"].get("clients", {})):
    if '"%s"' % c not in used: edit(lambda s: s["cfg"]["clients"].pop(c))
    edit(lambda s: s["cfg"]["clients"][c].pop("odd", None) if isinstance(s["cfg"]["clients"][c], dict) and s["cfg"]["clients"][c].get("odd") is not None else False)
    edit(lambda s: s["cfg"]["clients"][c].pop("refuse", None) if isinstance(s["cfg"]["clients"][c], dict) and s["cfg"]["clients"][c].get("refuse") else False)
    edit(lambda s: s["cfg"]["clients"][c].update(ws=False) if isinstance(s["cfg"]["clients"][c], dict) and s["cfg"]["clients"][c].get("ws") else False)
  def walk(ops, path):
    for i, o in enumerate(ops):
      if not isinstance(o, dict): continue
      for k in list(o):
        if k in ("op", "c", "m", "topic", "f", "qos", "t", "kind", "dt"): continue
        edit(lambda s: get(s, path)[i].pop(k, None))
      for k in ("ops", "then"):
        if isinstance(o.get(k), list):
          for j in range(len(o[k])): edit(lambda s: get(s, path)[i][k].pop(j))
      if isinstance(o.get("f"), list) and len(o["f"]) > 1:
        for j in range(len(o["f"])): edit(lambda s: get(s, path)[i]["f"].pop(j))
      if isinstance(o.get("qos"), int) and o["qos"] > 0: edit(lambda s: get(s, path)[i].update(qos=o["qos"] - 1))
  def get(s, path):
    for p in path: s = s[p]
    return s
  walk(scn["ops"], ["ops"])
  return out


def minimise(pool, scn, want, budget):
  end = time.monotonic() + budget
  tried = 0
  best = copy.deepcopy(scn)
  if want.get("op") is not None and want["op"] < len(best["ops"]):
    s = copy.deepcopy(best); s["ops"] = s["ops"][:want["op"] + 1]
    i, _ = try_all(pool, [s], want, end)
    if i is not None: best = s
  n = 2
  while time.monotonic() < end and len(best["ops"]) > 1:
    size = max(1, -(-len(best["ops"]) // n))
    cands = []
    for a in range(0, len(best["ops"]), size):
      s = copy.deepcopy(best); del s["ops"][a:a + size]
      cands.append(s)
    tried += len(cands)
    i, _ = try_all(pool, cands, want, end)
    if i is not None:
      best = cands[i]
      n = max(2, n - 1)
    elif size == 1: break
    else: n = min(len(best["ops"]), n * 2)
  while time.monotonic() < end:
    cands = simpler(best)
    i = None
    for a in range(0, len(cands), 16):
      if time.monotonic() > end: break
      tried += len(cands[a:a + 16])
      i, _ = try_all(pool, cands[a:a + 16], want, end)
      if i is not None:
        best = cands[a + i]
        break
    if i is None: break
  return best, tried


# ------------------------------------------------------------------ known findings
def known_findings():
  f = os.path.join(VERIF, "known_findings.json")
  return json.load(open(f))["findings"] if os.path.exists(f) else []


def matches_finding(k, prop, r):
  return (k["property"] == prop and k["kind"] == r["kind"] and re.search(k["detail"], r["detail"]) is not None
          and (not k.get("profile") or r.get("gen", [""])[0] in k["profile"]))


# ------------------------------------------------------------------ checks
def plan(prop, tier, seed):
  "list of (profile name, seed), profiles interleaved in proportion to their weights"
  from . import profiles
  ps = profiles.PROFILES[prop]
  n = profiles.RUNS.get(prop, profiles.RUNS["*"])
  if tier == "thorough": n *= profiles.THOROUGH
  tot = sum(w for w, _ in ps)
  jobs = []
  for w, p in ps:
    k = max(1, int(n * w / tot))
    base = seed * 1000003 + (500000 if tier == "thorough" else 0)
    jobs += [((i + 0.5) / k if not p.get("limit") else 0, p["name"], base + i) for i in range(k)]
  jobs.sort()
  return [(b, c) for _, b, c in jobs]


def job(i, j):
  from . import profiles
  d = {"id": i, "gen": list(j)}
  lim = profiles.BYNAME[j[0]].get("limit")
  if lim: d["limit"] = lim
  return d


FAULTS = ("net_", "preempt", "bad_", "wall_jump", "fault_")
def merge(acc, d):
  for k, v in d.items(): acc[k] = acc.get(k, 0) + v


def check(prop, tier, seed, jobs_n=8, cap=None, runs=None):
  from . import attrib, profiles
  t0 = time.monotonic()
  cap = cap or (1500 if tier == "thorough" else 420)
  jobs = plan(prop, tier, seed)
  if runs: jobs = jobs[:runs]
  pool = Pool(jobs_n)
  known = known_findings()
  acc = dict(n=0, ok=0, err=[], own=[], other=collections.Counter(), hits={}, stats={}, counters={}, states=set(), crcs=set(), sched=set(), simtime=0.0, steps=0,
             switches=0, nontrivial=set(), perprof=collections.Counter(), samples=[], retry=[], weak=[])
  stop = {"flag": False}
  def handle(r):
    acc["n"] += 1
    acc["perprof"][r["gen"][0]] += 1
    if "crc" in r:
      merge(acc["stats"], r["stats"]); merge(acc["counters"], r["counters"])
      acc["states"].update(r["states"]); acc["crcs"].add(r["crc"]); acc["sched"].add(r["schedcrc"])
      acc["simtime"] += r["simtime"]; acc["steps"] += r["steps"]; acc["switches"] += r["switches"]
      if profiles.nontrivial(prop, r): acc["nontrivial"].add(r["crc"])
    if r["status"] == "ok":
      acc["ok"] += 1
      if len(acc["samples"]) < 2 and profiles.nontrivial(prop, r):
        acc["samples"].append({"profile": r["gen"][0], "seed": r["gen"][1], "steps": r["steps"], "task switches": r["switches"], "sim s": r["simtime"],
                               "faults": {k: v for k, v in r["counters"].items()}, "probes": r["stats"]})
    elif r["status"] == "violation":
      if prop in r["tags"]:
        k = next((k for k in known if matches_finding(k, prop, r)), None)
        if k: acc["hits"].setdefault(k["id"], []).append(r)
        else:
          acc["own"].append(r)
          stop["flag"] = True
      else:
        acc["other"][r["kind"]] += 1
        if os.environ.get("VERIF_SHOW_OTHER"): print("other:", r["gen"], r["kind"], r["detail"], r["tags"], file=sys.stderr)
        if attrib.applies(prop, r["scn"], r["kind"]):
          acc["weak"].append(r)
          if len(acc["weak"]) >= 40: stop["flag"] = True
    else: acc["retry"].append(r)
  try:
    late = lambda: stop["flag"] or time.monotonic() - t0 > cap
    for r in pool.run((job(i, j) for i, j in enumerate(jobs)), late): handle(r)
    # a run that ended with an error (a killed process, say) is tried once more
    if acc["retry"] and not acc["own"]:
      again, acc["retry"] = acc["retry"][:20], []
      acc["n"] -= len(again)
      alive = [p for p in pool.procs if p.poll() is None]
      if len(alive) < len(pool.procs):
        pool.close()
        pool = Pool(jobs_n)
      for r in pool.run((job(i, r["gen"]) for i, r in enumerate(again))): handle(r)
    out = []
    code = 0
    replays = []
    mini = {}
    if acc["weak"] and not acc["own"]:
      attribute(pool, prop, acc, known, mini)
    if acc["own"]:
      seen = set()
      for r in sorted(acc["own"], key=lambda r: len(r["scn"]["ops"])):
        if r["kind"] in seen or len(seen) >= 2: continue
        seen.add(r["kind"])
        want = {"kind": r["kind"], "prop": prop, "op": r.get("op")}
        if id(r) in mini: small, tried, want["prop"] = mini[id(r)] + (None,)
        else: small, tried = minimise(pool, r["scn"], want, 60)
        _, fin = try_all(pool, [small], want)
        if fin is None: small, fin = r["scn"], r
        path = write_replay(prop, tier, r, small, fin, tried)
        replays.append(path)
        out.append("VIOLATION property=%s replay=%s" % (prop, path))
        out.append("  %s: %s" % (fin["kind"], fin["detail"][:600]))
        out.append("  found by profile %s seed %d; minimised from %d to %d operations" % (r["gen"][0], r["gen"][1], len(r["scn"]["ops"]), len(small["ops"])))
      code = 1
    for kid, rs in sorted(acc["hits"].items()):
      k = next(k for k in known if k["id"] == kid)
      out.append("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, k["what"], len(rs)))
  finally:
    pool.close()
  if code == 0:
    bad = acc["retry"]
    decided = acc["ok"] + sum(len(v) for v in acc["hits"].values())
    if bad:
      out.append("ERROR: %d runs ended with an error of the harness: %s" % (len(bad), bad[0]["detail"][-1500:]))
      code = 2
    elif decided < 0.25 * len(jobs):
      out.append("ERROR: only %d of %d planned runs decided the property (%d executed; other deviations: %s)" % (decided, len(jobs), acc["n"], dict(acc["other"])))
      code = 2
  wall = time.monotonic() - t0
  write_evidence(prop, tier, seed, acc, jobs, wall, replays)
  out.append("%s %s: %d runs, %d clean, %d violations, %d deviations that other properties report, %d distinct executions, %.0f s simulated, %.1f s" %
             (prop, tier, acc["n"], acc["ok"], len(acc["own"]), sum(acc["other"].values()), len(acc["crcs"]), acc["simtime"], wall))
  print("\n".join(out))
  return code


def attribute(pool, prop, acc, known, mini):
  "deviations without the property's tag: are they the property's after minimisation?"
  from . import attrib
  per = collections.Counter()
  t0 = time.monotonic()
  for r in sorted(acc["weak"], key=lambda r: r.get("op") or 999):
    if per[r["kind"]] >= 3 or sum(per.values()) >= 6 or time.monotonic() - t0 > 180: continue
    per[r["kind"]] += 1
    want = {"kind": r["kind"], "op": r.get("op")}
    small, tried = minimise(pool, r["scn"], want, 45)
    _, fin = try_all(pool, [small], want)
    if fin is None or not attrib.applies(prop, small, fin["kind"]): continue
    if any(matches_finding(k, p, fin) for k in known for p in fin["tags"]): continue
    mini[id(r)] = (small, tried)
    acc["own"].append(r)
    acc["other"][r["kind"]] -= 1
    break


def write_replay(prop, tier, r, small, fin, tried):
  d = os.path.join(VERIF, "replays")
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, "%s-%s-%s.json" % (prop, fin["kind"], r["gen"][1]))
  with open(path, "w") as f:
    json.dump({"property": prop, "kind": fin["kind"], "detail": fin["detail"], "crc": fin["crc"], "found_by": r["gen"], "minimisation_runs": tried,
               "original_ops": len(r["scn"]["ops"]), "scenario": small}, f, indent=1)
  return path


def write_evidence(prop, tier, seed, acc, jobs, wall, replays):
  from . import profiles
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  info = profiles.info(prop)
  e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(acc["own"]),
       "coverage": {
         "evaluations": acc["n"], "distinct_nontrivial": len(acc["nontrivial"]), "rule": info["rule"], "samples": acc["samples"],
         "planned_runs": len(jobs), "clean_runs": acc["ok"], "runs_per_profile": dict(acc["perprof"]),
         "runs_per_hour": int(acc["n"] / max(wall, .001) * 3600), "simulated_seconds": round(acc["simtime"], 1),
         "scheduler_steps": acc["steps"], "task_switches": acc["switches"],
         "distinct_executions": len(acc["crcs"]), "distinct_schedules": len(acc["sched"]), "distinct_abstract_states": len(acc["states"]),
         "faults_and_conditions_fired": dict(sorted(acc["counters"].items())), "probes": dict(sorted(acc["stats"].items())),
         "deviations_of_other_properties": dict(acc["other"]), "known_finding_runs": {k: len(v) for k, v in acc["hits"].items()},
         "real_code": info["real"], "stubbed": info["stub"], "replays": replays},
       "assumptions": info["assumptions"]}
  with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(e, f, indent=1)


def replay(path):
  d = json.load(open(path))
  pool = Pool(1)
  try:
    scn = dict(d["scenario"], keep_log=True)
    r = next(iter(pool.run([{"id": 0, "scn": scn}])))
  finally:
    pool.close()
  print("\n".join(r.get("log", [])[-60:]))
  if r["status"] == "violation" and r["kind"] == d["kind"] and r["crc"] == d["crc"]:
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    print("  %s: %s (execution %08x, exactly as recorded)" % (r["kind"], r["detail"], r["crc"]))
    return 1
  print("not reproduced: %s" % {k: r.get(k) for k in ("status", "kind", "detail", "crc")})
  return 0 if r["status"] == "ok" else 2


def main():
  a = argparse.ArgumentParser()
  a.add_argument("what")
  a.add_argument("arg", nargs="?")
  a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
  a.add_argument("--jobs", type=int, default=min(16, os.cpu_count() or 8))
  a.add_argument("--runs", type=int)
  o = a.parse_args()
  try:
    if o.what == "replay": return replay(o.arg)
    if o.what == "determinism":
      from . import determinism
      return determinism.main(int(o.arg or 20))
    return check(o.what, o.tier, o.seed, o.jobs, runs=o.runs)
  except RuntimeError as e:
    print("ERROR: %s" % e)
    return 2


if __name__ == "__main__":
  sys.exit(main())
