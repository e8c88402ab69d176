"""Restarts of a broker with persistence: orderly stops, kills, power failures and disk errors."""
import copy, os, signal
from . import codec, disk, gen as G, kernel, lockstep, seams
from .model import Sess, INF

INTERNAL = "$epoch/n"
TAGS = ("P23",)


class Driver(lockstep.Driver):
  def __init__(self, scn):
    lockstep.Driver.__init__(self, scn)
    self.mods = seams.snapshot_modules()
    self.disk = disk.mount(self.w.sim)
    self.disk.short = scn["cfg"].get("disk_short", 0.0)
    self.nwith, self.withs = 0, {}       # retained messages published while the broker was stopping
    self.saved = ({}, {}, None, {})          # retained, subscriptions without session, epoch: as of the last orderly stop
    self.epoch, self.nepoch = None, 0
    self.nmark = 0

  # -- what the broker ought to keep
  def state(self):
    m = self.model
    ghosts = {k: v for k, v in m.ghosts.items()}
    for s in m.sessions.values():
      if s.sei != 0 and s.skey[1] and s.subs: ghosts[s.skey] = s.subs
    return copy.deepcopy((m.retained, ghosts, self.epoch, self.withs))

  def adopt(self, st):
    m = self.model
    for s in list(m.sessions.values()):
      s.conn = None
      s.dead = True
    m.sessions.clear()
    m.delayed = []
    self.open = []
    m.retained, m.ghosts, self.epoch, self.withs = copy.deepcopy(st)
    m.dead_sessions += 1        # PUBACK reason codes are undetermined from here on
    m.features.add("restart")

  def mark(self):
    "a retained message which tells the states of the broker apart"
    self.nepoch += 1
    self.epoch = self.nepoch
    c = self.helper()
    c.send({"t": "PUBLISH", "topic": INTERNAL, "qos": 1, "pid": 1, "retain": True, "payload": b"%d" % self.epoch, "p": {}})
    if not self.w.sim.run_until(lambda: any(p["t"] == "PUBACK" for p in c.got), 10):
      self.model.fail("unanswered", "%r: PUBLISH not answered" % c, "P23", "P13")
    c.send({"t": "DISCONNECT", "rc": 0})
    self.rest()

  def helper(self):
    c = self.w.client("~mark%d" % self.nmark, ver=5)
    self.nmark += 1
    k = c.connect(None)
    if k is None: self.model.fail("refused", "connection refused after a restart", "P23")
    k.ignored = True
    k.send({"t": "CONNECT", "cid": c.name, "clean": True, "ka": 0}, observe=False)
    if not self.w.sim.run_until(lambda: k.connack or not k.live, 10) or not k.connack:
      self.model.fail("unanswered", "%r: CONNECT not answered" % k, "P23")
    return k

  def read_mark(self):
    k = self.helper()
    k.send({"t": "SUBSCRIBE", "pid": 1, "filters": [(INTERNAL, {"qos": 0}), ("$with/+", {"qos": 0})], "p": {}}, observe=False)
    self.w.sim.run_for(1.0)
    k.send({"t": "DISCONNECT", "rc": 0}, observe=False)
    self.rest()
    ps = [x for x in k.got if x["t"] == "PUBLISH"]
    p = [int(x["payload"]) for x in ps if x["topic"] == INTERNAL]
    return p[0] if p else None, {x["topic"]: x["payload"] for x in ps if x["topic"] != INTERNAL}

  # -- the end of the process
  def o_restart(self, op):
    w, sim, m = self.w, self.sim, self.model
    self.clear_time()
    self.mark()
    kind = op.get("kind", "stop")      # stop, kill, power, stopkill, stoppower, diskfull, eio
    before = self.saved
    now = self.state()
    g, d = w.broker, self.disk
    power = "power" in kind
    sim.count("fault_" + kind if kind != "stop" else "orderly_stop")
    for c in w.conns: c.ignored = True
    late = []
    for q in op.get("with", []):      # concurrent with the end of the process; of topics nobody else uses
      conn = self.live(q)
      if conn is None or getattr(conn, "stalled", False): continue
      pid = conn.client.newpid()
      self.nwith += 1
      if q.get("sub"): p = {"t": "SUBSCRIBE", "pid": pid, "filters": [("$with/s%d" % self.nwith, {"qos": q["qos"]})], "p": {}}
      else:
        p = {"t": "PUBLISH", "topic": "$with/%d" % (self.nwith % 5), "qos": max(1, q["qos"]), "pid": pid, "retain": True, "payload": b"%d" % self.nwith, "p": {}}
        late.append((conn, len(conn.got), p))
      conn.raw(codec.encode(p, conn.ver))
    cands = [before]
    acked, sent = {}, {}
    if kind in ("kill", "power"):
      for _ in range(op.get("steps", 0)):
        if not sim.step(sim.now + 0.3): break
    else:
      if kind in ("stopkill", "stoppower"): d.crash_after = d.writes + op.get("nw", 0)
      if kind in ("diskfull", "eio"):
        d.fail_after, d.fail_kind = d.writes + op.get("nw", 0), "eio" if kind == "eio" else "enospc"
      sim.signal_group(g, signal.SIGTERM)
      over = lambda: d.crashed or g.main.state == kernel.DONE and all(t.state == kernel.DONE or t.daemon for t in g.tasks)
      if not sim.run_until(over, 15.0):
        m.fail("not-stopped", "15 s after SIGTERM the broker still runs", "P23", "P26")
      cands = [now]
      if kind != "stop": cands = [before, now]
      m.stat("stopped_in_time" if not d.crashed else "died_while_stopping")
    for conn, n, p in late:
      sent.setdefault(p["topic"], set()).add(p["payload"])
      if any(x["t"] == "PUBACK" and x["pid"] == p["pid"] and x["rc"] < 0x80 for x in conn.got[n:]): acked.setdefault(p["topic"], set()).add(p["payload"])
    w.crash_broker()
    sim.run_for(0.5)
    for c in w.conns:
      if c.live: c.drop("rst")
    disk.next_boot(d, power)
    seams.restore_modules(self.mods)
    self.disk = disk.mount(sim)
    self.disk.short = self.scn["cfg"].get("disk_short", 0.0)
    sim.run_for(op.get("down", 0.5))
    # process start; it may die again while it starts
    for b in op.get("boot", []):
      self.disk.crash_after = b.get("nw", 0)
      w.launch()
      g = w.broker
      sim.run_until(lambda: self.disk.crashed or g.main.state == kernel.DONE, 1.0)
      for _ in range(b.get("steps", 0)):
        if not sim.step(sim.now + 0.3): break
      if g.main.state == kernel.DONE: m.fail("not-started", "the broker ends when it is started after %s: %s" % (kind, "".join(w.sink.tail)[-500:]), *TAGS)
      sim.count("fault_boot_kill")
      w.crash_broker()
      sim.run_for(0.1)
      disk.next_boot(self.disk, b.get("power", False))
      seams.restore_modules(self.mods)
      self.disk = disk.mount(sim)
    try: w.start_broker()
    except kernel.HarnessError as e:
      m.fail("not-started", "the broker does not start after %s: %s" % (kind, str(e)[-1700:]), *TAGS)
    n, got = self.read_mark()
    ok = [c for c in cands if c[2] == n]
    if not ok:
      m.fail("wrong-state", "after %s the broker has state %s, expected %s" % (kind, n, [c[2] for c in cands]), *TAGS)
    new = ok[0] is now
    for t in set(got) | set(ok[0][3]) | set(acked if new else ()):
      may = {ok[0][3].get(t)} | (sent.get(t, set()) if new else set())
      if new and acked.get(t): may.discard(ok[0][3].get(t))         # replaced
      if got.get(t) not in may:
        m.fail("wrong-state", "after %s the retained message on %s is %r, expected one of %r" % (kind, t, got.get(t), sorted(map(str, may))), *TAGS)
    m.stat("with_acked", sum(map(len, acked.values())))
    ok[0][3].clear()
    ok[0][3].update(got)
    m.stat("restart_" + kind)
    m.stat("state_new" if ok[0] is now else "state_old")
    self.saved = ok[0]
    self.adopt(ok[0])
    m.stat("restored_subs", sum(len(v) for v in m.ghosts.values()))
    m.stat("restored_retained", len(m.retained))
    return True


def generate(prof, seed):
  g = G.Gen(prof, seed)
  r = g.r
  scn = g.scenario()
  scn["cfg"]["persistence"] = True
  scn["cfg"]["disk_short"] = r.choice([0, 0, 0.2])
  ops = scn["ops"]
  n = r.choice([1, 1, 2, 2, 3, 4])
  for i in range(n):
    q = {"op": "restart", "kind": G.pick(r, prof.get("restarts", [(1, "stop")])), "down": r.choice([0.1, 1.0, 5.0])}
    if r.random() < .4: q["with"] = [{"c": r.choice(g.names), "qos": r.choice([1, 1, 2]), "sub": r.random() < .4} for _ in range(r.randrange(1, 6))]
    if q["kind"] in ("kill", "power"): q["steps"] = r.choice([0, 1, 5, 20, 80])
    elif q["kind"] != "stop": q["nw"] = r.choice([0, 1, 2, 3, 5, 8, r.randrange(20)])
    if r.random() < prof.get("bootkill", 0): q["boot"] = [{"nw": r.choice([0, 1, 2, 4, 1000]), "steps": r.choice([0, 3, 20]), "power": r.random() < .5}]
    at = r.randrange(len(g.names), len(ops) + 1)
    back = [dict(g.conn(c), clean=r.random() < .15) for c in r.sample(g.names, r.randint(1, len(g.names)))]
    ops[at:at] = [q] + back
  return scn
