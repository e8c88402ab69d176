"""Many connections of the same client identifiers at the same moment (P09): CONNECTs, ends, errors and traffic of old and new
connections arrive together, in any order the scheduler likes; checked is what holds for every order."""
import random
from . import codec, gen as G, kernel
from .kernel import HarnessError, Violation
from .model import Model
from .net import NetCfg
from .world import World


class Driver:
  def __init__(self, scn):
    self.scn = scn
    self.model = Model(None)
    self.w = World(scn, None)
    self.model.world = self.w
    self.sim = self.w.sim
    self.opidx = -1
    self.ids = {}
    self.pubs = {}          # payload -> [connection, pid] of the messages which the racing connections publish
    self.wills = {}         # payload -> connection
    self.asked = {}         # payload -> identity: messages to the sessions
    self.n = 0
    self.watch, self.pub = [], None

  def fail(self, kind, detail, *tags): self.model.fail(kind, detail, *(tags or ("P09",)))

  def run(self):
    w, sim = self.w, self.sim
    w.start_broker()
    self.watch = [self.fixed("w%d" % v, v) for v in (4, 5)]
    self.pub = self.fixed("pub", 5)
    for i, c in enumerate(self.watch):
      f = [["will/#", {"qos": 1}], ["alive/#", {"qos": 1}]]
      c.conn.send({"t": "SUBSCRIBE", "pid": c.newpid(), "filters": f})
    self.rest()
    if self.scn["cfg"].get("sched", {}).get("preempt"): sim.arm_lines()
    for n, c in self.scn["cfg"]["clients"].items():
      self.ids[n] = dict(ver=c["ver"], cid=n, live=None, subs=set(), known=True, alive=False, ws=c.get("ws", False))
    for i, op in enumerate(self.scn["ops"]):
      self.opidx = i
      sim.ev("OP", i, op["op"])
      if op["op"] == "race": self.race(op)
      else: sim.run_for(op["dt"])
      self.rest()
      self.model.stat("op_" + op["op"])
    self.opidx = len(self.scn["ops"])
    self.finish()

  def fixed(self, name, ver):
    c = self.w.client(name, ver=ver)
    c.connect({"t": "CONNECT", "cid": name, "clean": True, "ka": 0, "p": {"sei": 1000, "rm": 1000} if ver == 5 else {}})
    self.rest()
    if not c.conn.connack: raise HarnessError("no CONNACK for the fixed clients")
    return c

  def rest(self):
    if not self.sim.run_quiet(30.0): self.fail("livelock", "the system did not come to rest within 30 s", "P13", "P09")
    for k in self.w.conns:
      if k.bad: self.fail("malformed-output", "%s: %s" % (k, k.bad), "P12", "P09")
    for c in self.watch + ([self.pub] if self.pub else []):
      if not c.conn.live: self.fail("unexpected-close", "%s, an unconcerned client, was closed by the broker" % c.name, "P13", "P09")

  # ---------------------------------------------------------------- one race
  def race(self, op):
    sim, net = self.sim, self.w.net
    net.gate = []
    plans = []
    for e in op["ids"]:
      d = self.ids.get(e["c"])
      if d is None: continue
      old = d["live"]
      P = dict(d=d, e=e, old=old, new=[], oldend=None)
      plans.append(P)
      if old is not None:
        old.ep.hold()
        net.gate.append(old.ep)
        if e.get("old"): self.act(P, old, e["old"])
      for x in e["new"]:
        c = self.w.client("%s.%d" % (d["cid"], len(self.w.clients)), ver=d["ver"], cid=d["cid"], ws=d["ws"])
        clean = bool(x.get("clean"))
        p = {"t": "CONNECT", "cid": d["cid"], "clean": clean, "ka": 0, "p": {"sei": 0 if clean else 1000} if d["ver"] == 5 else {}}
        if x.get("will"):
          self.n += 1
          p["will"] = {"topic": "will/" + d["cid"], "payload": b"will%d" % self.n, "qos": self.n % 3, "retain": False, "p": {}}
        k = c.connect(p)
        if k is None: self.fail("refused", "%s: connection refused" % c.name, "P13", "P09")
        k.clean, k.end, k.subs, k.discon = clean, None, set(), False
        k.will = p["will"]["payload"] if x.get("will") else None
        if k.will: self.wills[k.will] = k
        P["new"].append(k)
        for a in x.get("then", []): self.act(P, k, a)
    # messages to the sessions meanwhile
    for P in plans:
      d = P["d"]
      if P["e"].get("msg") and d["alive"] and d["known"] and d["subs"]:
        self.n += 1
        m = b"msg%d" % self.n
        self.asked[m] = P
        t = sorted(d["subs"])[0]
        self.pub.conn.send({"t": "PUBLISH", "pid": self.pub.newpid(), "topic": t, "qos": 1, "payload": m, "p": {}})
        P["msg"] = m
    gate, net.gate = net.gate, None
    sim.run_for(0.01)
    t = sim.now + 0.001
    for e in gate: e.unhold(t + op["sync"] * sim.rng.random())
    self.model.stat("simultaneous")
    self.model.stat("racing", sum(len(P["new"]) for P in plans))
    self.rest()
    sim.run_for(0.3)
    for P in plans: self.check(P)

  def act(self, P, k, a):
    "something a connection does in the same burst"
    if k.end: return
    c, d = k.client, P["d"]
    if a == "sub":
      self.n += 1
      f = "x/%s/%d" % (d["cid"], self.n)
      c.conn = k
      k.send({"t": "SUBSCRIBE", "pid": c.newpid(), "filters": [[f, {"qos": 1}]], "p": {}})
      k.subs.add(f)
    elif a == "pub":
      self.n += 1
      m = b"alive%d" % self.n
      pid = c.newpid()
      self.pubs[m] = (k, pid)
      k.send({"t": "PUBLISH", "pid": pid, "topic": "alive/" + d["cid"], "qos": 1, "payload": m, "p": {}})
    elif a == "ping": k.send({"t": "PINGREQ"})
    elif a == "disc":
      k.send({"t": "DISCONNECT"})
      k.end, k.discon = "disc", True
    elif a == "bad":
      k.raw(b"\xf0\x00" if d["ver"] == 4 else b"\x00\x00")
      k.end = "bad"
    elif a in ("fin", "rst"):
      k.end = a
      k.drop(a)

  def check(self, P):
    d, new, old, e = P["d"], P["new"], P["old"], P["e"]
    name = d["cid"]
    every = new + ([old] if old is not None else [])
    live = [k for k in every if k.live and k.end is None]
    for k in every:
      if k.live and k.end in ("disc", "bad"): self.fail("not-closed", "%s: %s, but its connection is open" % (k, k.end), "P09", "P13")
    if len(live) > 1: self.fail("two-connections", "%s has %d connections at once: %s" % (name, len(live), live))
    sure = [k for k in new if not (k.end == "rst" and k.connack is None)]      # a reset may overtake its own CONNECT
    if sure and old in live: self.fail("old-stays", "%s: the old connection %s is open after a new CONNECT" % (name, old))
    if not new and old is not None and old.end is None and not live: self.fail("unexpected-close", "%s was closed, although nothing happened to it" % old)
    if new and all(k.end is None for k in new) and not live: self.fail("none-left", "%s: %d connections came, and none is left" % (name, len(new)))
    for k in new:
      if k.end in ("rst", "fin") : continue      # cannot read any more
      if k.connack is None: self.fail("unanswered", "%s: CONNECT not answered" % k, "P09", "P24")
      if k.connack["rc"] != 0: self.fail("return-code", "%s: CONNACK %r" % (k, k.connack["rc"]))
      n = [p["t"] for p in k.got].count("CONNACK")
      if n > 1: self.fail("unsolicited", "%s got %d CONNACKs" % (k, n))
    for k in every:
      if k in live or k.end is not None: continue
      if k.closed is None: continue
      if d["ver"] == 5:
        x = [p for p in k.got if p["t"] == "DISCONNECT"]
        if len(x) != 1 or x[0]["rc"] != 0x8E: self.fail("no-takeover-reason", "%s was taken over and got %r instead of DISCONNECT 0x8E" % (k, x))
    # requests of connections which are alive have their answers
    s = live[0] if live else None
    if s is not None:
      if s.requests: self.fail("unanswered", "%s: %s not answered" % (s, sorted(s.requests)), "P24", "P09")
      for m, (k, pid) in self.pubs.items():
        if k is s and not any(p["t"] == "PUBACK" and p["pid"] == pid for p in s.got): self.fail("unanswered", "%s: PUBLISH %d not answered" % (s, pid), "P24", "P09")
    # the session
    mixed = any(k.clean for k in new + ([old] if old is not None else []))      # some session may have ended on the way
    if s is not None and s is old: d["subs"] |= s.subs
    elif new:
      if s is not None and s.clean:
        if s.connack["sp"]: self.fail("session-present", "%s: session present after a clean start" % s, "P06", "P09")
        d.update(known=True, subs=set(s.subs))
      elif s is not None and not mixed and d["alive"] and d["known"]:
        if not s.connack["sp"]: self.fail("session-present", "%s: the session is gone" % s, "P06", "P09")
        # the requests of the others may have been carried out or not
        d["maybe"] = set().union(*(k.subs for k in new + ([old] if old else []) if k is not s))
        d["subs"] |= s.subs
      else: d["known"] = False
      d["alive"] = s is not None
      if s is None: d["known"] = False
    elif old is not None:
      if not old.clean: d["maybe"] = d.get("maybe", set()) | old.subs
      else: d.update(alive=False, known=False)
    if P.get("msg") and s is not None and d["known"] and not mixed:
      n = sum(1 for k in self.w.conns if k.client.cid == name for p in k.got if p["t"] == "PUBLISH" and p["payload"] == P["msg"])
      if n == 0: self.fail("missing", "%s: message %r, published while its connections raced, has not arrived" % (name, P["msg"]), "P09", "P01", "P06")
    d["live"] = s
    if s is not None:
      # it is usable
      self.n += 1
      f, c = "y/%s/%d" % (name, self.n), s.client
      c.conn = s
      s.send({"t": "SUBSCRIBE", "pid": c.newpid(), "filters": [[f, {"qos": 1}]], "p": {}}, {"t": "PINGREQ"})
      self.rest()
      if s.requests: self.fail("unanswered", "%s: SUBSCRIBE not answered after the race" % s, "P09", "P24")
      d["subs"].add(f)
      for t in sorted(d["subs"])[-3:] if d["known"] else [f]:
        self.n += 1
        m = b"probe%d" % self.n
        self.pub.conn.send({"t": "PUBLISH", "pid": self.pub.newpid(), "topic": t, "qos": 1, "payload": m, "p": {}})
        self.rest()
        l = [k for k in self.w.conns if k.client.cid == name for p in k.got if p["t"] == "PUBLISH" and p["payload"] == m]
        if l != [s]: self.fail("missing" if not l else "duplicate", "%s: a message to %r arrived at %s, the connection is %s" % (name, t, l, s), "P09", "P01", "P05")
      if not s.live: self.fail("unexpected-close", "%s, the newest connection, was closed" % s)
    self.check_wills()

  def check_wills(self):
    for c in self.watch:
      got = {}
      for p in c.conn.got:
        if p["t"] == "PUBLISH": got[p["payload"]] = got.get(p["payload"], 0) + 1
      for m, n in got.items():
        if n > 1: self.fail("duplicate", "%s got %r %d times" % (c.name, m, n), "P09", "P07")
      for m, k in self.wills.items():
        n = got.get(m, 0)
        over = not (k.live and k.end is None)
        if n and not over: self.fail("will-of-live", "the will %r of %s was published, and its connection is open" % (m, k), "P09", "P07")
        if over and not n and not k.discon and not (k.end == "rst" and k.connack is None): self.fail("will-missing", "%s: the will %r of %s was not published (%s)" % (c.name, m, k, k.end or k.closed), "P09", "P07")
      for m, (k, pid) in self.pubs.items():
        acked = any(p["t"] == "PUBACK" and p["pid"] == pid for p in k.got)
        if acked and not got.get(m): self.fail("missing", "%s: %r of %s was acknowledged and has not arrived" % (c.name, m, k), "P09", "P01")

  def finish(self):
    for c in self.watch + ([self.pub] if self.pub else []):
      c.conn.send({"t": "PINGREQ"})
    self.rest()
    for c in self.watch + ([self.pub] if self.pub else []):
      if not any(p["t"] == "PINGRESP" for p in c.conn.got): self.fail("unanswered", "%s: PINGREQ not answered" % c.name, "P13", "P09")
    for name, d in self.ids.items():
      if d["live"] is not None and not d["live"].live: self.fail("unexpected-close", "%s was closed" % d["live"])
    self.check_wills()


def generate(prof, seed):
  r = random.Random("%s/%d" % (prof["name"], seed))
  def net():
    return {"lat": r.choice([0.0, 0.0005, 0.01]), "jitter": r.choice([0, 0.001, 0.02]), "seg": r.choice(["whole", "whole", "split"]), "gap": r.choice([0.0, 0.0005]), "short": r.choice([0, 0, .3])}
  names = ["c%d" % i for i in range(r.choice([1, 1, 2, 3]))]
  clients = {n: {"ver": r.choice([4, 5]), "ws": r.random() < .15} for n in names}
  ops = []
  for _ in range(r.randrange(2, 7)):
    ids = []
    for n in r.sample(names, r.randint(1, len(names))):
      clean = r.choice([0, 0, 1, .3])
      quiet = r.random() < .5        # no connection ends by itself
      new = []
      for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        x = {"clean": r.random() < clean}
        if r.random() < .6: x["will"] = True
        a = [r.choice(["sub", "pub", "ping"]) for _ in range(r.choice([0, 0, 1, 2]))]
        if not quiet and r.random() < .4: a.append(r.choice(["disc", "fin", "rst", "bad"]))
        if a: x["then"] = a
        new.append(x)
      e = {"c": n, "new": new}
      if r.random() < .6: e["old"] = r.choice(["pub", "sub", "ping", "disc", "fin", "rst", "bad"])
      if r.random() < .5: e["msg"] = True
      ids.append(e)
    ops.append({"op": "race", "ids": ids, "sync": r.choice([0, 0, 0.0002, 0.001, 0.005])})
    if r.random() < .3: ops.append({"op": "wait", "dt": r.choice([0.2, 1.0, 3.0])})
  cfg = {"sched": {"preempt": r.choice([0, 0.02, 0.2, 0.2]), "kind": r.choice(["random", "random", "fifo", "lifo", "pct"])}, "net_s": net(), "net_c": net(), "max_steps": 600000, "clients": clients}
  return {"profile": prof.get("name"), "mode": "race", "seed": seed, "sched_seed": r.randrange(1 << 31), "cfg": cfg, "ops": ops}
