"""Seeded generation of lockstep scenarios from profiles."""
import random

TOPICS = ["a", "a/b", "a/c", "b", "b/x/y", "a/b/d"]
FILTERS = ["a", "a/b", "a/c", "b", "b/x/y", "a/#", "a/+", "#", "+/b", "b/#", "+", "b/+/y", "a/b/#", "+/+", "+/x/#"]

BASE = {
  "clients": (2, 5), "v4": 0.4, "ws": 0.1, "nops": (12, 40),
  "topics": TOPICS, "filters": FILTERS, "dollar": 0.03, "wfilter": 0.5,
  "qos": [2, 4, 5], "retain": 0.15, "delret": 0.25, "pad": [(8, 60), (1, 150)],
  "props": 0.3, "mei": 0.0, "mei_range": (1, 30), "alias": 0.0, "ret_alias": 0.0,
  "sid": 0.2, "nl": 0.1, "rap": 0.15, "rh": 0.15, "share": 0.0, "special": 0.03, "aid": 0, "echo": 0,
  "odd": 0, "refuse": .08, "more_ports": .12, "clean": 0.3, "sei": [(2, 0), (4, 1000), (1, 0xFFFFFFFF)], "ka": [(1, 0)], "silent": 0.0,
  "rm": [(3, None), (1, 1), (1, 2), (1, 5)], "mps": [(1, None)], "tam": [(1, None)],
  "will": 0.2, "wdi": [(1, None)], "will_retain": 0.2, "disc_rc": 0.0, "disc_sei": 0.0,
  "hold": 0.1, "then": 0.1,
  "ops": {"pub": 30, "sub": 10, "unsub": 4, "conn": 10, "disc": 3, "drop": 4, "batch": 6, "par": 6, "pol": 2, "release": 4, "adv": 2, "dup": 0, "rel": 1,
          "ping": 2, "partial": 2, "takeover": 1, "wall": 0, "bad": 0, "rawbad": 0, "stall": 0, "unstall": 0, "ack": 1, "newpid": 1, "flood": 0, "late": 0},
  "adv": [(4, (0.1, 2.0)), (1, (2.0, 20.0))], "batchn": (2, 6), "batch_fin": 0.3,
  "stalls": [(3, "noread"), (2, "mid"), (1, "slow")], "leaks": False,
  "bigup": 0.0, "edge": 0.0, "over_rm": 0.0, "toobig": 0.0,
  "options": {}, "opt_choices": {}, "anon": 0.05, "net": 0.4, "preempt": [(4, 0.0), (1, 0.002)], "allsub": 0.7, "badkinds": [], "rawkinds": [],
}


def pick(rng, table):
  "table of (weight, value)"
  tot = sum(w for w, _ in table)
  x = rng.random() * tot
  for w, v in table:
    x -= w
    if x < 0: return v
  return table[-1][1]


class Gen:
  def __init__(self, prof, seed):
    self.r = random.Random("%s/%d" % (prof.get("name"), seed))
    self.p = dict(BASE)
    ops = dict(BASE["ops"])
    ops.update(prof.get("ops", {}))
    self.p.update(prof)
    self.p["ops"] = ops
    self.seed = seed
    self.n = 0

  def mid(self, pre="m"):
    self.n += 1
    return "%s%d" % (pre, self.n)

  def chance(self, k):
    return self.r.random() < self.p[k]

  def topic(self):
    if self.chance("dollar"): return "$d/x"
    return self.r.choice(self.ts)

  def filt(self, share_ok):
    r = self.r
    if share_ok and self.chance("share"):
      return "$share/%s/%s" % (r.choice(["g", "h"]), r.choice([f for f in self.fs]))
    if self.chance("special"):
      return r.choice(["test/nosubscribe", "test/QoS 1 only", "test/QoS 0 only", "$d/#", "$d/x"])
    return r.choice(self.fs)

  def qos(self):
    return pick(self.r, list(zip(self.p["qos"], (0, 1, 2))))

  def appprops(self, ver, will=False):
    r, p = self.r, {}
    if ver != 5: return p
    if self.chance("props"):
      if r.random() < .5: p["up"] = [["k%d" % r.randrange(3), "v%d" % r.randrange(9)] for _ in range(r.randrange(1, 4))]
      if r.random() < .3: p["ct"] = r.choice(["text", "x/y"])
      if r.random() < .3: p["rt"] = r.choice(["re/ply", "r"])
      if r.random() < .3: p["cd"] = r.choice(["\x00\x01", "corr"])
      if r.random() < .2: p["pfi"] = r.choice([0, 1])
    if self.chance("mei"): p["mei"] = r.randint(*self.p["mei_range"])
    return p

  def pub(self, c):
    ver = self.vers[c]
    q = {"op": "pub", "c": c, "m": self.mid(), "topic": self.topic(), "qos": self.qos()}
    pad = pick(self.r, self.p["pad"])
    if pad > 60: q["pad"] = self.r.randrange(60, pad)
    if self.chance("retain"):
      q["retain"] = True
      if self.chance("delret"): q["m"] = ""
      q.pop("pad", None) if q["m"] == "" else None
    pr = self.appprops(ver)
    if pr: q["p"] = pr
    if ver == 5 and self.chance("alias"):
      q["ta"] = self.r.randint(1, 2)
      if self.r.random() < .5: q["short"] = True
    if q["m"] == "" and not q.get("retain"): q["m"] = self.mid()
    if self.chance("bigup") and ver == 5:
      q.setdefault("p", {})["up"] = [["k" * self.r.choice([1, 60]), "v" * self.r.choice([100, 126, 127, 128, 300])] for _ in range(self.r.randrange(1, 3))]
    if self.chance("edge") and q["m"] and self.mpss:
      # a payload which makes the packet about as long as some client's maximum packet size
      q["pad"] = max(0, self.r.choice(self.mpss) - self.r.choice([0, 3, 5, 8]) - len(q["topic"]) - self.r.randrange(0, 14))
    if self.chance("over_rm"): q["over"] = True
    if self.p["aid"] and self.chance("aid"):      # the broker's topics for testing clients
      for k in ("retain", "ta", "short", "over"): q.pop(k, 0)
      q["m"] = q["m"] or self.mid()
      q["topic"] = pick(self.r, [(4, "test_qos_1_2_errors"), (5, "test_qos_1_2_errors_pubcomp"), (2, "cmd/disconnectWithRC")])
      if q["topic"].startswith("cmd") and ver == 5:
        q.pop("pad", 0); q.pop("p", 0)
        q["m"] = str(self.r.choice([0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x97, 0x98, 0x9C, 0x9D, 0xA0, 0xA2]))
      elif ver == 5 and self.r.random() < .6: q.setdefault("p", {})["up"] = [["k%d" % i, "v%d" % self.r.randrange(9)] for i in range(self.r.randrange(1, 4))]
    if self.chance("toobig") and ver == 5 and q["m"]:
      q["pad"] = self.r.choice([300, 330, 400]); q["big"] = True
    return q

  def sub(self, c):
    ver = self.vers[c]
    fs, seen = [], set()
    for _ in range(pick(self.r, [(5, 1), (2, 2), (1, 4)])):
      f = self.filt(ver == 5)
      if f in seen and self.r.random() < .6: continue      # a filter may be there twice
      seen.add(f)
      o = {"qos": pick(self.r, [(1, 0), (2, 1), (3, 2)])}
      if ver == 5:
        if self.chance("nl") and not f.startswith("$share"): o["nl"] = True
        if self.chance("rap"): o["rap"] = True
        if self.chance("rh"): o["rh"] = self.r.choice([1, 2])
      fs.append([f, o])
      self.known.setdefault(c, set()).add(f)
    q = {"op": "sub", "c": c, "f": fs}
    if ver == 5 and self.p["echo"] and self.chance("echo"): q["up"] = [["s%d" % i, "v%d" % self.r.randrange(9)] for i in range(self.r.randrange(1, 4))]
    if ver == 5 and self.chance("sid"): q["sid"] = self.r.choice([1, 2, 3, 7, 200, 20000])
    return q

  def unsub(self, c):
    known = sorted(self.known.get(c, ()))
    fs = []
    for _ in range(pick(self.r, [(3, 1), (1, 2), (1, 3)])):
      f = self.r.choice(known) if known and self.r.random() < .8 else self.filt(False)
      if f not in fs or self.r.random() < .4: fs.append(f)
    q = {"op": "unsub", "c": c, "f": fs}
    if self.vers[c] == 5 and self.p["echo"] and self.chance("echo"): q["up"] = [["u%d" % i, "v%d" % self.r.randrange(9)] for i in range(self.r.randrange(1, 4))]
    return q

  def conn(self, c, first=False):
    r, ver = self.r, self.vers[c]
    q = {"op": "conn", "c": c, "clean": self.chance("clean")}
    if ver == 5:
      for k in ("sei", "rm", "mps", "tam"):
        v = pick(r, self.p[k])
        if v is not None: q[k] = v
    q["ka"] = pick(r, self.p["ka"])
    if q["ka"] and self.chance("silent"): q["silent"] = True
    if self.chance("will"):
      w = {"topic": "w/" + c, "m": self.mid("w"), "qos": r.randrange(3)}
      if self.chance("will_retain"): w["retain"] = True
      x = r.random()
      if x < .12: w["topic"] = r.choice(self.ts)
      elif x > .94: w["m"] = ""        # an empty will; retained, it clears a topic
      if ver == 5:
        w["p"] = self.appprops(ver, True)
        d = pick(r, self.p["wdi"])
        if d is not None: w["p"]["wdi"] = d
      q["will"] = w
    if self.chance("net"):
      for k in ("nc", "ns"):
        q[k] = self.netcfg()
    if self.chance("then"):
      q["then"] = [self.req(c) for _ in range(r.randrange(1, 3))]
    return q

  def bad(self, q):
    if q["kind"] == "mut": q["n"] = self.r.randrange(1 << 30)
    return q

  def netcfg(self):
    r = self.r
    return {"lat": r.choice([0.0, 0.0005, 0.01]), "jitter": r.choice([0, 0.001, 0.02]), "seg": r.choice(["whole", "split", "split", "bytes"]),
            "gap": r.choice([0.0, 0.002, 0.004]), "short": r.choice([0, 0, 0.3])}

  def req(self, c):
    k = pick(self.r, [(6, "pub"), (2, "sub"), (1, "unsub"), (1, "ping")])
    return {"op": "ping", "c": c} if k == "ping" else getattr(self, k)(c)

  def disc(self, c):
    q = {"op": "disc", "c": c}
    if self.vers[c] == 5:
      if self.chance("disc_rc"): q["rc"] = self.r.choice([0x04, 0x80, 0x97])
      if self.chance("disc_sei"): q["sei"] = pick(self.r, self.p["sei"])
    return q

  def op(self):
    r = self.r
    k = pick(r, [(w, o) for o, w in self.p["ops"].items()])
    c = r.choice(self.names)
    if k in ("pub", "sub", "unsub", "conn", "disc"): return getattr(self, k)(c)
    if k == "takeover":
      q = self.conn(c); q["to"] = True
      return q
    if k == "drop": return {"op": "drop", "c": c, "how": r.choice(["fin", "rst"])}
    if k == "batch":
      q = {"op": "batch", "c": c, "ops": [self.req(c) for _ in range(r.randint(*self.p["batchn"]))]}
      if r.random() < .3: q["frames"] = [r.randrange(1, 12) for _ in range(8)]
      if r.random() < self.p["batch_fin"]: q["fin"] = True
      elif r.random() < .1: q["ops"].append(self.disc(c))
      return q
    if k == "par":
      l = []
      for x in r.sample(self.names, r.randint(2, min(self.p.get("par_max", 4), len(self.names)))) if len(self.names) > 1 else []:
        j = pick(r, self.p.get("par_mix") or [(12, "pub"), (3, "sub"), (2, "unsub"), (1, "ping"), (3, "batch"), (2, "conn"), (1, "disc"), (2, "drop")] + ([(2, "bad")] if self.p["ops"].get("bad") else []))
        if j == "drop": q = {"op": "drop", "c": x, "how": r.choice(["fin", "rst"])}
        elif j == "ping": q = {"op": "ping", "c": x}
        elif j == "batch": q = {"op": "batch", "c": x, "ops": [self.req(x) for _ in range(r.randint(2, 6))]}
        elif j == "bad": q = self.bad({"op": "bad", "c": x, "kind": r.choice(self.p["badkinds"]), "n": r.randrange(8), "more": r.random() < .5})
        else: q = getattr(self, j)(x)
        if j == "conn":
          q.pop("then", None)
          if r.random() < .6: q["to"] = True
        d = r.choice([0, 0, 0, 0.0003, 0.002, 0.01])
        if d: q["dt"] = d
        l.append(q)
      l.sort(key=lambda q: q["op"] == "bad")
      while len(l) > 1 and l[-2]["op"] == "bad": l.pop()
      q = {"op": "par", "c": c, "ops": l}
      if r.random() < .7:
        q["sync"] = r.choice([0, 0.0002, 0.001, 0.005])
        if r.random() < .2: q["tick"] = True
      return q
    if k == "flood":
      # enough to fill any queue of a sensible size
      return {"op": "flood", "c": c, "topic": self.topic(), "qos": r.choice([1, 1, 2]), "m": self.mid("f"), "n": r.choice([20, 60, 130, 250]), "chunk": r.choice([10, 40])}
    if k == "pol":
      return {"op": "pol", "c": c, "hold": sorted(r.sample(["PUBACK", "PUBREC", "PUBCOMP", "PUBREL"], r.randrange(0, 4)))}
    if k == "release": return {"op": "release", "c": c, "n": r.choice([None, 1, 2]), "order": r.choice(["fifo", "fifo", "lifo", "rand"])}
    if k == "adv": return {"op": "adv", "dt": round(r.uniform(*pick(r, self.p["adv"])), 2)}
    if k == "late":
      q = dict(self.conn(c), op="late", clean=False, off=r.choice([0.3, 0.4, 0.5, 0.7, 1.0, -1.0, -0.8]))
      q.pop("nc", 0), q.pop("ns", 0)
      return q
    if k == "dup": return {"op": "dup", "c": c}
    if k == "rel": return {"op": "rel", "c": c, "pid": r.choice([4242, 65535])}
    if k == "ack": return {"op": "ack", "c": c, "t": r.choice(["PUBACK", "PUBREC", "PUBCOMP"]), "pid": r.choice([60000, 61000])}
    if k == "ping": return {"op": "ping", "c": c}
    if k == "partial":
      q = {"op": "partial", "c": c, "of": self.req(c), "cut": round(r.random(), 3), "then": r.choice(["drop", "rest"]), "how": r.choice(["fin", "rst"])}
      return q
    if k == "wall": return {"op": "wall", "d": r.choice([-3600, -60, -5, 5, 60, 3600, 86400])}
    if k == "newpid": return {"op": "newpid", "c": c, "pid": r.choice([0, 5, 65530, 65534])}
    if k == "bad": return self.bad({"op": "bad", "c": c, "kind": r.choice(self.p["badkinds"]), "n": r.randrange(8), "more": r.random() < .5})
    if k == "stall":
      q = {"op": "stall", "c": c, "kind": pick(r, self.p["stalls"]), "cap": r.choice([1, 100, 400, 700, 1500]), "gap": r.choice([.05, .1, .2])}
      if q["kind"] == "mid": q.update(of=self.req(c), cut=round(r.random(), 3))
      return q
    if k == "unstall": return {"op": "unstall", "c": c, "how": r.choice(["resume", "resume", "fin", "rst"])}
    if k == "rawbad":
      return {"op": "rawbad", "c": c, "kind": r.choice(self.p["rawkinds"]), "n": r.randrange(60) if self.p["rawkinds"] != ["mutconn"] else r.randrange(1 << 30), "dt": r.choice([0.1, 1.0, 5.0]),
              "then": r.choice(["drop", "stay"]), "how": r.choice(["fin", "rst"])}
    raise KeyError(k)

  def wrap_ops(self):
    "some messages stay unfinished at one client while its packet identifiers wrap around"
    r = self.r
    s, o = self.names[0], self.names[1]
    ops = [{"op": "sub", "c": s, "f": [["wrap", {"qos": r.choice([1, 2])}]]},
           {"op": "pol", "c": s, "hold": sorted(r.sample(["PUBACK", "PUBREC", "PUBCOMP"], 2))}]
    k = r.randrange(1, 6)
    for i in range(k):
      ops.append({"op": "pub", "c": o, "topic": "wrap", "qos": r.choice([1, 2]), "m": self.mid()})
    ops.append({"op": "pol", "c": s, "hold": []})
    ops.append({"op": "flood", "c": o, "topic": "wrap", "qos": 1, "m": "f", "n": 65535 - k - r.randrange(0, 3), "chunk": 200})
    # now the identifiers come round, one by one
    ops += [{"op": "pub", "c": o, "topic": "wrap", "qos": r.choice([1, 2]), "m": self.mid()} for _ in range(k + 5)]
    return ops

  def scenario(self):
    r, p = self.r, self.p
    n = r.randint(*p["clients"])
    self.names = ["c%d" % i for i in range(n)]
    self.vers = {c: 4 if r.random() < p["v4"] else 5 for c in self.names}
    self.known = {}
    self.ts = r.sample(p["topics"], min(len(p["topics"]), r.randint(2, 5)))
    self.fs = r.sample(p["filters"], min(len(p["filters"]), r.randint(2, 7)))
    self.fs += r.sample(self.ts, 1)
    self.mpss = [v for _, v in p["mps"] if v]
    clients = {c: {"ver": self.vers[c], "ws": r.random() < p["ws"]} for c in self.names}
    for c in self.names:
      if p["odd"] and self.chance("odd"): clients[c]["odd"] = r.randrange(1 << 30)
    ra = random.Random("anon/%s/%d" % (p.get("name"), self.seed))
    if ra.random() < p["anon"] * 2 and p.get("mode") not in ("admin", "race"):
      for c in self.names:
        if ra.random() < .5: clients[c]["cid"] = ""      # the broker chooses an identifier
    for c in self.names:
      if self.vers[c] == 5 and ra.random() < p["refuse"]: clients[c]["refuse"] = ra.choice([1, 2, 2, 3, 5])   # acknowledges these messages with an error
    more = [1884] if ra.random() < p["more_ports"] else []
    opts = dict(p["options"])
    for k, t in p["opt_choices"].items(): opts[k] = pick(r, t)
    cfg = {"options": opts, "clients": clients, "sched": {"preempt": pick(r, p["preempt"]), "kind": r.choice(["random", "random", "fifo", "lifo"])}}
    if p["leaks"]: cfg["leaks"] = True
    if more: cfg["more_ports"] = more
    if p.get("tls"): cfg["tls"] = True
    for k in ("max_steps", "max_spin", "limit", "nolines"):
      if p.get(k): cfg[k] = p[k]
    if self.chance("net"): cfg["net_s"] = self.netcfg(); cfg["net_c"] = self.netcfg()
    ops = [self.conn(c, True) for c in self.names]
    for c in self.names:
      if self.r.random() < p["allsub"]: ops.append(self.sub(c))
    for c in self.names:
      if r.random() < p["hold"]:
        ops.append({"op": "pol", "c": c, "hold": sorted(r.sample(["PUBACK", "PUBREC", "PUBCOMP", "PUBREL"], r.randrange(1, 4)))})
    for q in p.get("pre", []): ops.append(q)
    while len(ops) < n * 2 + 1: ops.append(self.op())
    for _ in range(r.randint(*p["nops"])): ops.append(self.op())
    if p.get("wrap"): ops[n:] = self.wrap_ops() + ops[n:]
    return {"profile": p.get("name"), "mode": p.get("mode", "lockstep"), "seed": self.seed, "sched_seed": r.randrange(1 << 31), "cfg": cfg, "ops": ops}


def make(name, seed):
  "the scenario of a named profile and seed"
  from . import profiles
  prof = profiles.BYNAME[name]
  mode = prof.get("mode", "lockstep")
  if mode == "lockstep":
    return Gen(prof, seed).scenario()
  import importlib
  return importlib.import_module("dst." + mode).generate(prof, seed)
