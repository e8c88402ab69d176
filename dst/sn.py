"""MQTT-SN datagrams into the broker while MQTT clients are served."""
import errno, random
from . import gen as G, lockstep
from .lockstep import payload
from .world import SN_PORT

TOPICS = ["ab", "xy", "a/", "/a", "b/", "//", "\u00e9", "$S"]
FILTERS = ["ab", "xy", "#", "+", "a/+", "+/", "/+", "+/+", "a/#", "/#", "b/#", "//", "\u00e9", "$S", "$S/#", "+/#"]


class By:
  def __init__(self, n): self.key = ("SN", n)


def message(mtype, body, long=False):
  n = len(body) + 2
  if long or n > 255: return b"\x01" + (n + 2).to_bytes(2, "big") + bytes([mtype]) + body
  return bytes([n, mtype]) + body


def publish(q, topicid=None, idtype=2):
  t = q["topic"].encode() if topicid is None else topicid
  qos = q.get("qos", -1)
  fl = (bool(q.get("dup")) << 7) | ((3 if qos == -1 else qos) << 5) | (bool(q.get("retain")) << 4) | q.get("bits", 0) << 2 | idtype
  return message(0x0C, bytes([fl]) + t + q.get("mid", 0).to_bytes(2, "big") + payload(q), q.get("long", False))


def connect(q):
  fl = (bool(q.get("clean")) << 2) | q.get("bits", 0)
  return message(4, bytes([fl, q.get("proto", 1)]) + (60).to_bytes(2, "big") + q["cid"].encode(), q.get("long", False))


def bad(kind, n, seed):
  r = random.Random(seed)
  good = {"topic": "ab", "m": "xBAD"}
  if kind == "empty": return b""
  if kind == "one": return bytes([n % 256])
  if kind == "lenform": return [b"\x01", b"\x01\x00", b"\x01\x00\x05", b"\x01\xff\xff\x0c", b"\x01\x00\x00\x00"][n % 5]
  if kind == "garbage": return bytes(r.randrange(256) for _ in range(1 + n % 60))
  if kind == "cut":
    x = publish(dict(good, long=n % 3 == 0))
    return x[:1 + n % (len(x) - 1)]
  if kind == "cutconn":
    x = connect({"cid": "cutclient"})
    return x[:1 + n % (len(x) - 1)]
  if kind == "tail": return publish(good) + bytes(1 + n % 5)
  if kind == "taillen": return bytes([max(2, len(publish(good)) - 1 - n % 3)]) + publish(good)[1:]
  if kind == "wild": return publish(good, topicid=[b"a+", b"#a", b"/#", b"+/", b"##", b"+#"][n % 6])
  if kind == "nul": return publish(good, topicid=[b"\0\0", b"a\0", b"\0b"][n % 3])
  if kind == "utf8": return publish(good, topicid=[b"\xff\xfe", b"a\xc3", b"\xed\xa0", b"\xc0\x80"][n % 4])
  if kind == "idtype": return publish(good, idtype=[0, 1, 3][n % 3])
  if kind == "qos12": return publish(dict(good, qos=1 + n % 2, mid=7))
  if kind == "type": return message([0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 29, 30, 0xFD, 0xFE, 0xFF][n % 30], bytes([n % 7]) * (n % 9))
  if kind == "stranger": return publish(dict(good, qos=0))      # QoS 0 from an address that never connected
  raise KeyError(kind)

BAD = ["empty", "one", "lenform", "garbage", "cut", "cutconn", "tail", "taillen", "wild", "nul", "utf8", "idtype", "qos12", "type", "stranger"]


class Driver(lockstep.Driver):
  def __init__(self, scn):
    lockstep.Driver.__init__(self, scn)
    self.at = {}          # address number -> client id connected there
    self.got = []
    self.nby = 0

  def addr(self, a):
    port = 50000 + a
    if port not in self.w.net.udp: self.w.net.udp[port] = lambda data, src, a=a: self.reply(a, data)
    return ("10.0.1.%d" % a, port)

  def reply(self, a, data):
    self.sim.ev("SN<", a, data.hex())
    self.got.append((a, data))

  def listener(self):
    s = self.w.net.udp.get(SN_PORT)
    if s is None or s._closed: self.model.fail("sn-listener-gone", "nothing listens on the MQTT-SN port any more", "P25")
    return s

  def transmit(self, a, data, delay, effect=None):
    src = self.addr(a)
    def arrive():
      s = self.listener()
      self.sim.ev("SN>", a, data[:24].hex())
      self.sim.count("sn_datagram")
      if effect: effect()
      s._dgram(data, src)
    self.sim.at(self.sim.now + 0.0005 + delay, arrive, net=True)

  # -- operations
  def o_snconn(self, op):
    "one CONNECT, perhaps duplicated or lost"
    self.listener()
    a, cid = op["a"], op["cid"]
    n = 0 if op.get("lost") else op.get("n", 1)
    ok = op.get("proto", 1) == 1
    exp = []
    for i in range(n):
      self.transmit(a, connect(op), op.get("gap", 0.0) * i)
      if not ok: exp.append(1); self.at.pop(a, None)
      elif a in self.at: del self.at[a]       # a second CONNECT ends the session
      elif cid == "" and not op.get("clean"): exp.append(2)
      else:
        for b in [b for b, x in self.at.items() if x == cid and cid]: del self.at[b]
        self.at[a] = cid
        exp.append(0)
    self.got = []
    self.sim.count("fault_sn_lost" if n == 0 else "fault_sn_duplicated" if n > 1 else "sn_connect")
    self.rest()
    want = [(a, bytes([3, 5, rc])) for rc in exp]
    if self.got != want:
      self.model.fail("sn-connack", "CONNECT x%d got %r, expected %r" % (n, [(b, d.hex()) for b, d in self.got], [(b, d.hex()) for b, d in want]), "P25")

  def o_sn(self, op):
    "datagrams in any order, and MQTT publishes, all at about the same time"
    m = self.model
    self.listener()
    self.got = []
    for q in op["d"]:
      if q.get("kind") == "bad":
        self.transmit(q["a"] + (20 if q["bad"] == "stranger" else 0), bad(q["bad"], q["n"], q["seed"]), q.get("dt", 0.0))
        self.sim.count("bad_sn_" + q["bad"])
        continue
      if q.get("qos", -1) == 0 and q["a"] not in self.at:
        q = dict(q, m="xBAD")          # not a client: not forwarded
        self.transmit(q["a"], publish(q), q.get("dt", 0.0))
        continue
      if q.get("lost"):
        self.sim.count("fault_sn_lost")
        continue
      dts = [q.get("dt", 0.0)] + q.get("more", [])
      if len(dts) > 1: self.sim.count("fault_sn_duplicated", len(dts) - 1)
      for dt in dts:
        def effect(q=q):
          self.nby += 1
          m.stat("sn_publish")
          m.route(By(self.nby), q["topic"], payload(q), 0, bool(q.get("retain")), {}, self.sim.now, ("SN", self.nby), "sn", 4)
        self.transmit(q["a"], publish(q), dt, effect)
    for q in op.get("with", []):
      conn = self.live(q)
      if conn is not None: self.sim.at(self.sim.now + q.get("dt", 0.0), lambda conn=conn, q=q: self.live(q) is conn and self.send_sub(conn, q))
    if op.get("err"):
      self.w.net.udp_errors = op["err"]
    self.sim.run_for(max([0.0] + [max([q.get("dt", 0.0)] + q.get("more", [])) for q in op["d"]] + [q.get("dt", 0) for q in op.get("with", [])]) + 0.002)
    # which of the concurrent messages came first is not determined: QoS 0 may have met a full window
    for s in m.sessions.values():
      if s.conn is not None and m.busy(s) >= s.conn.rm:
        for e in s.pend:
          if e.qos == {0}:
            if e.share: e.share.maybe_lost = True
            else: e.must = False
    self.rest()
    self.w.net.udp_errors = 0
    if self.got:
      m.fail("sn-unsolicited", "datagrams nobody asked for: %r" % [(a, d.hex()) for a, d in self.got], "P25")

  def epilogue(self):
    # the listener still serves
    c = next((c for c in self.w.clients.values() if self.live({"c": c.name})), None)
    self.o_sn({"d": [{"a": 99, "topic": "zz", "m": "last", "retain": True}]})
    lockstep.Driver.epilogue(self)


def generate(prof, seed):
  prof = dict(prof, topics=TOPICS, filters=FILTERS)
  g = G.Gen(prof, seed)
  r = g.r
  scn = g.scenario()
  scn["cfg"]["sn"] = True
  g.mine = [t for t in g.ts if len(t.encode()) == 2]
  out = []
  def one():
    k = r.random()
    if k < .2:
      q = {"op": "snconn", "a": r.randrange(4), "cid": r.choice(["s0", "s1", "s2", "a-longer-client-id", ""]), "clean": r.random() < .6, "long": r.random() < .1}
      if r.random() < .2: q["n"] = r.choice([2, 2, 3]); q["gap"] = r.choice([0, 0.0002, 0.01])
      if r.random() < .1: q["proto"] = r.choice([0, 2, 255])
      if r.random() < .05: q["lost"] = True
      return q
    ds, used = [], set()
    for _ in range(r.choice([1, 1, 2, 4, 8])):
      if r.random() < prof.get("snbad", 0):
        ds.append({"kind": "bad", "a": r.randrange(6), "bad": r.choice(BAD), "n": r.randrange(1000), "seed": r.randrange(1 << 30), "dt": r.choice([0, 0.001, 0.01])})
        continue
      q = {"a": r.randrange(6), "topic": r.choice(g.mine or ["ab"]), "m": g.mid("s"), "qos": r.choice([-1, -1, 0]), "dt": r.choice([0, 0, 0.0003, 0.002, 0.02])}
      if r.random() < .3 and q["topic"] not in used:
        q["retain"] = True
        used.add(q["topic"])
        if r.random() < .2: q["m"] = ""
      if r.random() < .15: q["pad"] = r.choice([100, 246, 247, 248, 249, 250, 251, 300, 5000, 9000, 60000])
      if r.random() < .1: q["bits"] = r.randrange(4)
      if r.random() < .1: q["dup"] = True
      if r.random() < .1: q["long"] = True
      if r.random() < .1: q["mid"] = r.randrange(65536)
      if prof.get("snfaults") and q["m"]:
        if r.random() < .15 and not q.get("retain"): q["more"] = [round(r.uniform(0, .05), 4) for _ in range(r.choice([1, 1, 2, 5]))]
        elif r.random() < .1: q["lost"] = True
      ds.append(q)
    q = {"op": "sn", "d": ds}
    if r.random() < .4:
      q["with"] = [dict(g.pub(r.choice(g.names)), retain=False, dt=r.choice([0, 0.001, 0.003])) for _ in range(r.randrange(1, 4))]
      for x in q["with"]:
        if not x["m"]: x["m"] = g.mid()
    if prof.get("snfaults") and r.random() < .1: q["err"] = r.randrange(1, 4)
    return q
  for i, o in enumerate(scn["ops"]):
    out.append(o)
    if i >= len(g.names):
      while r.random() < .4: out.append(one())
  out += [one() for _ in range(4)]
  scn["ops"] = out
  return scn
