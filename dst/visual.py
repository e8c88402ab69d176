"""The broker's 'visual' option: a lockstep workload, watched by subscribers to the reports on $SYS/clients-packets."""
import json
from . import codec, gen as G, lockstep
from .kernel import HarnessError
from .world import MQTT_PORT

TOPIC = "$SYS/clients-packets"
NAMES = {"Connects": "CONNECT", "Connacks": "CONNACK", "Publishes": "PUBLISH", "Pubacks": "PUBACK", "Pubrecs": "PUBREC", "Pubrels": "PUBREL", "Pubcomps": "PUBCOMP",
         "Subscribes": "SUBSCRIBE", "Subacks": "SUBACK", "Unsubscribes": "UNSUBSCRIBE", "Unsubacks": "UNSUBACK", "Pingreqs": "PINGREQ", "Pingresps": "PINGRESP",
         "Disconnects": "DISCONNECT", "Auths": "AUTH"}
PROPS = {"pfi": "PayloadFormatIndicator", "ct": "ContentType", "rt": "ResponseTopic", "cd": "CorrelationData", "sid": "SubscriptionIdentifier", "up": "UserProperty",
         "sei": "SessionExpiryInterval", "acid": "AssignedClientIdentifier", "ska": "ServerKeepAlive", "am": "AuthenticationMethod", "ad": "AuthenticationData",
         "rpi": "RequestProblemInformation", "wdi": "WillDelayInterval", "rri": "RequestResponseInformation", "ri": "ResponseInformation", "sr": "ServerReference",
         "rs": "ReasonString", "rm": "ReceiveMaximum", "tam": "TopicAliasMaximum", "ta": "TopicAlias", "mq": "MaximumQoS", "ra": "RetainAvailable",
         "mps": "MaximumPacketSize", "wsa": "WildcardSubscriptionAvailable", "sia": "SubscriptionIdentifierAvailable", "ssa": "SharedSubscriptionAvailable"}
CODES = {0x00: {"DISCONNECT": "Normal disconnection", "SUBACK": "Granted QoS 0", None: "Success"}, 0x01: "Granted QoS 1", 0x02: "Granted QoS 2",
         0x04: "Disconnect with will message", 0x10: "No matching subscribers", 0x11: "No subscription found", 0x80: "Unspecified error", 0x81: "Malformed packet",
         0x82: "Protocol error", 0x83: "Implementation specific error", 0x84: "Unsupported protocol version", 0x85: "Client identifier not valid",
         0x86: "Bad user name or password", 0x87: "Not authorized", 0x89: "Server busy", 0x8B: "Server shutting down", 0x8C: "Bad authentication method",
         0x8D: "Keep alive timeout", 0x8E: "Session taken over", 0x8F: "Topic filter invalid", 0x90: "Topic name invalid", 0x91: "Packet identifier in use",
         0x92: "Packet identifier not found", 0x93: "Receive maximum exceeded", 0x94: "Topic alias invalid", 0x95: "Packet too large", 0x97: "Quota exceeded"}


def code(t, rc):
  "the name of a reason code"
  n = CODES.get(rc)
  return n.get(t, n[None]) if isinstance(n, dict) else n


def plain(s):
  "bytes as text: of either type"
  return s[10:-1] if isinstance(s, str) and s.startswith("bytearray(") else s


class Observer:
  "a client which only subscribes to the reports"
  def __init__(self, d, i, cfg):
    self.d, self.name, self.ver, self.filters = d, "obs%d" % i, cfg["ver"], cfg["filters"]
    self.stream, self.aliases, self.reports, self.acks = codec.Stream(), {}, [], []
    self.gone = None
    self.ep = d.w.net.connect(MQTT_PORT, self)
    p = {"t": "CONNECT", "cid": self.name, "clean": True, "ka": 0}
    if self.ver == 5: p["p"] = {"tam": cfg["tam"]} if cfg.get("tam") else {}
    self.send(p)
    self.send({"t": "SUBSCRIBE", "pid": 1, "filters": [(f, {"qos": cfg["qos"]}) for f in self.filters], "p": {}})

  def send(self, p): self.ep.write(codec.encode(p, self.ver))

  def on_data(self, ep, data):
    self.stream.feed(data)
    while True:
      x = self.stream.next()
      if x is None: return
      p = codec.decode(x[0], x[1], self.ver)
      if p["t"] != "PUBLISH":
        self.acks.append(p["t"])
        continue
      topic, ta = p["topic"], p.get("p", {}).get("ta") if self.ver == 5 else None
      if ta is not None:
        if topic: self.aliases[ta] = topic
        topic = self.aliases.get(ta)
      self.d.sim.count("report")
      if topic != TOPIC: self.d.fail("report-topic", "%s got a message on %r" % (self.name, topic))
      if p["qos"] or p["retain"]: self.d.fail("report-flags", "%s got a report with QoS %d, retain %d" % (self.name, p["qos"], p["retain"]))
      try:
        r = json.loads(p["payload"].decode("utf-8"))
        self.reports.append((r["direction"], r["socket"], r["clientid"], r["packet"]))
      except (ValueError, KeyError, TypeError) as e:
        self.d.fail("report-malformed", "%s got %r: %r" % (self.name, p["payload"][:200], e))

  def on_eof(self, ep): self.gone = "fin"
  def on_rst(self, ep): self.gone = "rst"


def properties(r, pp):
  "the same for the properties (what is left of a message's expiry may be shown as it was)"
  for k, n in PROPS.items():
    v, x = pp.get(k), r.get(n)
    if k in ("cd", "ad") and v is not None: v, x = str(v if isinstance(v, bytes) else v.encode()), plain(x)
    if k in ("up", "sid") and v is not None:
      v = [list(u) for u in v] if k == "up" else v if isinstance(v, list) else [v]
      x = x if isinstance(x, list) else [x]
    if (v is None or v == []) != (x is None) or v and x != v: return "%s %r, not %r" % (n, x, v)


def differs(r, p):
  "what a report says about a packet which is not so"
  t = NAMES.get(r["fh"]["PacketType"])
  if t != p["t"]: return "type %s" % t
  pp = p.get("p") or {}
  def ne(name, value, get=lambda v: v):
    return None if name in r and get(r[name]) == value else "%s %r, not %r" % (name, r.get(name), value)
  if t == "PUBLISH":
    for n, v in (("QoS", p.get("qos", 0)), ("RETAIN", p.get("retain", 0)), ("DUP", p.get("dup", 0))):
      if int(r["fh"][n]) != int(v or 0): return "%s %r, not %r" % (n, r["fh"][n], v)
    x = ne("TopicName", p["topic"]) or ne("Payload", str(p["payload"]), plain) or p.get("qos") and ne("PacketId", p["pid"])
    if x: return x
    return properties(r["Properties"], pp)
  elif t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
    c = r.get("Reason code", ["Success"])
    if isinstance(c, str): c = [c]
    if code(t, p.get("rc", 0)) not in (None, c[0]): return "reason %r, not %x" % (c, p["rc"])
    return ne("PacketId", p["pid"]) or properties(r.get("Properties", {}), pp)
  elif t == "SUBSCRIBE":
    return ne("PacketId", p["pid"]) or properties(r["Properties"], pp) or \
           ne("Data", [[f, o.get("qos", 0), bool(o.get("nl")), bool(o.get("rap")), o.get("rh", 0)] for f, o in p["filters"]],
              lambda v: [[f, o["QoS"], bool(o["noLocal"]), bool(o["retainAsPublished"]), int(o["retainHandling"])] for f, o in v])
  elif t == "UNSUBSCRIBE": return ne("PacketId", p["pid"]) or ne("Data", list(p["filters"])) or properties(r["Properties"], pp)
  elif t in ("SUBACK", "UNSUBACK"):
    return ne("PacketId", p["pid"]) or ne("Reason codes", [code(t, c) for c in p["rcs"]]) or properties(r["Properties"], pp)
  elif t == "DISCONNECT":
    return (code(t, p.get("rc", 0)) not in (None, r["ReasonCode"]) and "reason %r, not %x" % (r["ReasonCode"], p["rc"])) or properties(r["Properties"], pp)
  elif t == "CONNECT":
    x = ne("ClientId", p["cid"]) or ne("CleanStart", bool(p.get("clean")), bool) or ne("KeepAliveTimer", p.get("ka", 0)) or ne("WillFlag", bool(p.get("will")), bool)
    w = p.get("will")
    x = x or ne("usernameFlag", p.get("user") is not None, bool) or ne("passwordFlag", p.get("pw") is not None, bool) or properties(r["Properties"], pp)
    x = x or p.get("user") and ne("username", p["user"])
    return x or w and (properties(r["WillProperties"], w.get("p") or {}) or ne("WillTopic", w["topic"]) or ne("WillMessage", str(w["payload"]), plain) or ne("WillQoS", w.get("qos", 0)) or ne("WillRETAIN", bool(w.get("retain")), bool))
  elif t == "CONNACK":
    return ne("SessionPresent", bool(p.get("sp")), bool) or properties(r["Properties"], pp) or code(t, p["rc"]) and ne("ReturnCode", code(t, p["rc"]))
  return None


class Segment:
  "the reports of one connection"
  def __init__(self, cid): self.cid, self.c2s, self.s2c = cid, [], []


class Driver(lockstep.Driver):
  def fail(self, kind, detail): self.model.fail(kind, detail, "P30")

  def run(self):
    real = self.w.start_broker
    def start():
      real()
      self.obs = [Observer(self, i, o) for i, o in enumerate(self.scn["cfg"]["observers"])]
      if not self.sim.run_until(lambda: all("SUBACK" in o.acks for o in self.obs), 10.0): raise HarnessError("the observers are not answered")
      for o in self.obs: o.reports.clear()
    self.w.start_broker = start
    lockstep.Driver.run(self)
    self.check()

  def check(self):
    if not self.scn["cfg"].get("visual"): return
    self.sim.run_quiet(30.0)
    first = None
    for o in self.obs:
      if o.gone: self.fail("observer-closed", "%s: connection closed (%s)" % (o.name, o.gone))
      mine = [r for r in o.reports if not str(r[2]).startswith("obs")]
      for r in o.reports:
        if str(r[2]).startswith("obs") and r[3]["fh"]["PacketType"] == "Publishes": self.fail("report-of-report", "%s got a report of a report" % o.name)
      if first is None: first = mine
      elif mine != first:
        i = next((i for i, (a, b) in enumerate(zip(mine, first)) if a != b), min(len(mine), len(first)))
        self.fail("observers-differ", "report %d: %r and %r" % (i, mine[i:i+1], first[i:i+1]))
    if first is not None: self.match(first)

  def match(self, reports):
    segs, open_, seen = [], {}, set()
    for way, sock, cid, p in reports:
      t = NAMES.get(p["fh"]["PacketType"])
      if way == "CtoS" and t == "CONNECT":
        open_[sock] = Segment(p["ClientId"])
        segs.append(open_[sock])
      s = open_.get(sock)
      if s is None:
        if cid: self.fail("report-unknown", "%s %s %s on connection %s which has not sent CONNECT" % (way, cid, t, sock))
        continue
      if s.cid == "" and cid: s.cid = cid
      if cid not in ("", s.cid): self.fail("report-client", "%s %s for client %r on a connection of %r" % (way, t, cid, s.cid))
      if t == "PUBLISH": p["Payload"] = plain(p["Payload"])
      (s.c2s if way == "CtoS" else s.s2c).append(p)
      if t == "PUBLISH":
        if way == "CtoS": seen.add(p["Payload"])
        elif p["Payload"] not in seen and p["Payload"] in self.v5pubs:
          self.fail("report-order", "delivery of %s to %s reported before its publication" % (p["Payload"], s.cid))
    by = {}
    for k in self.w.conns:
      if k.ver != 5 or not k.connect_pkt: continue
      cid = k.connect_pkt["cid"] or (k.connack or {}).get("p", {}).get("acid") or ""
      by.setdefault(cid, []).append(k)
    for s in segs:
      if s.cid not in by: self.fail("report-unknown", "reports of a client %r nobody knows" % s.cid)
    for cid, ks in by.items():
      self.align(cid, [s for s in segs if s.cid == cid], ks)

  @property
  def v5pubs(self):
    "what only MQTT 5 clients publish, in PUBLISH packets"
    if not hasattr(self, "_v5"):
      a, b = set(), set()
      for k in self.w.conns:
        for p in getattr(k, "sentlog", ()):
          if p["t"] == "PUBLISH": (a if k.ver == 5 else b).add(str(p["payload"]))
        w = (k.connect_pkt or {}).get("will")
        if w: b.add(str(w["payload"]))
      self._v5 = a - b
    return self._v5

  def wrong(self, s, k):
    "why a segment is not the record of a connection"
    full = k.live and k.accepted and not getattr(k, "dying", None)
    sent, got = getattr(k, "sentlog", []), k.got
    for i, p in enumerate(s.c2s):
      if i >= len(sent): return "%s reported, which was not sent" % NAMES.get(p["fh"]["PacketType"])
      x = differs(p, sent[i])
      if x: return "report %d of what it sent (%s): %s" % (i, sent[i]["t"], x)
    if full and len(s.c2s) < len(sent): return "%s not reported" % sent[len(s.c2s)]["t"]
    for i, p in enumerate(s.s2c):
      if i >= len(got):
        if full: return "%s reported, which was not received" % NAMES.get(p["fh"]["PacketType"])
        break
      x = differs(p, got[i])
      if x: return "report %d of what it got (%s): %s" % (i, got[i]["t"], x)
    if len(s.s2c) < len(got): return "%s to the client not reported" % got[len(s.s2c)]["t"]
    return None

  def align(self, cid, segs, ks):
    "every connection that got CONNACK has its segment, in order; the others may have one"
    memo = {}
    def go(i, j):
      if (i, j) not in memo:
        if j == len(ks): v = i == len(segs)
        else: v = (not ks[j].connack and go(i, j + 1)) or (i < len(segs) and not self.wrong(segs[i], ks[j]) and go(i + 1, j + 1))
        memo[i, j] = v
      return memo[i, j]
    if go(0, 0): return
    acc = [k for k in ks if k.connack]
    why = next(("%r: %s" % (k, self.wrong(s, k)) for s, k in zip(segs, acc) if self.wrong(s, k)), None)
    self.fail("report-wrong", "client %s: %s" % (cid, why or "%d connections reported, %d accepted" % (len(segs), len(acc))))


def generate(prof, seed):
  g = G.Gen(prof, seed)
  r = g.r
  scn = g.scenario()
  scn["cfg"]["visual"] = True
  scn["cfg"]["observers"] = [{"ver": r.choice([4, 5, 5]), "filters": r.choice([[TOPIC], [TOPIC], ["$SYS/#"], ["$SYS/+", TOPIC]]), "qos": r.randrange(3), "tam": r.choice([0, 0, 1])}
                             for _ in range(r.choice([1, 1, 2, 3]))]
  return scn
