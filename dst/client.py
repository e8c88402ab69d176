"""The Python client library: real clients with their threads, against a scripted server with correct sessions."""
import random, sys, zlib
from . import codec, gen as G, kernel
from .codec import BadPacket
from .kernel import Group, HarnessError, Violation
from .model import Model
from .net import NetCfg
from .world import World, REFUSALS

PORT = 1883
BOUND = 4.0


class Listener:
  def __init__(self, d):
    self.d = d
    self._closed, self._listening, self._backlog, self._backlog_max = False, True, [], 1000
    self._group = d.w.sim.main_group
  def _notify(self):
    for ep in self._backlog: Conn(self.d, ep)
    self._backlog = []


class Sess:
  "the server's half of a session"
  def __init__(self):
    self.rec2 = {}        # QoS 2 packet ids received and not released -> publish
    self.open = {}        # packet ids of the client's exchanges not finished by the server -> publish
    self.out = []         # to the client, unfinished: [pid, message, state]
    self.pid = 0

  def next_pid(self):
    used = {o[0] for o in self.out}
    while True:
      self.pid = self.pid % 65535 + 1
      if self.pid not in used: return self.pid


class Conn:
  "the server's end of a connection"
  def __init__(self, d, ep):
    self.d, self.ep = d, ep
    self.stream = codec.Stream()
    self.c = self.sess = None
    self.up = self.cut = self.disc = self.ended = False
    self.cut_rx = self.cut_tx = None
    self.held, self.hold = [], False
    self.E = []           # what the client's callbacks have to be told, in order
    self.told = 0
    self.txq, self.blocked = [], False
    self.last = {}        # publisher -> index of its last PUBLISH on this connection
    self.asked = []
    ep.owner = self
    d.conns.append(self)
    ep.paused = True
    ep.resume()

  # -- from the client
  def on_data(self, ep, data):
    self.stream.feed(data)
    try:
      while not self.cut and (x := self.stream.next()) is not None:
        if self.c is None: self.ver = x[1][6] if len(x[1]) > 6 else 4
        p = codec.decode(x[0], x[1], self.ver, server=False)
        if self.cut_rx is not None:
          self.cut_rx[0] -= 1
          if self.cut_rx[0] <= 0 and self.cut_rx[1] == "before":
            self.kill(self.cut_rx[2])
            return
        self.d.packet(self, p)
        if self.cut_rx is not None and self.cut_rx[0] <= 0: self.kill(self.cut_rx[2])
    except BadPacket as e:
      self.d.fail("bad-bytes", "%s sent bytes which are no MQTT packet: %s" % (self.c.name if self.c else "a client", e))

  def on_eof(self, ep):
    self.ended = True
    self.d.sim.ev("S<", self.c and self.c.name, "fin")
    ep.close()
  def on_rst(self, ep):
    self.ended = self.cut = True
    self.d.sim.ev("S<", self.c and self.c.name, "rst")

  # -- to the client
  def send(self, p, split=None, expect=None):
    if self.cut: return
    data = codec.encode(p, self.ver)
    if expect is not None: self.E.append(expect)
    self.txq.append((data, split))
    self.pump()

  def pump(self):
    while self.txq and not self.blocked and not self.cut:
      data, split = self.txq.pop(0)
      if split:
        k = max(1, min(len(data) - 1, split[0]))
        self.raw(data[:k])
        self.blocked = True
        self.d.sim.count("fault_stall_in_packet")
        def rest():
          self.blocked = False
          self.raw(data[k:])
          self.pump()
        self.d.sim.after(split[1], rest)
      else: self.raw(data)

  def raw(self, data):
    if self.cut or self.ended: return
    if self.cut_tx is not None:
      if len(data) >= self.cut_tx[0]:
        data, how = data[:self.cut_tx[0]], self.cut_tx[1]
        if data: self.ep.write(data)
        self.kill(how)
        return
      self.cut_tx[0] -= len(data)
    self.ep.write(data)

  def kill(self, how):
    if self.cut: return
    self.cut = True
    self.d.sim.ev("S>", self.c and self.c.name, "cut", how)
    self.d.sim.count("fault_cut_" + how)
    if how == "rst": self.ep.abort()
    else: self.ep.close()


class Cl:
  "a client of the library and its user"
  def __init__(self, d, name, cfg):
    self.d, self.name, self.cfg = d, name, cfg
    self.ver = cfg["ver"]
    self.refuse = cfg.get("refuse", 0)  # the server refuses one message in so many
    self.sess = None            # the server's session
    self.conn = None            # the last connection with a CONNACK
    self.queue, self.busy = [], None
    self.pubs = {}              # payload -> publish
    self.serial = {}
    self.published, self.subscribed = {}, {}
    self.told = {}              # payloads of QoS 2 messages which the callback was told about
    self.connected = False      # what the user thinks
    self.can_pub = self.parked = self.alive = self.leaving = False
    self.fault = None
    self.connects = 0
    self.reqs, self.answers = {}, {}

  def start(self):
    if self.ver == 5: import mqtt.clients.V5 as m
    else: import mqtt.clients.V311 as m
    self.lib = m.Client(self.name)
    if self.ver == 5: self.lib.sessionexpiry = 1000
    self.lib.msgid = self.cfg.get("msgid", 1)
    self.lib.registerCallback(CB(self))
    self.group = Group(self.name)
    self.task = self.d.sim.spawn(self.user, "user-" + self.name, self.group)

  def user(self):
    while True:
      while not self.queue:
        self.parked = True
        self.d.sim.park(None, "idle")
      self.parked = False
      self.busy = self.queue.pop(0)
      self.busy()
      self.busy = None

  def do(self, f):
    self.queue.append(f)
    if self.parked: self.d.sim.wake(self.task)

  @property
  def idle(self): return not self.queue and self.busy is None

  def publish(self, who, qos, retain, pad, up=None):
    n = self.serial[who] = self.serial.get(who, 0) + 1
    payload = ("%s.%s.%d." % (self.name, who, n)).encode() + b"x" * pad
    topic = "t/%s/%d" % (who, n % 3)
    P = {"payload": payload, "who": who, "n": n, "qos": qos, "retain": retain, "topic": topic, "got": 0, "id": None, "forgiven": self.leaving and who == "cb", "conn": self.conn, "done": False, "p": {}}
    kw = {}
    if up and self.ver == 5:
      from mqtt.formats.MQTTV5 import Properties, PacketTypes
      kw["properties"] = pr = Properties(PacketTypes.PUBLISH)
      pr.UserProperty = ("k", up)
      pr.ContentType = up
      P["p"] = {"up": [["k", up]], "ct": up}
    self.pubs[payload] = P
    P["busy"] = True
    try:
      P["id"] = self.lib.publish(topic, payload, qos, retain, **kw)
    except OSError as e:
      if not (who == "cb" and self.leaving): self.trouble("publish", e)     # another thread is closing the connection
    P["busy"] = False
    self.d.model.stat("publish_qos%d" % qos)

  def trouble(self, what, e):
    "the library raised an exception: there must be a reason"
    k = self.conn
    if k is None or k.cut or k.ended or not self.connected: return
    self.d.fail("api-error", "%s: %s raised %r although its connection is in order" % (self.name, what, e))


class CB:
  def __init__(self, c): self.c, self.d = c, c.d
  def connectionLost(self, cause): pass
  def disconnected(self, reason, properties): pass

  def publishArrived(self, topic, payload, qos, retained, msgid, properties=None):
    c, d = self.c, self.d
    payload = bytes(payload)
    d.sim.ev("CB", c.name, payload[:30], qos)
    k = c.conn
    if k is None: d.fail("order", "%s: told about %r, but it has never been connected" % (c.name, payload[:40]))
    while k.told < len(k.E) and k.E[k.told]["qos"] == 2 and k.E[k.told]["payload"] in c.told: k.told += 1
    m = k.E[k.told] if k.told < len(k.E) else None
    if m is None or m["payload"] != payload:
      if payload in c.told: d.fail("duplicate", "%s: the callback is told twice about QoS 2 message %r" % (c.name, payload[:40]))
      d.fail("order", "%s: the callback is told about %r, while %r is next" % (c.name, payload[:40], m and m["payload"][:40]))
    k.told += 1
    if (m["topic"], m["qos"], m["retain"]) != (topic, qos, bool(retained)): d.fail("wrong-content", "%s: %r arrived as %r" % (c.name, m, (topic, qos, retained)))
    if c.ver == 5:
      g = {"up": [list(x) for x in getattr(properties, "UserProperty", [])], "ct": getattr(properties, "ContentType", None)}
      w = {"up": [list(x) for x in m["p"].get("up", [])], "ct": m["p"].get("ct")}
      if g != w: d.fail("wrong-content", "%s: %r arrived with %r, sent with %r" % (c.name, payload[:40], g, w))
    if qos == 2: c.told[payload] = True
    d.model.stat("arrived_qos%d" % qos)
    if c.cfg.get("echo") is not None and payload.startswith(b"s."):
      d.model.stat("echo")
      c.publish("cb", c.cfg["echo"], False, 0)
    if c.cfg.get("slow") and hash_of(payload) % 3 == 0:
      import time
      time.sleep(c.cfg["slow"])
    return True

  def published(self, msgid):
    c = self.c
    P = next((P for P in c.pubs.values() if P.get("gid") == msgid and P.get("acked_on") and not P["done"]), None)
    if P is None: self.d.fail("published", "%s: published(%d) for no publish the server has acknowledged" % (c.name, msgid))
    P["done"] = True
    self.d.sim.ev("PUBLISHED", self.c.name, msgid)
  def subscribed(self, msgid, data):
    data = [x if isinstance(x, int) else x.value for x in data]
    if self.c.answers.get(msgid) != data: self.d.fail("subscribed", "%s: subscribed(%d, %s), the server had answered %s" % (self.c.name, msgid, data, self.c.answers.get(msgid)))
    self.c.subscribed.setdefault(msgid, []).append(data)
  def unsubscribed(self, msgid):
    if self.c.answers.get(msgid) != "un": self.d.fail("subscribed", "%s: unsubscribed(%d), the server had answered %s" % (self.c.name, msgid, self.c.answers.get(msgid)))
    self.c.subscribed.setdefault(msgid, []).append("un")


def norm(p): return {k: [list(x) for x in v] if k == "up" else v for k, v in p.items()}


def hash_of(b): return sum(b)


class Driver:
  def __init__(self, scn):
    self.scn = scn
    self.model = Model(None)
    self.w = World(scn, None)
    self.model.world = self.w
    self.sim = self.w.sim
    self.opidx = -1
    self.conns = []
    self.nmsg = 0
    self.cs = {n: Cl(self, n, c) for n, c in scn["cfg"]["clients"].items()}

  def fail(self, kind, detail):
    try: self.model.fail(kind, detail, "P21")
    except Violation as e:
      if self.sim.failed is None: self.sim.failed = e      # the library may swallow it
      raise

  def run(self):
    sim = self.sim
    self.listener = self.w.net.listeners[PORT] = Listener(self)
    for c in self.cs.values(): c.start()
    if self.scn["cfg"].get("sched", {}).get("preempt"): sim.arm_lines()
    for i, op in enumerate(self.scn["ops"]):
      self.opidx = i
      sim.run_for(max(0, op.get("dt", 0.0)))
      sim.ev("OP", i, op["op"], op.get("c"))
      c = self.cs.get(op.get("c"))
      if c is not None and getattr(self, "o_" + op["op"])(c, op) is not False: self.model.stat("op_" + op["op"])
      self.errors()
    self.opidx = len(self.scn["ops"])
    self.epilogue()

  def errors(self):
    for x in self.sim.task_errors:
      if x[0].startswith("user-") and x[1] != "Violation": raise HarnessError("user: %s" % (x,))
    if self.sim.failed: raise self.sim.failed

  def idle(self, bound, what):
    if not self.sim.run_until(lambda: all(c.idle for c in self.cs.values()) or self.sim.task_errors, bound) and not all(c.idle for c in self.cs.values()):
      self.errors()
      self.fail("stuck", "%s: a call of the library does not return within %.0f s" % (what, bound))
    self.errors()

  def epilogue(self):
    sim = self.sim
    # faults end; everyone gets a connection that works, and everything under way has to come to its end
    self.w.net.listeners[PORT] = self.listener
    for k in self.conns:
      if k.ep.paused: k.ep.resume()
      k.cut_rx = k.cut_tx = None
      k.hold = False
      self.release(k)
    self.idle(60.0, "after the faults")
    for c in self.cs.values():
      k = c.conn
      if k is None or k.cut or k.ended or not c.connected: self.o_conn(c, {"clean": False})
    self.idle(20.0, "at the end")
    sim.run_for(BOUND)
    if not sim.run_until(lambda: all(self.settled(c) for c in self.cs.values()), 60.0):
      for c in self.cs.values(): self.judge(c)
    sim.run_for(1.0)
    for c in self.cs.values(): self.judge(c)
    for c in self.cs.values(): self.o_disc(c, {"final": True})
    self.idle(20.0, "at the end")
    sim.run_for(BOUND)
    for c in self.cs.values():
      k = c.conn
      if not k.disc or not k.ended: self.fail("no-disconnect", "%s: disconnect() has returned, but the server has %s" % (c.name, "got no DISCONNECT" if not k.disc else "a DISCONNECT, but the connection is open"))
      n = [t for t in sim.tasks if t.group is c.group and t.state != kernel.DONE and t is not c.task]
      if n: self.fail("thread-left", "%s: its threads %s are alive after disconnect()" % (c.name, [t.name for t in n]))

  def settled(self, c):
    k = c.conn
    return not (c.sess.out or c.sess.rec2 or k.txq) and all(P["done"] or P["forgiven"] for P in c.pubs.values() if P["qos"]) and self.rest(c) == 0

  def rest(self, c):
    k = c.conn
    return sum(1 for m in k.E[k.told:] if not (m["qos"] == 2 and m["payload"] in c.told))

  def judge(self, c):
    k = c.conn
    if self.rest(c): self.fail("missing", "%s: the callback was not told about %r" % (c.name, [m["payload"][:30] for m in k.E[k.told:]][:3]))
    for P in c.pubs.values():
      if P["forgiven"]: continue
      if P["qos"] and not P["got"]: self.fail("lost", "%s: QoS %d message %r has not reached the server" % (c.name, P["qos"], P["payload"][:40]))
      if P["qos"] and not P["done"]: self.fail("unfinished", "%s: the exchange of QoS %d message %r is not finished" % (c.name, P["qos"], P["payload"][:40]))
      if P["qos"] == 0 and P["conn"] is k and P["id"] is not None and not P["got"] and not k.cut: self.fail("lost", "%s: QoS 0 message %r has not arrived" % (c.name, P["payload"][:40]))
    if c.sess.out: self.fail("not-acknowledged", "%s: did not finish %s" % (c.name, [(o[0], o[1]["payload"][:30], o[2]) for o in c.sess.out][:3]))
    if c.sess.rec2: self.fail("unfinished", "%s: did not release %s" % (c.name, list(c.sess.rec2)[:3]))
    for i, (kind, kk) in c.reqs.items():
      n = len(c.subscribed.get(i, []))
      if n > kind[1] or n < kind[1] and not kk.cut and kk is k: self.fail("subscribed", "%s: request %d has got %d answers of %d" % (c.name, i, n, kind[1]))

  # -- the server
  def packet(self, k, p):
    t, c = p["t"], k.c
    self.sim.ev("S<", c and c.name, t, p.get("pid"), p.get("dup"))
    if c is None:
      if t != "CONNECT": self.fail("bad-bytes", "the first packet of a connection is a %s" % t)
      self.connect(k, p)
      return
    if k.disc:
      P = c.pubs.get(p["payload"]) if t == "PUBLISH" else None
      # the receiver thread may answer, and call callbacks which publish, while disconnect() runs
      if t in ("CONNECT", "SUBSCRIBE", "UNSUBSCRIBE", "DISCONNECT") or t == "PUBLISH" and not (P and P["forgiven"]): self.fail("after-disconnect", "%s: %s after its DISCONNECT" % (c.name, t))
    if not k.up or k.disc: return
    s = c.sess
    if t == "PUBLISH":
      P = c.pubs.get(p["payload"])
      if P is None: self.fail("wrong-content", "%s: the server got %r, which was never published" % (c.name, p["payload"][:60]))
      if (P["topic"], P["qos"], P["retain"]) != (p["topic"], p["qos"], p["retain"]): self.fail("wrong-content", "%s: published %r, the server got %r" % (c.name, P, p))
      if k.last.get(P["who"], 0) >= P["n"]: self.fail("order" if k.last[P["who"]] > P["n"] else "resent", "%s: %r comes after message %d on one connection" % (c.name, P["payload"][:40], k.last[P["who"]]))
      if norm(P["p"]) != norm(p.get("p") or {}): self.fail("wrong-content", "%s: published with %r, the server got %r" % (c.name, P["p"], p["p"]))
      k.last[P["who"]] = P["n"]
      if p["qos"] == 0:
        P["got"] += 1
        if P["got"] > 1: self.fail("duplicate", "%s: QoS 0 message %r arrives twice" % (c.name, P["payload"][:40]))
        return
      if P["got"] and not p["dup"]: self.fail("resent", "%s: %r is sent again without DUP" % (c.name, P["payload"][:40]))
      if P["done"] or P.get("released"): self.fail("resent" if p["qos"] == 1 else "duplicate", "%s: %r is sent again although its exchange %s" % (c.name, P["payload"][:40], "has finished" if P["done"] else "had got to PUBREL"))
      o = s.open.get(p["pid"])
      if o is not None and o is not P and not o.get("acked_on"): self.fail("id-in-use", "%s: packet id %d of %r is still used for %r" % (c.name, p["pid"], P["payload"][:40], o["payload"][:40]))
      if P.get("gid") not in (None, p["pid"]): self.fail("id-changed", "%s: %r was sent with packet id %d, now with %d" % (c.name, P["payload"][:40], P["gid"], p["pid"]))
      s.open[p["pid"]] = P
      P["gid"] = p["pid"]
      P["got"] += 1
      ack, n = {"t": "PUBACK" if p["qos"] == 1 else "PUBREC", "pid": p["pid"]}, zlib.crc32(p["payload"])
      if c.ver == 5 and c.refuse and n % c.refuse == 0:
        ack["rc"] = REFUSALS[n // 64 % len(REFUSALS)]
        self.sim.count("fault_error_ack")
      elif p["qos"] == 2: s.rec2[p["pid"]] = P
      self.answer(k, ack)
    elif t == "PUBREL":
      P = s.open.get(p["pid"])
      if P is None or P["qos"] != 2: self.fail("stray", "%s: PUBREL %d for no message" % (c.name, p["pid"]))
      if not P.get("rec"): self.fail("early-pubrel", "%s: PUBREL %d before its PUBREC" % (c.name, p["pid"]))
      if P["done"]: self.fail("stray", "%s: PUBREL %d for a message which is finished" % (c.name, p["pid"]))
      P["released"] = True
      s.rec2.pop(p["pid"], None)
      self.answer(k, {"t": "PUBCOMP", "pid": p["pid"]})
    elif t == "PUBACK":
      self.finish(c, p, 1, "sent")
    elif t == "PUBREC":
      o = next((o for o in s.out if o[0] == p["pid"] and o[1]["qos"] == 2), None)
      if o is None: self.fail("stray", "%s: PUBREC %d for no message" % (c.name, p["pid"]))
      if o[3] is not k: self.fail("stray", "%s: PUBREC %d for a message not sent on this connection" % (c.name, p["pid"]))
      o[2] = "rel"
      self.answer(k, {"t": "PUBREL", "pid": p["pid"]}, o[1])
    elif t == "PUBCOMP":
      self.finish(c, p, 2, "rel")
    elif t in ("SUBSCRIBE", "UNSUBSCRIBE"):
      x = k.asked.pop(0) if k.asked else None
      got = (p["pid"], t, [(f, o["qos"]) for f, o in p["filters"]] if t == "SUBSCRIBE" else list(p["filters"]))
      if x is None or x[1:3] != got[1:3]: self.fail("wrong-content", "%s: %r, while it asked for %r" % (c.name, got, x))
      rcs = [0x80 if f == "f/4" else o["qos"] for f, o in p["filters"]] if t == "SUBSCRIBE" else [0] * len(p["filters"])
      c.answers[p["pid"]] = rcs if t == "SUBSCRIBE" else "un"
      self.answer(k, {"t": "SUBACK" if t == "SUBSCRIBE" else "UNSUBACK", "pid": p["pid"], "rcs": rcs})
    elif t == "DISCONNECT":
      k.disc = True
      if k.clean and c.ver == 4: c.alive = False
    elif t == "PINGREQ": self.answer(k, {"t": "PINGRESP"})
    else: self.fail("bad-bytes", "%s: unexpected %s" % (c.name, t))

  def finish(self, c, p, qos, state):
    o = next((o for o in c.sess.out if o[0] == p["pid"]), None)
    if o is None or o[1]["qos"] != qos or o[2] != state: self.fail("stray", "%s: %s %d for no message in that state" % (c.name, p["t"], p["pid"]))
    c.sess.out.remove(o)
    if qos == 2 and o[1]["payload"] not in c.told: self.fail("missing", "%s: PUBCOMP for %r, which the callback was not told about" % (c.name, o[1]["payload"][:40]))
    if qos == 1 and not any(m is o[1] for m in c.conn.E[:c.conn.told]): self.fail("missing", "%s: PUBACK for %r, which the callback was not told about" % (c.name, o[1]["payload"][:40]))

  def connect(self, k, p):
    c = self.cs.get(p["cid"])
    if c is None: self.fail("bad-bytes", "CONNECT of %r" % p["cid"])
    k.c, k.clean = c, p["clean"]
    w = p.get("will")
    got = {"clean": p["clean"], "ka": p["ka"], "user": p.get("user"), "pw": p.get("pw"), "will": w and (w["topic"], w["payload"], w["qos"], w["retain"], w.get("p") or {}), "p": p.get("p") or {}, "name": p["pname"]}
    if got != c.wanted: self.fail("wrong-content", "%s: connect() was asked for %r, the CONNECT says %r" % (c.name, c.wanted, got))
    f, c.fault = c.fault, None
    if f == "noack":
      self.sim.count("fault_no_connack")
      k.cut = True
      return
    old = c.conn
    if old is not None:
      old.kill("fin")
      if old.clean and c.ver == 4: c.alive = False
    sp = c.alive and not p["clean"]
    c.alive = True
    if f == "sp0" and sp:
      self.sim.count("fault_session_lost")
      sp = False
    if not sp: self.forget(c)
    ack = {"t": "CONNACK", "sp": sp, "rc": 0}
    if f == "cutack":
      self.sim.count("fault_cut_connack")
      k.cut = True
      k.ep.write(codec.encode(ack, c.ver)[:2])
      k.ep.close()
      return
    c.conn = k
    c.connects += 1
    k.up = True
    k.send(ack)
    if sp: self.model.stat("session_resumed")
    for o in c.sess.out:
      self.model.stat("server_resend")
      o[3] = k
      if o[2] == "sent": k.send({"t": "PUBLISH", "pid": o[0], "dup": True, "topic": o[1]["topic"], "qos": o[1]["qos"], "retain": o[1]["retain"], "payload": o[1]["payload"], "p": o[1]["p"]}, None, o[1] if o[1]["qos"] == 1 else None)
      else: k.send({"t": "PUBREL", "pid": o[0]}, None, o[1])
    if sp and any(P["qos"] and not P["done"] and not P["forgiven"] for P in c.pubs.values()): self.model.stat("resumed_with_open")

  def forget(self, c):
    "the session is gone: what was under way may be lost"
    c.sess = Sess()
    for P in c.pubs.values():
      if not P["done"]: P["forgiven"] = True

  def answer(self, k, p, expect=None):
    if k.hold: k.held.append((p, expect))
    else: self.do_answer(k, p, expect)

  def do_answer(self, k, p, expect):
    if k.cut or k.ended: return
    c = k.c
    P = c.sess.open.get(p.get("pid"))
    if p["t"] == "PUBREC" and P and not p.get("rc"): P["rec"] = True
    if P is not None and p.get("rc") or P is not None and p["t"] == {1: "PUBACK", 2: "PUBCOMP"}[P["qos"]]: P["acked_on"] = k    # the client may get it
    k.send(p, None, expect)

  def release(self, k):
    h, k.held = k.held, []
    for p, e in h: self.do_answer(k, p, e)

  # -- operations
  def o_conn(self, c, op):
    clean = bool(op.get("clean"))
    def f():
      c.fault = op.get("fault")
      c.connected = c.leaving = False
      n = c.connects
      kw = {"cleanstart" if c.ver == 5 else "cleansession": clean}
      if c.ver == 5:
        from mqtt.formats.MQTTV5 import Properties, PacketTypes
        pr = Properties(PacketTypes.CONNECT)
        pr.SessionExpiryInterval = 1000
        kw["properties"] = pr
      w = op.get("will")
      c.wanted = {"clean": clean, "ka": op.get("ka", 0), "user": op.get("user"), "pw": op["pw"].encode() if "pw" in op else None, "will": None, "p": {"sei": 1000} if c.ver == 5 else {}, "name": "MQTT"}
      if "ka" in op: kw["keepalive"] = op["ka"]
      if "user" in op: kw["username"] = op["user"]
      if "pw" in op: kw["password"] = c.wanted["pw"]
      if w:
        kw.update(willFlag=True, willTopic=w["topic"], willMessage=w["payload"].encode(), willQoS=w["qos"], willRetain=w["retain"])
        wp = {}
        if c.ver == 5 and w.get("wdi"):
          kw["willProperties"] = q = Properties(PacketTypes.WILLMESSAGE)
          q.WillDelayInterval = wp["wdi"] = w["wdi"]
        c.wanted["will"] = (w["topic"], w["payload"].encode(), w["qos"], w["retain"], wp)
      try:
        c.lib.connect(host="localhost", port=PORT, **kw)
        c.connected = c.can_pub = True
      except Exception as e:
        self.sim.ev("CONNECT-FAILED", c.name, repr(e)[:80])
        if op.get("fault") is None and PORT in self.w.net.listeners and (c.conn is None or c.connects == n or not (c.conn.cut or c.conn.ended)):
          self.fail("api-error", "%s: connect() raised %r although the server answers" % (c.name, e))
    c.do(f)

  def o_pub(self, c, op):
    def f():
      if not c.can_pub: return
      for i in range(op.get("n", 1)): c.publish("u", op["qos"], bool(op.get("retain")), op.get("pad", 0), op.get("up"))
    c.do(f)

  def o_sub(self, c, op):
    def f():
      if c.conn is None or not c.connected: return
      k = c.conn
      k.asked.append((None, "UNSUBSCRIBE", list(op["f"])) if op.get("un") else (None, "SUBSCRIBE", list(zip(op["f"], op["q"]))))
      try:
        if op.get("un"): i = c.lib.unsubscribe(op["f"])
        elif c.ver == 5:
          from mqtt.formats.MQTTV5 import SubscribeOptions
          i = c.lib.subscribe(op["f"], [SubscribeOptions(q) for q in op["q"]])
        else: i = c.lib.subscribe(op["f"], op["q"])
      except OSError as e:
        c.trouble("subscribe", e)
        return
      n = c.reqs.get(i, ((0, 0), 0))[0][1]
      c.reqs[i] = (("req", n + 1), k)
    c.do(f)

  def o_disc(self, c, op):
    def f():
      k = c.conn
      if k is None or not c.connected: return
      c.can_pub, c.leaving = False, True
      for P in c.pubs.values():       # a callback which is publishing at this moment
        if P["who"] == "cb" and P["busy"]: P["forgiven"] = True
      try:
        c.lib.disconnect()
      except AssertionError as e:
        # outstanding exchanges which the server did not let finish
        if op.get("final") or self.scn["cfg"].get("calm") and not c.cfg.get("slow"): self.fail("api-error", "%s: disconnect() raised %r" % (c.name, e))
        c.connected = False
        return
      except OSError as e:
        c.trouble("disconnect", e)
      c.connected = False
    c.do(f)

  def o_send(self, c, op):
    k, s = c.conn, c.sess
    if s is None: return False
    live = k is not None and k.up and not k.cut and not k.ended and not k.disc
    for i in range(op.get("n", 1)):
      if op["qos"] == 0 and not live: return False
      self.nmsg += 1
      m = {"payload": ("s.%s.%d." % (c.name, self.nmsg)).encode() + b"y" * op.get("pad", 0), "topic": "s/%d" % (self.nmsg % 3), "qos": op["qos"], "retain": bool(op.get("retain")), "p": {}}
      if op.get("up") and c.ver == 5: m["p"] = {"up": [("k", op["up"])], "ct": op["up"]}
      p = {"t": "PUBLISH", "topic": m["topic"], "qos": m["qos"], "retain": m["retain"], "payload": m["payload"], "p": m["p"]}
      if op["qos"]:
        p["pid"] = s.next_pid()
        s.out.append([p["pid"], m, "sent", k if live else None])
      if live: k.send(p, op.get("split"), m if op["qos"] < 2 else None)
      self.model.stat("server_send")

  def live(self, c):
    k = c.conn
    return k if k is not None and k.up and not k.cut and not k.ended else None

  def o_cut(self, c, op):
    k = self.live(c)
    if k is None: return False
    w = op.get("when")
    if w is None: k.kill(op["how"])
    elif w[0] == "rx": k.cut_rx = [w[1], w[2], op["how"]]
    else: k.cut_tx = [w[1], op["how"]]

  def o_hold(self, c, op):
    k = self.live(c)
    if k is None: return False
    k.hold = True

  def o_release(self, c, op):
    k = self.live(c)
    if k is None or not k.hold: return False
    k.hold = False
    self.release(k)

  def o_pause(self, c, op):
    "the server does not read for a while"
    k = self.live(c)
    if k is None or k.ep.paused: return False
    k.ep.pause()
    g = k.ep.peer.cfg
    k.ep.peer.cfg = NetCfg(g.lat, g.jitter, g.seg, g.gap, op["cap"], g.short)
    self.sim.count("fault_slow_server")
    def end():
      k.ep.peer.cfg = g
      if k.ep.paused: k.ep.resume()
    self.sim.after(op["for"], end)

  def o_down(self, c, op):
    self.w.net.listeners.pop(PORT, None)
    self.sim.count("fault_server_down")
  def o_up(self, c, op): self.w.net.listeners[PORT] = self.listener

  def o_wait(self, c, op): pass


def generate(prof, seed):
  r = random.Random("%s/%d" % (prof["name"], seed))
  calm = prof.get("calm")
  def net():
    return {"lat": r.choice([0.0, 0.0005, 0.01]), "jitter": r.choice([0, 0.001, 0.02]), "seg": r.choice(["whole", "split", "split"]), "gap": r.choice([0.0, 0.0005, 0.002]),
            "short": 0 if calm else r.choice([0, 0.3, 0.7]), "cap": 1 << 20 if calm else r.choice([1 << 20, 1 << 20, 4000, 300])}
  names = ["u%d" % i for i in range(r.choice([1, 1, 2]))]
  clients = {n: {"ver": prof.get("ver") or r.choice([4, 5]), "echo": r.choice([None, None, 0, 1, 2]), "slow": r.choice([0, 0, 0, 0.05, 0.7]), "msgid": r.choice([1, 1, 65500, 65533])} for n in names}
  rr = random.Random("refuse/%s/%d" % (prof["name"], seed))
  for n in names:
    if clients[n]["ver"] == 5 and not calm and rr.random() < .4: clients[n]["refuse"] = rr.choice([1, 2, 3, 5])
  ops = [{"op": "conn", "c": n, "clean": r.random() < .5} for n in names]
  nets = {"net_s": net(), "net_t": net(), "net_c": net()}
  small = any(n["cap"] == 300 for n in nets.values())
  pad = lambda: r.choice([0, 0, 0, 5, 100, 130] + ([200] if small else [1000, 4000]))
  for _ in range(r.randrange(5, 40)):
    c = r.choice(names)
    k = G.pick(r, [(10, "pub"), (10, "send"), (3, "wait"), (1.5, "sub"), (1, "disc"), (0 if calm else 3, "cutc"), (0 if calm else 1.5, "hold"), (1.5, "release"), (0 if calm else 1, "pause"), (0 if calm else .4, "downup")])
    o = {"op": k, "c": c, "dt": r.choice([0, 0, 0, 0.001, 0.003, 0.02, 0.2])}
    if k in ("pub", "send"):
      o.update(qos=r.choice([0, 1, 1, 2, 2, 2]), n=r.choice([1, 1, 1, 2, 4]))
      p = pad()
      if p: o["pad"] = p
      if r.random() < .2: o["retain"] = True
      if r.random() < .15: o["up"] = r.choice(["v", "", "\u00e9" * 20])
      if k == "send" and not calm and r.random() < .12: o["split"] = [r.choice([1, 2, 3, 8, 100]), r.choice([0.3, 0.7, 1.5])]
    elif k == "sub":
      n = r.choice([1, 2, 3])
      o.update(f=["f/%d" % r.randrange(5) for _ in range(n)], q=[r.randrange(3) for _ in range(n)])
      if r.random() < .3: o["un"] = True
    elif k == "wait": o["dt"] = r.choice([0.05, 0.5, 2.0, 5.0])
    elif k == "pause": o.update({"for": r.choice([0.2, 0.8, 2.0]), "cap": r.choice([1, 10, 500])})
    elif k == "disc":
      ops.append(o)
      ops.append({"op": "conn", "c": c, "clean": r.random() < .3, "dt": r.choice([0, 2.0, 6.0])})
      continue
    elif k == "cutc":
      o.update(op="cut", how=r.choice(["fin", "rst"]))
      x = r.random()
      if x < .4: o["when"] = ["rx", r.randrange(1, 6), r.choice(["before", "after"])]
      elif x < .7: o["when"] = ["tx", r.choice([0, 1, 2, 3, 5, 20, 200])]
      ops.append(o)
      for _ in range(r.choice([0, 0, 1, 2])): ops.append({"op": r.choice(["pub", "send"]), "c": c, "qos": r.randrange(3), "n": r.choice([1, 2]), "dt": r.choice([0, 0.01, 0.3])})
      if r.random() < .25:
        ops.append({"op": "conn", "c": c, "clean": False, "dt": r.choice([0, 0.1]), "fault": r.choice(["noack", "cutack", "sp0"])})
      ops.append({"op": "conn", "c": c, "clean": r.random() < .07, "dt": r.choice([0, 0.01, 0.1, 0.7, 2.0])})
      continue
    elif k == "downup":
      ops += [{"op": "cut", "c": c, "how": "fin", "dt": 0}, {"op": "down", "c": c, "dt": 0}, {"op": "conn", "c": c, "clean": False, "dt": 0.1}, {"op": "up", "c": c, "dt": 0.5}, {"op": "conn", "c": c, "clean": False, "dt": 0.1}]
      continue
    ops.append(o)
  for o in ops:
    if o["op"] != "conn": continue
    if r.random() < .3: o["ka"] = r.choice([1, 60, 65535])
    if r.random() < .3: o["user"] = "someone"
    if "user" in o and r.random() < .6: o["pw"] = "secret"
    if r.random() < .3: o["will"] = {"topic": "w/x", "payload": "gone", "qos": r.randrange(3), "retain": r.random() < .5, "wdi": r.choice([0, 5])}
  cfg = {"sched": {"preempt": 0 if calm else r.choice([0, 0.002, 0.02]), "kind": r.choice(["random", "random", "fifo", "lifo"])}, **nets, "max_steps": 600000, "clients": clients, "calm": bool(calm)}
  return {"profile": prof.get("name"), "mode": "client", "seed": seed, "sched_seed": r.randrange(1 << 31), "cfg": cfg, "ops": ops}
