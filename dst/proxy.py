"""The proxies: real proxy process, scripted clients and brokers at both ends of many connections."""
import random, signal, sys
from . import codec, gen as G, kernel, seams
from .kernel import Group, HarnessError
from .lockstep import INF
from .model import Model
from .net import NetCfg
from .world import World

BROKER, PROXY = 1883, 1884
BOUND = 3.0
MODULES = {"trace": "mqtt.proxy.mqttsas", "restart": "mqtt.restart.netproxy"}


class Listener:
  "the broker's end"
  def __init__(self, d):
    self.d = d
    self._closed, self._listening, self._backlog, self._backlog_max = False, True, [], 1000
    self._group = d.w.sim.main_group
  def _notify(self):
    for ep in self._backlog: self.d.accepted(ep)
    self._backlog = []


class End:
  "one end of a connection"
  def __init__(self, d, name):
    self.d, self.name = d, name
    self.ep, self.other = None, None
    self.got, self.sent = bytearray(), bytearray()
    self.whole = 0              # length of the complete packets sent
    self.ended = None           # how the proxy ended it
    self.left = None            # how (and when) it ended itself
    self.orderly = True         # what it sent has to arrive, even if it left
    self.broken = False         # the proxy was told to end it
    self.waiting = []           # for a client: what the broker will send once they are paired

  def on_data(self, ep, data):
    self.got += data
    self.d.received(self, data)
  def on_eof(self, ep):
    if self.ended is None: self.ended = "fin"
    self.d.w.sim.ev("P-", self.name, "fin", len(self.got))
    ep.close()
  def on_rst(self, ep):
    if self.ended is None: self.ended = "rst"
    self.d.w.sim.ev("P-", self.name, "rst", len(self.got))

  @property
  def live(self): return self.ep is not None and self.ended is None and self.left is None

  def write(self, data, whole=True):
    if not self.live: return
    if len(self.sent) != self.whole: return       # inside an unfinished packet
    if self.other is not None and self.other.left in ("fin", "rst"): self.orderly = self.other.orderly = False
    self.sent += data
    if whole: self.whole = len(self.sent)
    self.ep.write(data)

  def leave(self, how):
    if not self.live: return
    self.left = how
    if how == "rst": self.ep.abort()
    else: self.ep.send_fin() if how == "half" else self.ep.close()


class Driver:
  def __init__(self, scn):
    self.scn = scn
    self.model = Model(None)
    self.w = World(scn, None)
    self.model.world = self.w
    self.sim = self.w.sim
    self.opidx = -1
    self.clients, self.strangers = {}, []
    self.kind = scn["cfg"]["kind"]

  def fail(self, kind, detail): self.model.fail(kind, detail, "P22")

  def run(self):
    w, sim = self.w, self.sim
    name = MODULES[self.kind]
    if name in seams.broken: self.fail("not-started", "%s cannot be imported: %r" % (name, seams.broken[name]))
    mod = sys.modules[name]
    w.net.listeners[BROKER] = Listener(self)
    g = w.broker = Group("proxy")
    seams_client = sys.modules["paho.mqtt.client"].Client
    seams_client.made.clear()
    sys.argv = ["run_proxy.py"]
    sim.default_group = g
    g.main = sim.spawn(mod.run, "proxy", g)
    sim.default_group = sim.main_group
    if not sim.run_until(lambda: PROXY in w.net.listeners and w.net.listeners[PROXY]._listening, 5.0):
      self.fail("not-started", "the proxy does not listen on port %d: %r %s" % (PROXY, sim.task_errors, "".join(w.sink.tail)[-800:]))
    sim.run_for(0.1)
    self.control = seams_client.made[-1] if seams_client.made else None
    base = len([k for k in sim.tasks if k.group is g and k.state != kernel.DONE])
    if self.scn["cfg"].get("sched", {}).get("preempt"): sim.arm_lines()
    for i, op in enumerate(self.scn["ops"]):
      self.opidx = i
      sim.run_for(max(0, op.get("dt", 0.0)))
      sim.ev("OP", i, op["op"], op.get("c"))
      if getattr(self, "o_" + op["op"])(op) is not False: self.model.stat("op_" + op["op"])
    self.opidx = len(self.scn["ops"])
    for e in self.ends():
      if e.ep is not None and e.ep.paused: e.ep.resume()
    sim.run_for(BOUND)
    if not sim.run_quiet(600.0): self.fail("livelock", "the proxy does not come to rest")
    self.check()
    # everyone leaves: nothing may be left behind
    for e in self.ends():
      if e.live: e.leave("fin")
    if not sim.run_quiet(60.0): self.fail("livelock", "the proxy does not come to rest")
    n = [k for k in sim.tasks if k.group is g and k.state != kernel.DONE]
    if len(n) > base: self.fail("thread-left", "all connections have ended, but not their threads: %s" % [k.name for k in n])

  def ends(self):
    for c in self.clients.values():
      yield c
      if c.other: yield c.other
    for b in self.strangers: yield b

  # -- bytes
  def accepted(self, ep):
    e = End(self, "broker?")
    e.ep, ep.owner = ep, e
    self.strangers.append(e)
    self.model.stat("broker_conn")
    if ep.err is not None: e.on_rst(ep)
    else:
      ep.paused = True
      ep.resume()

  def received(self, e, data):
    if e.other is None:
      # paired by the client's first packet, which names it
      cs = [c for c in self.clients.values() if c.other is None and bytes(c.sent).startswith(bytes(e.got))]
      if not cs: self.fail("wrong-bytes", "a broker connection got %r, which no unpaired client has sent" % bytes(e.got)[:60])
      if len(cs) > 1: return
      c = cs[0]
      c.other, e.other, e.name = e, c, "broker side of " + c.name
      e.broken = c.broken
      self.strangers.remove(e)
      for q in c.waiting: self.bsend(e, q)
    self.compare(e)

  def compare(self, e):
    o = e.other
    n = len(e.got)
    if bytes(e.got) != bytes(o.sent[:n]):
      i = next(i for i in range(n) if i >= len(o.sent) or e.got[i] != o.sent[i])
      self.fail("wrong-bytes", "%s got %d bytes; from byte %d on they are not what the other side sent: got %r, sent %r" % (e.name, n, i, bytes(e.got[i:i+24]), bytes(o.sent[i:i+24])))

  def check(self):
    for b in self.strangers:
      if b.live: self.fail("stray", "a broker connection without a client is open")
    for c in self.clients.values():
      b = c.other
      if b is None:
        if c.up and c.live and not c.broken: self.fail("lost-bytes", "%s: nothing of the %d bytes it sent has arrived" % (c.name, len(c.sent)))
        if not c.up and c.live: self.fail("not-closed", "%s is open, but the broker was not there" % c.name)
        continue
      for e, o in ((c, b), (b, c)):
        if e.left is not None or e.broken: continue
        if o.orderly and len(e.got) < o.whole and len(e.sent) == e.whole: self.fail("lost-bytes", "%s has got %d of %d bytes" % (e.name, len(e.got), o.whole))
        if o.left and e.ended is None and len(e.sent) == e.whole: self.fail("not-closed", "%s is still open %.1f s after the other end went away" % (e.name, BOUND))
        if e.ended and not o.left: self.fail("closed", "%s was closed (%s) for no reason" % (e.name, e.ended))

  # -- operations
  def o_open(self, op):
    if op["c"] in self.clients: return False
    c = End(self, op["c"])
    c.up = BROKER in self.w.net.listeners
    self.clients[op["c"]] = c
    n = NetCfg.of(op["net"]) if op.get("net") else None
    c.ep = self.w.net.connect(PROXY, c, n, NetCfg.of(op["nets"]) if op.get("nets") else None)
    if c.ep is None: self.fail("refused", "%s: the proxy refuses the connection" % c.name)
    c.write(packet({"k": "conn", "cid": op["c"] + "-", "v": op.get("v", 4)}))

  def o_csend(self, op):
    c = self.clients.get(op["c"])
    if c is None or not c.live: return False
    for q in op["p"]:
      if q["k"] == "term" and self.kind == "trace":
        # ends both connections, and is not passed on
        c.ep.write(packet(q))
        c.broken = True
        if c.other: c.other.broken = True
        c.left = "term"
        self.model.stat("terminate")
        return
      c.write(packet(q), whole=q["k"] != "part")
      self.model.stat("client_packet")

  def bsend(self, e, ps):
    for q in ps:
      e.write(packet(q), whole=q["k"] != "part")
      self.model.stat("broker_packet")

  def o_bsend(self, op):
    c = self.clients.get(op["c"])
    if c is None: return False
    if c.other is None: c.waiting.append(op["p"])
    else: self.bsend(c.other, op["p"])

  def end(self, op):
    c = self.clients.get(op["c"])
    if c is None: return None
    return c.other if op.get("side") == "b" else c

  def o_leave(self, op):
    e = self.end(op)
    if e is None or not e.live: return False
    o = e.other
    # a connection closed with bytes under way to it is reset: what it sent may be lost.  The same goes for the bytes the other end sends later
    if op["how"] == "rst" or o is not None and o.sent != e.got or o is None and (c := self.clients.get(op["c"])) and c.waiting: e.orderly = False
    e.leave(op["how"])
    self.sim.count("fault_end_" + op["how"])

  def o_pause(self, op):
    e = self.end(op)
    if e is None or e.ep is None or not e.live: return False
    e.ep.pause()
    if op.get("cap"):
      c = e.ep.peer.cfg
      e.ep.peer.cfg = NetCfg(c.lat, c.jitter, c.seg, c.gap, op["cap"], c.short)
    self.sim.count("fault_slow_reader")

  def o_resume(self, op):
    e = self.end(op)
    if e is None or e.ep is None or not e.ep.paused: return False
    e.ep.resume()

  def o_wait(self, op): pass

  def o_break(self, op):
    "the restart proxy is told to break all connections"
    if self.control is None: return False
    class Msg:
      payload, topic = b"break", "x"
    f = getattr(self.control, "on_message", None)
    if f is None: return False
    cs = [c for c in self.clients.values() if c.live and c.other is not None and c.other.live]
    for c in self.clients.values():
      for e in (c, c.other):
        if e is not None: e.broken = True
    self.sim.spawn(lambda: f(self.control, None, Msg()), "control", self.w.broker)
    self.sim.run_for(BOUND)
    for c in cs:
      for e in (c, c.other):
        if e.live and not e.ep.paused: self.fail("not-broken", "%s is open %.1f s after the proxy was told to break the connections" % (e.name, BOUND))
    self.model.stat("broken", len(cs))

  def o_bdown(self, op):
    "the broker does not accept connections"
    self.down = self.w.net.listeners.pop(BROKER, None) or self.down
    self.sim.count("fault_broker_down")

  def o_bup(self, op):
    if BROKER in self.w.net.listeners: return False
    self.w.net.listeners[BROKER] = self.down


def packet(q):
  k = q["k"]
  if k == "conn": return codec.encode({"t": "CONNECT", "cid": q["cid"], "clean": True, "ka": 60, "p": {}}, q.get("v", 4))
  if k == "pub":
    return codec.encode({"t": "PUBLISH", "topic": q.get("topic", "a/b"), "qos": q.get("qos", 0), "pid": q.get("pid", 1), "payload": (q["raw"] if "raw" in q else q["m"] + "x" * q.get("pad", 0)).encode(), "p": {}}, q.get("v", 4))
  if k == "term": return codec.encode({"t": "PUBLISH", "topic": "MQTTSAS topic", "qos": 0, "payload": b"TERMINATE"}, 4)
  if k == "ping": return b"\xc0\x00"
  if k == "pong": return b"\xd0\x00"
  if k == "ack": return bytes([0x40, 2]) + q["pid"].to_bytes(2, "big")
  if k == "junk":
    # framed, but no packet anybody knows
    r = random.Random(q["seed"])
    body = bytes(r.randrange(256) for _ in range(q["n"]))
    return bytes([r.randrange(256)]) + codec.vbi(len(body)) + body
  if k == "part": return b"\x30\x20abc"[:q["n"]]
  raise HarnessError(k)


def generate(prof, seed):
  r = random.Random("%s/%d" % (prof["name"], seed))
  kind = prof["kind"]
  names = ["p%d" % i for i in range(r.choice([1, 2, 2, 3, 4, 6]))]
  n = [0]
  slow = r.random() < .5
  def net():
    return {"lat": r.choice([0.0, 0.0005, 0.01]), "jitter": r.choice([0, 0.001, 0.02]), "seg": r.choice(["whole", "split", "split", "bytes" if slow else "split"]), "gap": r.choice([0.0, 0.0005, 0.002 if slow else 0.0001]),
            "short": r.choice([0, 0.3, 0.7]), "cap": r.choice([1 << 20, 1 << 20, 4000, 300 if slow else 4000])}
  vers = {c: r.choice([4, 4, 5]) for c in names}
  def pkts(c, side):
    out = []
    for _ in range(r.choice([1, 1, 2, 5, 12])):
      n[0] += 1
      k = G.pick(r, [(6, "pub"), (1, "ping"), (1, "ack"), (1.5, "junk")])
      q = {"k": k}
      if k == "ping": q["k"] = "ping" if side == "c" else "pong"
      if k == "ack": q["pid"] = r.randrange(1, 65536)
      if k == "junk": q.update(seed=r.randrange(1 << 30), n=r.choice([0, 1, 5, 127, 128, 300, 1000 if slow else 17000]))
      if k == "pub":
        q.update(m="%s%s%d." % (c, side, n[0]), qos=r.randrange(3), pid=r.randrange(1, 65536), v=vers[c])
        if r.random() < .25: q["pad"] = r.choice([100, 128, 200, 1000, 2000 if slow else r.choice([3000, 17000, 70000])])
        if r.random() < .1: q["topic"] = r.choice(["MQTTSAS topic", "\u00e9", "x" * 300])
        if r.random() < .08:
          # nearly what the trace proxy takes for its own
          q["topic"], q["raw"] = r.choice([("MQTTSAS topic", "TERMINATE."), ("MQTTSAS topic", "xTERMINATE"), ("MQTTSAS topic", "terminate"), ("MQTTSAS topic", ""), ("MQTTSAS topic", "TERM"),
                                           ("MQTTSAS topic/", "TERMINATE"), ("a/b", "TERMINATE"), ("xMQTTSAS topic", "TERMINATE")])
      out.append(q)
    return out
  def opening(c):
    o = {"op": "open", "c": c, "v": vers[c], "dt": r.choice([0, 0, 0.001, 0.01, 0.2])}
    if r.random() < .7: o["net"], o["nets"] = net(), net()
    return o
  later = [c for c in names if r.random() < .3]
  ops = [opening(c) for c in names if c not in later]
  for _ in range(r.randrange(5, 40)):
    c = r.choice(names)
    k = G.pick(r, [(10, "csend"), (10, "bsend"), (prof.get("leave", 1), "leave"), (1, "pause"), (1.5, "resume"), (2, "wait"), (prof.get("brk", 0), "break"), (1, "term"), (2 if later else 0, "open")])
    if k == "open":
      o = opening(later.pop())
      if r.random() < .2: ops += [{"op": "bdown", "dt": 0}, o, {"op": "bup", "dt": r.choice([0.5, 1.0])}]
      else: ops.append(o)
      continue
    o = {"op": k, "c": c, "dt": r.choice([0, 0, 0, 0.001, 0.003, 0.02])}
    if k == "csend": o["p"] = pkts(c, "c")
    elif k == "bsend": o["p"] = pkts(c, "b")
    elif k == "term" and vers[c] == 5: continue
    elif k == "term": o = {"op": "csend", "c": c, "dt": o["dt"], "p": [{"k": "term"}]} if r.random() < .3 else {"op": "wait", "dt": 1.0}
    elif k == "leave": o.update(side=r.choice("cb"), how=r.choice(["fin", "fin", "rst", "half"]))
    elif k in ("pause", "resume"): o.update(side=r.choice("cb"), cap=r.choice([None, 100 if slow else 2000]))
    elif k == "wait": o["dt"] = r.choice([0.05, 0.5, 2.0])
    ops.append(o)
    if k == "leave" and r.random() < .3: ops.insert(len(ops) - 1, {"op": "csend" if o["side"] == "c" else "bsend", "c": c, "dt": 0, "p": [{"k": "part", "n": r.randrange(1, 5)}]})
  cfg = {"kind": kind, "sched": {"preempt": r.choice([0, 0.002, 0.02]), "kind": r.choice(["random", "random", "fifo", "lifo"])}, "net_s": net(), "net_t": net(), "net_c": net(), "max_steps": 400000, "clients": {}}
  return {"profile": prof.get("name"), "mode": "proxy", "seed": seed, "sched_seed": r.randrange(1 << 31), "cfg": cfg, "ops": ops}
