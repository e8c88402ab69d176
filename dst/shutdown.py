"""SIGTERM at any instant: a lockstep workload, then requests in progress, then the signal."""
import random, signal
from . import admin, codec, gen as G, kernel, lockstep, sn
from .model import Model
from .world import HTTP_PORT, SN_PORT

BOUND = 12.0


class Watch:
  "looks at what clients get once the broker has been told to stop"
  def __init__(self, d):
    self.d = d
    self.discs = {}
    self.late = set()
    self.suspect = set()
  def sent(self, conn, p):
    self.late.add(conn)
    m = self.d.model
    if p["t"] == "PUBLISH" and p.get("qos"): conn.late_pubs = getattr(conn, "late_pubs", 0) + 1
    if getattr(conn, "late_pubs", 0) + len(conn.sess.in2 if getattr(conn, "sess", None) else ()) > m.o["receiveMaximum"] or (p.get("p") or {}).get("ta") or len(codec.encode(p, conn.ver)) > m.o["maximumPacketSize"]:
      self.suspect.add(conn)     # it may be breaking a limit
    if p["t"] == "CONNECT":
      conn.accepted, conn.sess, conn.aliases_in, conn.resp, conn.rels, conn.dying, conn.ka = False, None, {}, [], [], None, 0
      for k in self.d.w.conns:
        if k is not conn and k.client is conn.client:
          if k.live and not k.connack: conn.over = True      # the other one's CONNECT may come later
          k.over = True
  def dropped(self, conn, how): pass
  def closed(self, conn, how):
    conn.ended_how = how
    conn.ended_at = self.d.sim.now
  def bad_stream(self, conn, why):
    if not getattr(conn, "ignored", False):
      self.d.model.fail("malformed-output", "%r: %s" % (conn, why), "P26", "P12")
  def got(self, conn, p):
    d = self.d
    if getattr(conn, "ignored", False): return
    if p["t"] == "CONNACK": conn.accepted = True
    if conn in self.discs:
      d.model.fail("after-disconnect", "%r got %s after DISCONNECT" % (conn, p["t"]), "P26")
    if p["t"] == "DISCONNECT":
      self.discs[conn] = p["rc"]
      if conn.ver == 4: d.model.fail("malformed-output", "%r: DISCONNECT to a 3.1.1 client" % conn, "P26", "P19")
      if p["rc"] != 0x8B and conn in d.there and conn not in self.suspect:
        d.model.fail("shutdown-reason", "%r got DISCONNECT %#x at shutdown" % (conn, p["rc"]), "P26")
    elif p["t"] == "PUBLISH" and p["payload"] in d.wills and d.wills[p["payload"]] not in self.suspect and not p["retain"]:
      d.model.fail("will-at-shutdown", "%r got will %r of a client that was connected when the broker was told to stop" % (conn, p["payload"]), "P26", "P07")


class Driver(lockstep.Driver):
  def run(self):
    at = self.scn["cfg"].get("boot_steps")
    if at is None:
      self.stop_op = None
      return lockstep.Driver.run(self)
    self.boot(at)

  def epilogue(self):
    pass

  def boot(self, at):
    "the signal arrives while the broker starts"
    w, sim = self.w, self.sim
    real = w.net.listeners
    n = [0]
    if self.scn["cfg"].get("sched", {}).get("preempt"): sim.arm_lines()
    w.launch()
    g = w.broker
    sim.run_until(lambda: signal.SIGTERM in g.handlers, 20.0)
    for _ in range(at):
      if not sim.step(sim.now + 0.3): break
    self.model.stat("op_boot")
    self.terminate(w, [])

  # the last operation
  def o_sigterm(self, op):
    w, sim, m = self.w, self.sim, self.model
    self.clear_time()
    self.stopping, self.there, self.wills = True, (), ()
    w.oracle = self.watch = Watch(self)
    for q in op.get("with", []):
      self.opidx_sub = q
      f = getattr(self, "o_" + q["op"])
      f(q)
      if op.get("each"): sim.run_for(op["each"])
    sim.run_for(op.get("delay", 0.0))
    there = [c for c in w.conns if c.live and c.connack and c.connack["rc"] == 0 and not c.disc_sent and getattr(c, "dying", None) is None and not getattr(c, "over", False)]
    self.terminate(w, there)

  def o_other(self, op):
    "traffic at the other listeners"
    if op["kind"] == "sn":
      s = self.w.net.udp.get(SN_PORT)
      if s is None: return False
      self.w.net.udp.setdefault(50001, lambda data, src: None)
      for i in range(op["n"]):
        data = sn.connect({"cid": "sn"}) if i % 3 == 0 else sn.publish({"topic": "zz", "m": "x%d" % i, "qos": -(i % 2), "retain": i % 5 == 0})
        self.sim.at(self.sim.now + 0.0005 * (i + 1), lambda data=data: not s._closed and s._dgram(data, ("10.0.1.1", 50001)), net=True)
    elif HTTP_PORT in self.w.net.listeners:
      self.requests = []
      for i in range(op["n"]):
        admin.Request(self, b"GET /api/v0001/%s HTTP/1.1\r\n\r\n" % [b"clients", b"retained", b"subscriptions"][i % 3] if op["kind"] == "get" else b"GET"[:i % 4])
    else: return False

  def rest(self):
    if not getattr(self, "stopping", False): return lockstep.Driver.rest(self)

  def terminate(self, w, there):
    sim = self.sim
    self.stopping = True
    self.there = there
    self.wills = {}
    for c in there:
      wl = (c.connect_pkt or {}).get("will")
      if wl: self.wills[wl["payload"]] = c
    watch = w.oracle = getattr(self, "watch", None) or Watch(self)
    g = w.broker
    sim.ev("SIGTERM")
    t0 = sim.now
    for c in there: c.unacked = c.ep.undelivered
    sim.signal_group(g, signal.SIGTERM)
    sim.count("sigterm")
    over = lambda: g.main.state == kernel.DONE and all(t.state == kernel.DONE or t.daemon for t in g.tasks)
    if not sim.run_until(over, BOUND):
      left = [t for t in g.tasks if t.state != kernel.DONE and not t.daemon]
      self.model.fail("not-stopped", "%.0f s after SIGTERM %s is still there, waiting for %s" % (BOUND, left[0].name.rsplit("-", 1)[0], left[0].why), "P26")
    sim.run_for(0.2)
    sim.run_until(lambda: not any(c.live for c in there if not (getattr(c, "stalled", False) or getattr(c, "slow", None) or getattr(c, "mute", False))), 3.0) # in transit
    for c in there:
      sl = getattr(c, "stalled", False) or getattr(c, "slow", None)
      if sl or getattr(c, "mute", False): continue
      if c.live:
        self.model.fail("not-closed", "%r: the broker has stopped without closing the connection" % c, "P26")
      if c.ver == 5 and c.closed != "local" and c not in watch.discs and not (c.ended_how == "rst" and c in watch.late) and not (c.unacked and c.ended_how == "rst"):
        self.model.fail("no-disconnect-packet", "%r: closed (%s) at shutdown without DISCONNECT" % (c, c.ended_how), "P26")
    sim.count("stop_ms", int(1000 * (sim.now - t0)))
    # the process exits
    sim.kill_group(g)
    w.net.crash_group(g)
    sim.run_for(0.5)
    for c in w.conns:
      if c.live and getattr(c, "slow", None): c.slow = None; c.ep.resume()
      if c.live and (getattr(c, "stalled", False) or getattr(c, "mute", False)): c.mute = True; c.ep.resume()
    sim.run_for(0.5)
    for c in w.conns:
      if c.live and c.ep.err is None: self.model.fail("not-closed", "%r is open although the process has ended" % c, "P26")


def generate(prof, seed):
  g = G.Gen(prof, seed)
  r = g.r
  scn = g.scenario()
  for k in ("sn", "http"):
    if r.random() < .35: scn["cfg"][k] = True
  if r.random() < prof.get("boot", 0.1):
    scn["cfg"]["boot_steps"] = r.choice([0, 1, 2, 3, 5, 8, r.randrange(60)])
    scn["ops"] = []
    return scn
  wth = []
  for _ in range(r.choice([0, 1, 2, 4, 6])):
    k = r.choice(["batch", "pub", "conn", "conn", "sub", "rawbad0", "stall"])
    c = r.choice(g.names)
    if k == "batch": q = {"op": "batch", "c": c, "ops": [g.req(c) for _ in range(r.randrange(2, 6))]}
    elif k == "conn":
      q = g.conn(c)
      q["to"] = r.random() < .5
    elif k == "stall": q = {"op": "stall", "c": c, "kind": r.choice(["noread", "mid"]), "cap": r.choice([1, 200]), "of": g.req(c), "cut": r.random()}
    elif k == "rawbad0": q = {"op": "rawbad", "c": c, "kind": r.choice(["silent", "halfconn", "wshalf", "wsframe"]), "n": r.randrange(60), "dt": 0.0, "then": "stay"}
    else: q = getattr(g, k)(c)
    wth.append(q)
  if scn["cfg"].get("sn") and r.random() < .5: wth.insert(r.randrange(len(wth) + 1), {"op": "other", "kind": "sn", "n": r.choice([1, 3, 10])})
  if scn["cfg"].get("http") and r.random() < .5: wth.insert(r.randrange(len(wth) + 1), {"op": "other", "kind": r.choice(["get", "silent"]), "n": r.choice([1, 3])})
  scn["ops"].append({"op": "sigterm", "with": wth, "delay": r.choice([0, 0, 0.0005, 0.001, 0.002, 0.003, 0.005, 0.01, 0.02, 0.05, round(r.uniform(0, 1.2), 3)]), "each": r.choice([0, 0, 0.001])})
  return scn
