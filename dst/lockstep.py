"""Mode A: one operation at a time against the reference model."""
from . import codec, kernel
from .kernel import Violation, StepLimit
from .model import Model, matches, share_of
from .world import World

INF = float("inf")


def payload(op):
  m = op.get("m", "")
  return (m + "." * max(0, op.get("pad", 0) - len(m))).encode()


class Driver:
  def __init__(self, scn):
    self.scn = scn
    cfg = scn.get("cfg", {})
    self.model = Model(None)
    self.w = World(scn, self.model)
    self.model.o = self.w.options
    self.w.options_check = True
    self.sim = self.w.sim
    self.open = []          # open timed windows
    self.done_ops = 0
    self.skipped = 0
    self.opidx = -1
    self.silent = set()
    self.stall_bound = scn.get("stall_bound", 4.0)
    slow = any(o["op"] == "stall" or o["op"] == "rawbad" and o.get("then") == "stay" for o in scn.get("ops", []))
    self.margin = 1.2 + (self.stall_bound + 2 if slow else 0)
    self.rested = False
    self.dup_last = None

  # ------------------------------------------------------------ running
  def run(self):
    w = self.w
    w.start_broker()
    p = self.scn.get("cfg", {}).get("sched", {})
    if p.get("preempt"): self.sim.arm_lines()
    for name, c in self.scn["cfg"]["clients"].items():
      w.client(name, ver=c.get("ver", 5), cid=c.get("cid"), ws=c.get("ws", False), odd=c.get("odd"), refuse=c.get("refuse", 0))
    for i, op in enumerate(self.scn["ops"]):
      self.opidx = i
      self.op(op)
    self.opidx = len(self.scn["ops"])
    if self.scn.get("epilogue", True):
      self.epilogue()
    if self.model.deferred: raise self.model.deferred

  def op(self, op):
    if op["op"] not in ("adv", "late"): self.clear_time()
    m = self.model
    m.start_op()
    self.sim.ev("OP", self.opidx, op["op"], op.get("c"))
    ok = getattr(self, "o_" + op["op"])(op)
    if ok is False:
      self.skipped += 1
      return
    self.done_ops += 1
    m.stat("op_" + op["op"])
    self.rest()

  def rest(self):
    if any(getattr(c, "stalled", False) or getattr(c, "slow", None) or getattr(c, "lurking", False) for c in self.w.conns if c.live):
      self.sim.run_for(self.stall_bound)      # however the others are held up, this must be enough
      self.sim.count("stalled_rest")
    if not self.sim.run_quiet(30.0):
      self.model.fail("livelock", "the system did not come to rest within 30 s", "P13", "P14", "P26")
    self.model.quiesce()

  def clear_time(self):
    "let timed events that are about to happen, or in progress, happen first"
    for _ in range(60):
      t = [x for x in self.model.timed() if x[0] - self.margin <= self.sim.now and not (x[2] == "keepalive" and not x[3].silent)]
      if not t and not self.open: return
      end = max([x[1] for x in t + self.open])
      self.advance(end - self.sim.now + 0.01)
    raise kernel.HarnessError("time never clears")

  def keep_alive(self, k):
    "clients which are not silent send a PINGREQ in time"
    if not k.live or not k.ka or k.silent or getattr(k, "ended", False) or k.dying is not None: return
    due = k.last_sent + 0.8 * k.ka
    if due > self.sim.now + 1e-6 or getattr(k, "midpacket", False):
      self.sim.at(max(due, self.sim.now + 0.05), lambda: self.keep_alive(k))
      return
    k.send({"t": "PINGREQ"})
    self.keep_alive(k)

  def advance(self, dt):
    m, sim = self.model, self.sim
    target = sim.now + dt
    while True:
      nxt = []
      for x in m.timed(): nxt.append((x[0], 1, "begin", x))
      for x in self.open: nxt.append((x[1], 0, "end", x))
      nxt = [x for x in nxt if x[0] <= target]
      if not nxt: break
      t, _, what, x = min(nxt, key=lambda y: (y[0], y[1]))
      if t > sim.now:
        sim.run_for(t - sim.now)
        m.op_start = sim.now
      if what == "begin" and x[2] == "keepalive" and x[3].last_sent + 1.5 * x[3].ka - 0.05 > sim.now + 1e-6:
        continue      # the client has sent something in the meantime
      if what == "begin":
        self.open.append(x)
        m.begin_window(x)
      else:
        self.rest()
        m.end_window(x)
        self.open.remove(x)
        self.rest()
    if target > sim.now: sim.run_for(target - sim.now)
    self.rest()

  # ------------------------------------------------------------ operations
  def live(self, op):
    c = self.w.clients.get(op.get("c"))
    if c is None or c.conn is None or not c.conn.live or c.conn.disc_sent or getattr(c.conn, "dying", None) is not None or not c.conn.accepted or getattr(c.conn, "stalled", False):
      return None
    return c.conn

  def o_conn(self, op):
    c = self.w.clients[op["c"]]
    k = c.conn
    taking = k is not None and k.live and getattr(k, "dying", None) is None
    if taking and (not op.get("to") or c.cid == ""): return False
    if k is not None and k.live and getattr(k, "stalled", False):
      k.ignored = k.mute = True      # whatever it still gets when it wakes up is of no interest, except that it ends
    ver = c.ver
    if self.scn["cfg"]["clients"].get(c.name, {}).get("cid") == "" and not taking and (ver, c.cid) not in self.model.sessions: c.cid = ""     # let the broker choose again
    p = {"t": "CONNECT", "cid": c.cid, "clean": bool(op.get("clean")), "ka": op.get("ka", 0)}
    if ver == 5:
      p["p"] = {k: v for k, v in op.items() if k in ("sei", "rm", "mps", "tam")}
      if op.get("up"): p["p"]["up"] = op["up"]
      if c.cid == "" and p["p"].get("mps", 80) < 80: del p["p"]["mps"]       # CONNACK with the assigned identifier would not fit
    if taking and ver == 5 and k.sess is not None and k.sess.sei == 0: p["clean"] = True
    wl = op.get("will")
    if wl:
      p["will"] = {"topic": wl["topic"], "payload": payload(wl), "qos": wl.get("qos", 0), "retain": wl.get("retain", False)}
      if ver == 5: p["will"]["p"] = self.pubprops(wl)
    for kk in ("user", "pw"):
      if kk in op: p[kk] = op[kk]
    key = (ver, c.cid)
    s = self.model.sessions.get(key)
    if op.get("resend") is not None: c.resend = op["resend"]
    conn = c.connect(None, cfg_out=self.netcfg(op.get("nc")), cfg_in=self.netcfg(op.get("ns")))
    if conn is None:
      self.model.fail("refused", "%s: connection refused" % c.name, "P13")
    conn.silent = bool(op.get("silent"))
    conn.connect_pkt = p
    conn.send(p)
    self.keep_alive(conn)
    if conn.dying is not None: return True
    for q in op.get("then", []):        # requests sent without waiting for CONNACK
      self.send_sub(conn, q)
    return True

  def netcfg(self, d):
    from .net import NetCfg
    return NetCfg.of(d) if d else None

  def pubprops(self, op):
    pr = dict(op.get("p") or {})
    if "cd" in pr and isinstance(pr["cd"], str): pr["cd"] = pr["cd"].encode("latin-1")
    return pr

  def packet(self, conn, q):
    "the packet an operation stands for"
    c = conn.client
    k = q["op"]
    if k == "pub":
      p = {"t": "PUBLISH", "topic": q["topic"], "qos": q.get("qos", 0), "retain": bool(q.get("retain")), "payload": payload(q)}
      if p["qos"]: p["pid"] = c.newpid()
      if conn.ver == 5:
        p["p"] = self.pubprops(q)
        if "ta" in q:
          p["p"]["ta"] = q["ta"]
          if q["ta"] in conn.my_aliases and q.get("short") and conn.my_aliases[q["ta"]]:
            p["topic"] = ""
          elif 0 < q["ta"] <= self.w.options["topicAliasMaximum"]:
            conn.my_aliases[q["ta"]] = q["topic"]
      return p
    if k == "sub":
      p = {"t": "SUBSCRIBE", "pid": c.newpid(), "filters": [(f, o) for f, o in q["f"]], "p": {}}
      if conn.ver == 5:
        if q.get("sid"): p["p"]["sid"] = q["sid"]
        if q.get("up"): p["p"]["up"] = [tuple(x) for x in q["up"]]
      return p
    if k == "unsub":
      p = {"t": "UNSUBSCRIBE", "pid": c.newpid(), "filters": list(q["f"])}
      if conn.ver == 5 and q.get("up"): p["p"] = {"up": [tuple(x) for x in q["up"]]}
      return p
    if k == "ping":
      return {"t": "PINGREQ"}
    if k == "disc":
      p = {"t": "DISCONNECT"}
      if conn.ver == 5:
        p["rc"] = q.get("rc", 0)
        if "sei" in q: p["p"] = {"sei": q["sei"]}
      return p
    return None

  def feasible(self, conn, q):
    k = q["op"]
    if k == "pub" and conn.ver == 5:
      s, o = conn.sess, self.w.options
      if s is None: return False
      if q["topic"] == "cmd/disconnectWithRC" and s.will: return False      # whether it is published then is not said
      if not q.get("over"):
        if q.get("qos") and len(s.in2) >= o["receiveMaximum"]: return False
        n = len(codec.encode(dict(t="PUBLISH", topic=q["topic"], qos=1, pid=1, payload=payload(q), p=dict(self.pubprops(q), ta=1)), 5))
        if n > o["maximumPacketSize"] and not q.get("big"): return False
    return True

  def send_sub(self, conn, q):
    if not self.feasible(conn, q): return False
    p = self.packet(conn, q)
    if p is None: return False
    conn.send(p, frames=q.get("frames"))
    return True

  def simple(self, op):
    conn = self.live(op)
    if conn is None: return False
    return self.send_sub(conn, op)

  o_pub = o_sub = o_unsub = o_ping = simple

  def o_disc(self, op):
    conn = self.live(op)
    if conn is None: return False
    return self.send_sub(conn, op)

  def o_drop(self, op):
    conn = self.live(op)
    if conn is None: return False
    conn.drop(op.get("how", "fin"))

  def o_batch(self, op):
    "several requests in one write"
    conn = self.live(op)
    if conn is None: return False
    n = 0
    data = b""
    for q in op["ops"]:
      if not self.feasible(conn, q): continue
      p = self.packet(conn, q)
      if p is None: continue
      data += codec.encode(p, conn.ver)
      conn._note_sent(p)
      n += 1
      if q["op"] == "disc" or conn.dying is not None: break
      if getattr(conn, "may_close", False): break     # the broker may give up on the client, and with it on the requests it has not read
    if not n: return False
    conn.raw(data, op.get("frames"))
    if op.get("fin"):
      conn.lossy = True
      conn.drop("fin")

  def footprint(self, q):
    """what an operation depends on and changes: topics published, topics retained, filters changed, sessions changed"""
    c = self.w.clients[q["c"]]
    T, R, F, S = set(), set(), set(), set()
    k = q["op"]
    if k == "pub":
      t = q["topic"]
      T.add(t)
      if "ta" in q and c.conn is not None: T |= {x for x in c.conn.my_aliases.values() if x}
      if q.get("retain"): R.add(t)
    elif k == "sub": F |= {f for f, o in q["f"]}
    elif k == "unsub": F |= set(q["f"])
    elif k == "batch":
      for x in q["ops"]:
        a = self.footprint(x)
        T |= a[0]; R |= a[1]; F |= a[2]; S |= a[3]
    if k in ("conn", "disc", "drop", "bad") or self.fatal(q) or k == "batch" and (q.get("fin") or any(x["op"] == "disc" or self.fatal(x) for x in q["ops"])):
      s = self.model.sessions.get((c.ver, c.cid)) or (c.conn.sess if c.conn is not None and c.cid == "" else None)
      S.add(q["c"])
      F |= set(self.model.ghosts.get((c.ver, c.cid), ()))
      if s is not None:
        F |= set(s.subs)      # all its subscriptions may come or go, or be of another kind
        if s.will:
          T.add(s.will["topic"])
          if s.will["retain"]: R.add(s.will["topic"])
        for x in self.model.delayed:      # it is published when the session ends
          if x[2] is s:
            T.add(x[3]["topic"])
            if x[3]["retain"]: R.add(x[3]["topic"])
      for d in c.out.values():
        t = d["pkt"].get("rtopic") or d["pkt"].get("topic")
        if t: T.add(t)
        if d["pkt"].get("retain"): R.add(t)
    return T, R, F, S

  def fatal(self, q):
    "a request for which the broker may end the connection, and with it perhaps the session"
    if q["op"] != "pub": return False
    ta, conn = q.get("ta"), self.w.clients[q["c"]].conn
    return bool(q.get("big") or q.get("over") or q["topic"].startswith("cmd/") or q["topic"] == "" and not (conn is not None and conn.my_aliases.get(ta)) or "+" in q["topic"] or "#" in q["topic"]
                or ta is not None and not 0 < ta <= self.w.options["topicAliasMaximum"])

  def o_par(self, op):
    "requests of several clients at the same time; only such as have the same result whatever order the broker takes them in"
    done, used = [], set()
    net = self.w.net
    if op.get("sync") is not None:      # everything arrives at the same moment
      net.gate = []
      for c in sorted({q["c"] for q in op["ops"]}):
        k = self.w.clients[c].conn if c in self.w.clients else None
        if k is not None and k.live:
          k.ep.hold()
          net.gate.append(k.ep)
    def open_gate():
      if net.gate is None: return
      gate, net.gate = net.gate, None
      self.sim.run_for(0.01)
      t = self.sim.now + 0.001
      if op.get("tick"):         # when a timer of the broker goes off
        l = [e[0] for e in self.sim.heap if e[2] is not None and not e[3] and t < e[0] < t + 1.1]
        if l: t = min(l) - op["sync"] / 2
      for e in gate: e.unhold(t + op["sync"] * self.sim.rng.random())
      self.model.stat("simultaneous")
    for q in op["ops"]:
      if q["c"] in used or q["c"] not in self.w.clients: continue
      k = self.w.clients[q["c"]].conn
      if k is not None and k.live and getattr(k, "may_close", False) and q["op"] != "conn": continue     # may be closed before its request is read
      fp = self.footprint(q)
      hit = lambda T, F: any(matches(share_of(f) or f, t) for f in F for t in T)
      if any(hit(fp[0], g[2]) or hit(g[0], fp[2]) or fp[1] & g[0] or g[1] & fp[0] for g in done): continue
      if q.get("dt"): self.sim.run_for(q["dt"])
      if q["op"] == "bad": open_gate()
      if getattr(self, "o_" + q["op"])(q) is False: continue
      used.add(q["c"])
      done.append(fp)
      self.model.stat("par_" + q["op"])
      self.model.relax()
    open_gate()
    if len(done) > 1: self.model.stat("concurrent")
    return len(done) > 0

  def o_flood(self, op):
    "many messages, in chunks"
    conn = self.live(op)
    if conn is None: return False
    n = 0
    for a in range(0, op["n"], op.get("chunk", 50)):
      if conn is not self.live(op): break
      data = b""
      for i in range(a, min(op["n"], a + op.get("chunk", 50))):
        q = {"op": "pub", "topic": op["topic"], "qos": op.get("qos", 1), "m": "%s.%d" % (op.get("m", "f"), i)}
        if not self.feasible(conn, q): continue
        p = self.packet(conn, q)
        data += codec.encode(p, conn.ver)
        conn._note_sent(p)
        n += 1
        if getattr(conn, "may_close", False): break
      if data: conn.raw(data)
      self.rest()
      self.model.start_op()
    self.model.stat("flood_msgs", n)
    return n > 0

  def o_partial(self, op):
    "part of a packet, then (after everything else came to rest) the rest, or the end"
    conn = self.live(op)
    if conn is None or not self.feasible(conn, op["of"]): return False
    p = self.packet(conn, op["of"])
    data = codec.encode(p, conn.ver)
    cut = max(1, min(len(data) - 1, int(len(data) * op.get("cut", 0.5))))
    if op.get("then") == "drop":
      if p.get("qos"): conn.client.out[p["pid"]] = {"state": "pub", "pkt": p, "conn": conn}
      conn.raw(data[:cut])
      conn.midpacket = True
      self.sim.run_for(op.get("gap", 0.02))
      conn.drop(op.get("how", "fin"))
    else:
      conn.raw(data[:cut])
      conn.midpacket = True
      self.sim.run_for(min(0.2, op.get("gap", 0.02)))
      conn.midpacket = False
      conn._note_sent(p)
      conn.raw(data[cut:])

  def o_pol(self, op):
    c = self.w.clients[op["c"]]
    c.policy = {t: "hold" for t in op.get("hold", [])}
    return True

  def o_release(self, op):
    conn = self.live(op)
    if conn is None or not conn.held: return False
    conn.release(op.get("n"), op.get("order", "fifo"))

  def o_dup(self, op):
    "the publisher sends an unfinished QoS 2 PUBLISH (or PUBREL) again on the same connection"
    conn = self.live(op)
    if conn is None: return False
    for pid, d in conn.client.out.items():
      if d["pkt"]["qos"] == 2:
        if d["state"] == "pub":
          q = dict(d["pkt"]); q["dup"] = True
          if conn.ver == 5 and q.get("p") and q["p"].get("ta"):
            continue
          conn.send(q)
        else:
          conn.send({"t": "PUBREL", "pid": pid})
        return True
    return False

  def o_rel(self, op):
    "PUBREL for a packet id the broker does not know"
    conn = self.live(op)
    if conn is None: return False
    pid = op.get("pid", 4242)
    if pid in conn.sess.in2: return False
    conn.send({"t": "PUBREL", "pid": pid})

  def o_ack(self, op):
    "an acknowledgement for nothing"
    conn = self.live(op)
    if conn is None: return False
    if self.model.find(conn.sess, op.get("pid", 60000)): return False
    conn.send({"t": op["t"], "pid": op.get("pid", 60000)})

  def o_adv(self, op):
    self.advance(op["dt"])

  def o_late(self, op):
    "a client comes back just before, or just after, its session expires"
    c, m = self.w.clients[op["c"]], self.model
    k = self.live(op)
    if k is not None and k.ver == 5 and k.sess is not None and 0 < k.sess.sei < 100:
      self.clear_time()
      if self.live(op) is not None:
        k.drop("fin")
        self.rest()
    s = m.sessions.get((c.ver, c.cid))
    if s is None or c.ver != 5 or s.conn is not None or s.end is None or s.sei in (0, float("inf")): return False
    t = (s.end if op["off"] < 0 else s.end_hi) + s.sei + op["off"]
    if t <= self.sim.now or any(x[2] == "will" for x in self.open): return False
    self.advance(t - self.sim.now)
    # nothing else may be about to happen
    mine = lambda x: x[2] == "expiry" and x[3] is s
    if any(not mine(x) for x in self.open) or any(not mine(x) and x[0] < self.sim.now + 1.5 for x in m.timed()): return False
    m.stat("connect_before_expiry" if op["off"] < 0 else "connect_after_expiry")
    return self.o_conn(dict(op, clean=False))

  def o_wall(self, op):
    self.sim.wall_offset += op["d"]
    self.sim.count("wall_jump")

  def o_net(self, op):
    "network conditions of a live connection change"
    conn = self.live(op)
    if conn is None: return False

  def o_newpid(self, op):
    "move the client's packet identifier counter"
    self.w.clients[op["c"]].lastpid = op["pid"]

  # -- a client that stops reading, or stops in the middle of a packet
  def o_stall(self, op):
    conn = self.live(op)
    if conn is None or conn.sess is None or conn.sess.will or conn.sess.sei == 0 or conn.ka or getattr(conn, "slow", None): return False
    kind = op["kind"]
    self.sim.count("stall_" + kind)
    if kind == "slow":
      self.netcap(conn, op.get("cap", 400))
      conn.slow = {"on": True}
      conn.may_close = op.get("cap", 400) < 700     # the broker gives up on a client which does not take a packet within a third of a second
      self.drip(conn, op.get("gap", 0.1))
      return True
    if kind == "mid":
      if not self.feasible(conn, op["of"]): return False
      p = self.packet(conn, op["of"])
      data = codec.encode(p, conn.ver)
      cut = max(1, min(len(data) - 1, int(len(data) * op.get("cut", 0.5))))
      conn.rest = (p, data[cut:])
      conn.raw(data[:cut])
    else:
      self.netcap(conn, op.get("cap", 400))
    conn.stalled = conn.may_close = True
    conn.ep.pause()

  def netcap(self, conn, cap):
    from .net import NetCfg
    c = conn.ep.peer.cfg
    conn.ep.peer.cfg = NetCfg(c.lat, c.jitter, c.seg, c.gap, cap, c.short)

  def drip(self, conn, gap):
    "a slow reader: reads what has arrived every now and then"
    if not conn.live or not conn.slow: return
    conn.ep.resume()
    if not conn.live: return
    conn.ep.pause()
    self.sim.after(gap, lambda: self.drip(conn, gap))

  def o_unstall(self, op):
    c = self.w.clients.get(op.get("c"))
    conn = c and c.conn
    if conn is None: return False
    if getattr(conn, "slow", None):
      conn.slow = None
      self.netcap(conn, 1 << 20)
      if conn.live: conn.ep.resume()
      self.rest()
      if conn.live: conn.may_close = False
      return True
    if not conn.live or not getattr(conn, "stalled", False): return False
    if op.get("how", "resume") != "resume":
      conn.drop(op["how"])
      conn.stalled = False
      return True
    self.netcap(conn, 1 << 20)
    conn.holdall = True       # an answer may be too late: the broker may have given up on the connection
    conn.ep.resume()
    conn.stalled = False
    rest = getattr(conn, "rest", None)
    if rest and conn.live and conn.dying is None:
      conn.rest = None
      self.sim.run_for(0.05)
      if conn.live and conn.dying is None:
        conn._note_sent(rest[0])
        conn.raw(rest[1])
    self.rest()
    if conn.live and conn.dying is None:
      conn.may_close = conn.holdall = False
      items, conn.held = conn.held, []
      for kind, p in items:
        if c.policy.get(kind) == "hold": conn.held.append((kind, p))
        elif conn.live: conn._do_answer(p)
      self.model.stat("unstalled_alive")
      conn.send({"t": "PINGREQ"})
    else:
      self.model.stat("unstalled_closed")

  # -- a client that breaks the rules
  def o_bad(self, op):
    conn = self.live(op)
    if conn is None: return False
    from . import bad
    data = bad.build(op["kind"], conn, dict(op, tam=self.w.options["topicAliasMaximum"]))
    if data is None: return False
    m = self.model
    self.sim.count("bad_" + op["kind"])
    conn.raw(data)
    m.die(conn, "bad " + op["kind"], set(range(0x80, 0xA3)), False, ("P29", "P13"), by=op.get("by", 1.0))
    if op["kind"].startswith("alias"): conn.dying.tags = ("P16", "P13")
    conn.dying.lossy = True
    if op.get("more"):
      conn.raw(codec.encode({"t": "PINGREQ"}, conn.ver))
    m.relax()
    self.advance(1.1)

  def o_rawbad(self, op):
    "a connection that never becomes an MQTT session"
    from . import bad
    m = self.model
    c = self.w.client(op["c"] + "~raw", ver=5, cid="zz")
    conn = c.connect(None, tls=(op["kind"], op.get("n", 0)) if op["kind"].startswith("tls") else None)
    conn.ignored = True
    if op["kind"].startswith("ws"): conn.ws = None
    data = bad.raw(op["kind"], op, self.model)
    if op.get("then") == "stay": conn.lurking = True
    self.sim.count("bad_raw_" + op["kind"])
    if data: conn.raw(data)
    self.advance(op.get("dt", 1.0))
    if op["kind"] == "mutconn" and data:
      if conn.live: self.advance(1.0)
      if conn.connack and conn.connack["rc"] == 0: m.fail("malformed-accepted", "a CONNECT which is wrong (%s) is accepted: %s" % (bad.wrong(data, 4 + op["n"] % 2), data.hex()), "P29", "P13")
      if conn.live: m.fail("malformed-accepted", "a connection with a wrong CONNECT (%s) stays open: %s" % (bad.wrong(data, 4 + op["n"] % 2), data.hex()), "P29", "P13")
    if op.get("then") == "drop" and conn.live: conn.drop(op.get("how", "fin"))

  # ------------------------------------------------------------ epilogue
  def epilogue(self):
    "faults stop, everyone comes back, everything due arrives"
    m = self.model
    self.clear_time()
    m.start_op()
    for c in self.w.clients.values():
      k = c.conn
      if k is not None and k.live and (getattr(k, "stalled", False) or getattr(k, "slow", None)):
        self.op({"op": "unstall", "c": c.name})
    gone = [k for k in self.w.conns if getattr(k, "mute", False)]
    for k in gone:
      k.ep.resume()
    if gone:
      self.sim.run_for(2.0)
      for k in gone:
        if k.live: m.fail("not-closed", "%r: session taken over while it was stalled, but the connection is still open" % k, "P14", "P09")
    for c in self.w.clients.values():
      c.policy = {}
    for c in self.w.clients.values():
      if "~" in c.name: continue
      k = c.conn
      if k is not None and k.live and getattr(k, "dying", None) is None and k.accepted:
        m.start_op()
        k.release()
        self.rest()
    for c in list(self.w.clients.values()):
      if "~" in c.name: continue
      s = m.sessions.get((c.ver, c.cid))
      if s is not None and s.conn is None:
        op = {"op": "conn", "c": c.name, "clean": False}
        if c.ver == 5: op.update(sei=0 if s.sei == 0 else 1000)
        self.op(op)
    for _ in range(3):
      for c in self.w.clients.values():
        k = c.conn
        if k is not None and k.live and getattr(k, "held", None): k.release()
      self.rest()
    # nothing can be outstanding now except for clients with reasons of their own
    for s in m.sessions.values():
      if s.conn is None or s.lenient: continue
      left = [f for f in s.infl if not m.may_skip(s.conn, f)]
      if left:
        m.fail("never-finished", "%r: handshake for %r (packet id %d) never finished" % (s.conn, m.d(left[0]), left[0].pid), "P01", "P02" if left[0].qos == 2 else None)
    # delayed wills
    for _ in range(20):
      t = [x for x in m.timed() if x[2] == "will"]
      if not t or t[0][0] - self.sim.now > 4000: break
      self.advance(t[0][1] - self.sim.now + 0.1)
    if self.scn["cfg"].get("leaks"): self.check_leaks()

  def check_leaks(self):
    "when every connection has gone, the broker has no threads left but those it started with"
    for k in self.w.conns:
      if k.live:
        k.slow = None
        k.drop("fin")
    self.sim.run_for(5.0)
    left = [t for t in self.w.broker.tasks if t.state != kernel.DONE and t not in self.w.boot_tasks]
    if left:
      self.model.fail("stuck-thread", "all connections are closed, but %s still waits for %s" % (left[0].name, left[0].why), "P14", "P13")
    self.sim.count("leak_check")
