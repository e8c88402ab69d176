"""A simulated deployment: the real broker process and scripted MQTT clients."""
import io, logging, os, random, sys, zlib
from . import kernel, net, seams, codec, strict
from .kernel import Sim, Group, HarnessError
from .codec import BadPacket
from .tls import End

MQTT_PORT, SN_PORT, HTTP_PORT, TLS_PORT = 1883, 1885, 8080, 8883

DEFAULTS = {"overlapping_single": True, "publish_on_pubrel": False, "topicAliasMaximum": 2, "maximumPacketSize": 256,
            "receiveMaximum": 2, "serverKeepAlive": 60, "dropQoS0": True}


REFUSALS = (0x80, 0x83, 0x87, 0x90, 0x97, 0x99)      # reason codes with which a client may refuse a message

class Sink(io.TextIOBase):
  "where the code under test's stdout/stderr go during a run"
  def __init__(self): self.tail = []
  def write(self, s):
    self.tail.append(s)
    if len(self.tail) > 400: del self.tail[:200]
    return len(s)
  def flush(self): pass


class World:
  def __init__(self, scn, oracle=None):
    self.scn = scn
    cfg = self.cfg = scn.get("cfg", {})
    self.sim = Sim(scn.get("sched_seed", 0), cfg.get("sched"), cfg.get("max_steps", 150000))
    self.sim.max_spin = cfg.get("max_spin", self.sim.max_spin)
    kernel.cur = self.sim
    self.sim.keep_log = bool(scn.get("keep_log"))
    self.net = self.sim.net = net.Net(self.sim)
    self.net.server_cfg = net.NetCfg.of(cfg.get("net_s", {}))
    self.net.client_cfg = net.NetCfg.of(cfg.get("net_c", {}))
    self.net.task_client_cfg = net.NetCfg.of(cfg.get("net_t", {}))
    self.options = dict(DEFAULTS)
    self.options.update(cfg.get("options", {}))
    self.broker = None
    self.incarnation = 0
    self.clients = {}
    self.conns = []
    self.oracle = oracle
    self.gseq = 0
    self.sink = Sink()
    random.seed(scn.get("sched_seed", 0) ^ 0x5bd1e995)
    if oracle: oracle.world = self

  # ------------------------------------------------------------- broker
  def config_lines(self):
    o = self.options
    lines = []
    if self.cfg.get("persistence"): lines.append("persistence true")
    lines += ["receive_maximum %d" % o["receiveMaximum"], "topic_alias_maximum %d" % o["topicAliasMaximum"],
              "maximum_packet_size %d" % o["maximumPacketSize"]]
    if self.cfg.get("visual"): lines.append("visual true")
    if self.cfg.get("http"): lines.append("listener %d INADDR_ANY http" % HTTP_PORT)
    if self.cfg.get("sn"): lines.append("listener %d INADDR_ANY mqttsn" % SN_PORT)
    if o["serverKeepAlive"] != DEFAULTS["serverKeepAlive"]: lines.append("server_keep_alive %d" % o["serverKeepAlive"])
    for p in self.cfg.get("more_ports", []): lines.append("listener %d" % p)
    if self.cfg.get("tls"): lines += ["listener %d" % TLS_PORT, "require_certificate false", "certfile server.crt", "keyfile server.key", "cafile ca.crt"]
    lines.append("listener %d" % MQTT_PORT)
    if self.cfg.get("more_ports"):     # written as configuration files are
      lines = ["# configuration", "", "log_type error", "allow_anonymous true"] + ["  %s \n" % l if i % 2 else l.replace("maximum_packet_size", "message_size_limit") + "\n"
               for i, l in enumerate(lines)] + ["#tls_version tlsv1\n", "\n"]
    return lines

  def start_broker(self):
    g = self.launch()
    ok = self.sim.run_until(lambda: MQTT_PORT in self.net.listeners and self.net.listeners[MQTT_PORT]._listening, 20.0)
    if not ok:
      raise HarnessError("broker did not start: %r %s" % (self.sim.task_errors, "".join(self.sink.tail)[-800:]))
    if self.inject and len(self.seen) < 2:
      self.options.update({k: DEFAULTS[k] for k in self.inject})
      self.sim.count("options_not_injected")
    self.sim.run_for(0.01)
    self.boot_tasks = [t for t in g.tasks]

  def launch(self):
    import mqtt.brokers.start as start
    self.incarnation += 1
    g = self.broker = Group("broker%d" % self.incarnation)
    # options which no line of the configuration file sets
    inject = self.inject = {k: self.options[k] for k in ("publish_on_pubrel", "overlapping_single", "dropQoS0") if self.options[k] != DEFAULTS[k]}
    seen = self.seen = []
    for name in ("MQTTV3Brokers", "MQTTV5Brokers"):
      self.wrap_options(start, name, inject, seen)
    lines = self.config_lines()
    def main():
      start.run(lines)
    self.sim.default_group = g
    old = self.sim.current
    g.main = self.sim.spawn(main, "main%d" % self.incarnation, g)
    self.sim.default_group = self.sim.main_group
    return g

  def wrap_options(self, start, name, inject, seen):
    cls = getattr(start, name, None)
    if cls is None: return
    cls = getattr(cls, "_sim_orig", cls)
    if not inject:
      setattr(start, name, cls)
      return
    def make(*a, **k):
      if isinstance(k.get("options"), dict):
        k["options"] = dict(k["options"], **inject)
        seen.append(name)
      return cls(*a, **k)
    make._sim_orig = cls
    setattr(start, name, make)

  def crash_broker(self):
    self.sim.kill_group(self.broker)
    self.net.crash_group(self.broker)

  # ------------------------------------------------------------- clients
  def client(self, name, **kw):
    if name not in self.clients:
      self.clients[name] = Client(self, name, **kw)
    return self.clients[name]

  def seq(self):
    self.gseq += 1
    return self.gseq


class Client:
  "one MQTT client identity; its session state survives its connections"
  def __init__(self, world, name, ver=5, cid=None, ws=False, odd=None, refuse=0):
    self.refuse = refuse        # one message in so many is acknowledged with an error
    self.odd = random.Random(odd) if odd is not None else None # writes packets in unusual but correct ways
    self.world, self.name, self.ver, self.ws = world, name, ver, ws
    self.cid = name if cid is None else cid
    self.conn = None
    self.conns = []
    self.policy = {}            # packet type -> "hold" (default: answer at once)
    self.out = {}               # pid -> {"state": "pub"|"rel", "pkt": PUBLISH} own unfinished publishes, in order
    self.in2 = {}               # pid -> True: QoS 2 received, PUBREL awaited
    self.lastpid = 0
    self.resend = True
    self.ports = [MQTT_PORT] + world.cfg.get("more_ports", []) + [TLS_PORT] * (3 if world.cfg.get("tls") else 0)

  def newpid(self):
    for _ in range(65535):
      self.lastpid = self.lastpid % 65535 + 1
      if self.lastpid not in self.out and not (self.conn and self.lastpid in self.conn.requests):
        return self.lastpid
    raise HarnessError("no packet ids")

  def peekpid(self):
    "the identifier newpid() would give"
    last, pid = self.lastpid, self.newpid()
    self.lastpid = last
    return pid

  def connect(self, pkt, ws=None, split=None, cfg_out=None, cfg_in=None, quiet=False, tls=None):
    "open a connection and send CONNECT; returns the Conn or None if refused"
    c = Conn(self, self.ws if ws is None else ws)
    port = self.ports[zlib.crc32(b"%s %d" % (self.name.encode(), len(self.conns))) % len(self.ports)]   # any of the listeners
    if tls is not None: port = TLS_PORT
    end = None
    if port == TLS_PORT: end = End(self.world.sim, c, len(self.world.conns) * 7 + len(self.name))
    ep = self.world.net.connect(port, end or c, cfg_out, cfg_in)
    if ep is None:
      return None
    c.ep = ep
    if end is not None:
      end.ep, c.ep = ep, end
      if tls is None: end.open(ep)
      else: end.junk(*tls)
    self.conns.append(c)
    self.world.conns.append(c)
    c.serial = len(self.world.conns)
    self.conn = c
    if c.ws:
      c.ep.write(codec.WS_REQ)
    if pkt is not None:
      c.connect_pkt = pkt
      c.send(pkt)
    return c


class Conn:
  def __init__(self, client, ws):
    self.client, self.world, self.sim = client, client.world, client.world.sim
    self.ver = client.ver
    self.ws = codec.WsStream() if ws else None
    self.stream = codec.Stream()
    self.ep = None
    self.connect_pkt = None
    self.connack = None
    self.closed = None          # how the connection ended: "fin", "rst" (by the broker), "local"
    self.bad = None
    self.held = []              # acknowledgements withheld by policy
    self.requests = {}          # pid -> SUBSCRIBE/UNSUBSCRIBE awaiting an answer
    self.aliases = {}           # aliases bound by the broker
    self.my_aliases = {}
    self.got = []
    self.sentlog = []
    self.dressed = None
    self.disc_sent = False
    self.wsbuf = None
    self.delay = None           # callable giving the delay before automatic answers
    self.serial = 0
    self.half = b""

  def __repr__(self):
    return "%s#%d" % (self.client.name, self.serial)

  @property
  def live(self):
    return self.closed is None

  # -- sending
  def raw(self, data, frames=None):
    "write bytes (in one websocket frame, or cut into `frames` frames)"
    if self.ws:
      out, cuts = b"", frames or [len(data)]
      i = 0
      for n in cuts:
        if i < len(data):
          out += codec.ws_frame(data[i:i+n])
          i += n
      if i < len(data): out += codec.ws_frame(data[i:])
      data = out
    return self.ep.write(data)

  def send(self, *pkts, frames=None, observe=True):
    "send packets back to back"
    if not self.live:
      return False
    data = b""
    for p in pkts:
      data += self.coded(p) if isinstance(p, dict) else p
      if observe and isinstance(p, dict):
        self._note_sent(p)
    return self.raw(data, frames)

  def coded(self, p):
    plain = codec.encode(p, self.ver)
    if self.client.odd is None: return plain
    data = strict.dress(self.client.odd, p, self.ver, self.world.options["maximumPacketSize"])
    if data != plain:
      self.sim.count("odd_packet")
      self.dressed = p, data
    return data

  def _note_sent(self, p):
    t = p["t"]
    c = self.client
    if self.dressed and self.dressed[0] is p:
      cut = codec.Stream()
      cut.feed(self.dressed[1])
      hdr, body, _ = cut.next()
      self.sentlog.append(codec.decode(hdr, body, self.ver, False))
    else: self.sentlog.append(p)
    self.sim.ev("C>", self.client.name, self.serial, t, p.get("pid"), p.get("topic"))
    if t == "PUBLISH" and p.get("qos") and p["topic"] != "cmd/disconnectWithRC":     # (its answer is a DISCONNECT; it is not sent again)
      c.out[p["pid"]] = {"state": "pub", "pkt": p, "conn": self}
    elif t in ("SUBSCRIBE", "UNSUBSCRIBE"):
      self.requests[p["pid"]] = p
    elif t == "DISCONNECT":
      self.disc_sent = True
    if self.world.oracle:
      self.world.oracle.sent(self, p)

  def verdict(self, p):
    "the acknowledgement of a PUBLISH: an error for some messages, the same one each time"
    q, n = {"t": "PUBACK" if p["qos"] == 1 else "PUBREC", "pid": p["pid"]}, zlib.crc32(p["payload"])
    if self.ver == 5 and self.client.refuse and n % self.client.refuse == 0:
      q["rc"] = REFUSALS[n // 64 % len(REFUSALS)]
      self.sim.count("error_ack")
    return q

  def answer(self, p, kind):
    "automatic protocol answer, subject to the client's policy"
    if self.client.policy.get(kind) == "hold" or getattr(self, "ka_dying", None) or getattr(self, "holdall", False):
      self.held.append((kind, p))
      return
    d = self.delay(kind) if self.delay else 0
    if d:
      self.sim.after(d, lambda: self.live and self._do_answer(p), net=True)
    else:
      self._do_answer(p)

  def _do_answer(self, p):
    c = self.client
    if p["t"] == "PUBREC" and p.get("rc", 0) < 0x80: c.in2[p["pid"]] = True
    elif p["t"] == "PUBCOMP": c.in2.pop(p["pid"], None)
    elif p["t"] == "PUBREL":
      if p["pid"] in c.out: c.out[p["pid"]]["state"] = "rel"
    self.send(p)

  def release(self, n=None, order="fifo"):
    items, self.held = self.held, []
    if order == "lifo": items.reverse()
    elif order == "rand": self.sim.rng.shuffle(items)
    k = len(items) if n is None else n
    self.held = items[k:]
    for kind, p in items[:k]:
      if self.live: self._do_answer(p)
    return len(items[:k])

  # -- receiving
  def on_data(self, ep, data):
    if self.bad or getattr(self, "mute", False):
      return
    try:
      if self.ws:
        data = self.ws.feed(data)
      self.stream.feed(data)
      while True:
        x = self.stream.next()
        if x is None: break
        hdr, body, size = x
        p = codec.decode(hdr, body, self.ver)
        p["size"] = size
        self._packet(p)
    except BadPacket as e:
      self.bad = str(e)
      if self.world.oracle: self.world.oracle.bad_stream(self, str(e))

  def _packet(self, p):
    t, c = p["t"], self.client
    self.got.append(p)
    if t == "PUBLISH":
      ta = p["p"].get("ta")
      p["rtopic"] = p["topic"]
      if ta is not None:
        if p["topic"]: self.aliases[ta] = p["topic"]
        else: p["rtopic"] = self.aliases.get(ta)
    self.sim.ev("C<", c.name, self.serial, t, p.get("pid"), p.get("rtopic"), p.get("payload", b"")[:24], p.get("rc"))
    o = self.world.oracle
    if o: o.got(self, p)
    if t == "CONNACK":
      self.connack = p
      if p["rc"] == 0:
        if p["sp"]:
          if c.resend: self.resend_unfinished()
        else:
          c.out.clear(); c.in2.clear()
          for q in self.early_pubs(): c.out[q["pid"]] = {"state": "pub", "pkt": q, "conn": self}
    elif t == "PUBLISH":
      if p["qos"]: self.answer(self.verdict(p), "PUBACK" if p["qos"] == 1 else "PUBREC")
    elif t == "PUBREL":
      self.answer({"t": "PUBCOMP", "pid": p["pid"]}, "PUBCOMP")
    elif t == "PUBACK":
      c.out.pop(p["pid"], None)
    elif t == "PUBREC":
      if p["rc"] >= 0x80: c.out.pop(p["pid"], None)
      elif p["pid"] in c.out:
        q, up = {"t": "PUBREL", "pid": p["pid"]}, (c.out[p["pid"]]["pkt"].get("p") or {}).get("up")
        if self.ver == 5 and up and c.out[p["pid"]]["pkt"]["topic"].startswith("test_qos"): q["p"] = {"up": up}     # to come back
        self.answer(q, "PUBREL")
    elif t == "PUBCOMP":
      c.out.pop(p["pid"], None)
    elif t in ("SUBACK", "UNSUBACK"):
      self.requests.pop(p["pid"], None)

  def early_pubs(self):
    return [d["pkt"] for d in self.client.out.values() if d["conn"] is self]

  def resend_unfinished(self):
    for pid, d in list(self.client.out.items()):
      if d["conn"] is self: continue
      if d["state"] == "rel":
        d["conn"] = self
        self.send({"t": "PUBREL", "pid": pid})
      else:
        q = dict(d["pkt"]); q["dup"] = True
        if q.get("p"): q["p"] = {k: v for k, v in q["p"].items() if k != "ta"}
        if not q["topic"]: q["topic"] = d.get("rtopic") or q.get("rtopic")
        if not q["topic"]: continue      # never had a topic the broker could know
        self.send(q)
        self.client.out[pid]["conn"] = self

  def on_eof(self, ep):
    if self.closed is None:
      self.closed = "fin"
      self.sim.ev("C-", self.client.name, self.serial, "eof")
      if self.world.oracle: self.world.oracle.closed(self, "fin")
      ep.close()

  def on_rst(self, ep):
    if self.closed is None:
      self.closed = "rst"
      self.sim.ev("C-", self.client.name, self.serial, "rst")
      if self.world.oracle: self.world.oracle.closed(self, "rst")

  # -- ending
  def drop(self, how="fin"):
    "the client side ends the connection"
    if self.closed is None:
      self.closed = "local"
      self.sim.ev("C!", self.client.name, self.serial, how)
      if self.world.oracle: self.world.oracle.dropped(self, how)
      if how == "rst": self.ep.abort()
      else: self.ep.close()
