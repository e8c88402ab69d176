"""HTTP requests to the admin listener while MQTT clients are served."""
import itertools, json, random
from urllib.parse import quote
from . import codec, gen as G, lockstep
from .lockstep import INF, payload
from .world import HTTP_PORT

FILTERS = ["a", "a/b", "a/c", "b", "b/x/y", "a/#", "a/+", "+/b", "b/#", "+", "b/+/y", "a/b/#", "+/+", "a/\u00e9"]
BOUND = 4.0
API = "/api/v0001/"


class Request:
  "one HTTP connection"
  def __init__(self, d, data, cuts=(), gap=0.0, cfg=None, n=1):
    self.d, self.sim = d, d.w.sim
    self.buf, self.ended, self.n = b"", None, n
    self.t0, self.t1 = self.sim.now, None
    self.ep = d.w.net.connect(HTTP_PORT, self, cfg, cfg)
    if self.ep is None: d.model.fail("http-refused", "no connection to the HTTP listener", "P27")
    d.requests.append(self)
    parts, i = [], 0
    for c in list(cuts) + [len(data)]:
      c = min(c, len(data) - i)
      if c > 0: parts.append(data[i:i+c]); i += c
    self.feed(parts, gap)

  def feed(self, parts, gap):
    if not parts or self.ended: return
    self.ep.write(parts[0])
    if len(parts) > 1: self.sim.after(gap, lambda: self.feed(parts[1:], gap), net=True)

  def on_data(self, ep, data):
    self.buf += data
    if self.complete() and self.t1 is None: self.t1 = self.sim.now
    self.sim.ev("H<", len(data))

  def complete(self):
    return False         # HTTP/1.0: the end of the connection is the end of the answer

  def on_eof(self, ep):
    self.end("fin")
    ep.close()

  def on_rst(self, ep): self.end("rst")

  def end(self, how):
    if self.ended is None:
      self.ended = how
      self.t1 = self.sim.now
      self.sim.ev("H-", how, len(self.buf))

  def drop(self, how):
    if self.ended is None:
      self.ended = "local"
      if how == "rst": self.ep.abort()
      else: self.ep.close()

  def answer(self, what):
    "status code and JSON value"
    m = self.d.model
    bad = lambda why: m.fail("http-bad-answer", "%s: %s: %r" % (what, why, self.buf[:300]), "P27")
    if self.ended != "fin": bad("the connection ended with %s" % self.ended)
    head, sep, body = self.buf.partition(b"\r\n\r\n")
    lines = head.split(b"\r\n")
    w = lines[0].split(b" ", 2)
    if not sep or len(w) < 2 or not w[0].startswith(b"HTTP/1.") or not w[1].isdigit(): bad("not an HTTP response")
    code = int(w[1])
    if code != 200: return code, None
    hs = {l.split(b":", 1)[0].lower(): l.split(b":", 1)[1].strip() for l in lines[1:] if b":" in l}
    if not hs.get(b"content-type", b"").startswith(b"application/json"): bad("content type")
    try: return code, json.loads(body.decode("utf-8"))
    except ValueError as e: bad("not JSON (%s)" % e)


class Helper:
  "a client whose state only the driver follows"
  def __init__(self, name, ver, sei):
    self.name, self.ver, self.sei = name, ver, sei
    self.conn = None
    self.state = (None, {}, {})        # None/False/True: no session, not connected, connected; subscriptions; retained


def apply(h, st, ev):
  "the state after one request"
  con, subs, ret = st
  k = ev[0]
  if k == "conn": return True, ({} if ev[1] else subs), ret
  if k == "sub": return con, dict(subs, **{ev[1]: ev[2]}), ret
  if k == "unsub": return con, {f: q for f, q in subs.items() if f != ev[1]}, ret
  if k == "rpub":
    ret = {t: v for t, v in ret.items() if t != ev[1]}
    if ev[2]: ret[ev[1]] = (ev[2], ev[3])
    return con, subs, ret
  if k == "end": return (None, {}, ret) if h.sei == 0 else (False, subs, ret)
  raise KeyError(k)


class Driver(lockstep.Driver):
  def __init__(self, scn):
    lockstep.Driver.__init__(self, scn)
    self.requests = []
    self.helpers = {}

  # -- what is true at rest
  def known(self):
    m = self.model
    cl = {s.key[1]: s.conn is not None for s in m.sessions.values()}
    subs = {(s.key[1], f): (s.key[0], o["qos"]) for s in m.sessions.values() for f, o in s.subs.items() if f[0] != "$" or f.startswith("$share/")}
    ret = {t: (r["payload"], r["qos"], r["t_hi"] + r["p"]["mei"] - 1.5 if r["p"] and "mei" in r["p"] else INF) for t, r in m.retained.items() if t[0] != "$"}
    return cl, subs, ret

  def view(self, states):
    cl, subs, ret = (dict(x) for x in self.base)
    for h, (con, s, r) in zip(self.helpers.values(), states):
      if con is not None: cl[h.name] = con
      for f, q in s.items(): subs[(h.name, f)] = (h.ver, q)
      for t, (p, q) in r.items(): ret[t] = (p, q, INF)
    return cl, subs, ret

  def differs(self, path, got, view):
    "how an answer differs from a state"
    cl, subs, ret = view
    now = self.sim.now
    if path == "clients":
      if type(got) is not dict: return "not an object"
      for c in set(got) | set(cl):
        if c not in got: return "client %r is not listed" % c
        if c not in cl: return "client %r is listed, but has no session" % c
        g = got[c]
        if g.get("id") != c or g.get("connected") is not cl[c]: return "client %r: id %r, connected %r (should be %r)" % (c, g.get("id"), g.get("connected"), cl[c])
    elif path.startswith("clients/"):
      c = path[8:]
      if got is None: return "client %r is not known" % c if c in cl else None
      if c not in cl: return "client %r is known, but has no session" % c
      if got.get("id") != c or got.get("connected") is not cl[c]: return "client %r: id %r, connected %r (should be %r)" % (c, got.get("id"), got.get("connected"), cl[c])
    elif path == "subscriptions":
      if type(got) is not list: return "not a list"
      seen = set()
      for g in got:
        k = (g.get("clientid"), g.get("topic"))
        if k not in subs: return "subscription %r is listed, but does not exist" % (k,)
        if k in seen: return "subscription %r is listed twice" % (k,)
        seen.add(k)
        if subs[k][0] == 4 and g.get("qos") != subs[k][1]: return "subscription %r: QoS %r, should be %r" % (k, g.get("qos"), subs[k][1])
      for k in subs:
        if k not in seen: return "subscription %r is not listed" % (k,)
    elif path == "retained":
      if type(got) is not dict: return "not an object"
      for t in set(got) | set(ret):
        if t in ret and ret[t][2] <= now and t not in got: continue       # may have expired
        if t not in got: return "the retained message on %r is not listed" % t
        if t not in ret: return "a retained message on %r is listed, but there is none" % t
        p, q, _ = ret[t]
        try: p = p.decode("utf-8")
        except UnicodeDecodeError: p = got[t][0]
        if got[t][0] != p or got[t][1] != q: return "the retained message on %r is listed as %r, should be %r" % (t, got[t][:2], (p, q))
    return None

  # -- operations
  def get_bytes(self, path, q):
    p = API + quote(path, safe="/" if not q.get("quote") else "")
    if q.get("quote"): p = API + "".join("%%%02X" % b if i % 2 else chr(b) for i, b in enumerate(path.encode()) ) if path.isascii() else p
    return ("GET %s HTTP/1.%d\r\nHost: x\r\n%s\r\n" % (p, q.get("v", 1), "X-Pad: %s\r\n" % ("y" * q["hdr"]) if q.get("hdr") else "")).encode()

  def o_get(self, op):
    m, sim = self.model, self.sim
    self.base = self.known()
    for h in op.get("with", []):
      if h["h"] not in self.helpers:
        self.helpers[h["h"]] = Helper(h["h"], h["ver"], h["sei"])
    hist = {n: [] for n in self.helpers}         # [event, sent at, certainly done at]
    for h in op.get("with", []): self.start(self.helpers[h["h"]], h, hist[h["h"]])
    reqs = []
    def begin(q):
      reqs.append((q, Request(self, self.get_bytes(q["path"], q), q.get("cuts", ()), q.get("gap", 0.0), self.netcfg(q.get("net")))))
    for q in op["gets"]: sim.at(sim.now + q.get("dt", 0.0), lambda q=q: begin(q), net=True)
    end = sim.now + BOUND + max(q.get("dt", 0) + q.get("gap", 0) * len(q.get("cuts", ())) for q in op["gets"])
    sim.run_until(lambda: len(reqs) == len(op["gets"]) and all(r.ended for _, r in reqs), end - sim.now)
    for q, r in reqs:
      if not r.ended: m.fail("http-unanswered", "GET %s: no answer within %.1f s: %r" % (q["path"], sim.now - r.t0, r.buf[:100]), "P27")
    self.rest()
    for n, h in self.helpers.items():
      for e in hist[n]:
        if e[2] is None: e[2] = sim.now
    for q, r in sorted(reqs, key=lambda x: x[1].t0):
      code, got = r.answer("GET " + q["path"])
      m.stat("http_get")
      if code != 200 and not (code == 404 and q["path"].startswith("clients/")):
        m.fail("http-status", "GET %s: status %d" % (q["path"], code), "P27")
      self.compare(q["path"], got, r, hist)
    for n, h in self.helpers.items():
      for e in hist[n]: h.state = apply(h, h.state, e[0])

  def compare(self, path, got, r, hist):
    m = self.model
    hs = list(self.helpers.values())
    ranges = []
    for h in hs:
      ev = hist[h.name]
      lo = sum(1 for e in ev if e[2] < r.t0)
      hi = sum(1 for e in ev if e[1] <= r.t1)
      ranges.append(range(lo, hi + 1))
    states = []
    for h in hs:
      st, out = h.state, [h.state]
      for e in hist[h.name]:
        st = apply(h, st, e[0])
        out.append(st)
      states.append(out)
    n = 0
    why = None
    for cut in itertools.product(*ranges):
      # what was done before anything included was even sent is included too
      latest = max([hist[h.name][k-1][1] for h, k in zip(hs, cut) if k] or [-INF])
      if any(k < len(hist[h.name]) and hist[h.name][k][2] < latest for h, k in zip(hs, cut)): continue
      n += 1
      w = self.differs(path, got, self.view([s[k] for s, k in zip(states, cut)]))
      if w is None: break
      why = w
    else:
      m.fail("http-wrong", "GET %s: %s%s" % (path, why, "" if n == 1 else " (and none of the %d other states there may have been fits)" % (n - 1)), "P27")
    if n > 1 or any(len(x) > 1 for x in ranges): m.stat("http_concurrent")
    else: m.stat("http_at_rest")

  def start(self, h, op, hist):
    "a helper sends its requests, each at its time"
    w, sim = self.w, self.sim
    def send(q):
      k = q["k"]
      if k == "conn":
        if h.conn is not None and h.conn.live: return
        c = w.client("~" + h.name, ver=h.ver, cid=h.name)
        h.conn = c.connect(None)
        if h.conn is None: self.model.fail("refused", "%s: connection refused" % h.name, "P13")
        h.conn.ignored = True
        p = {"t": "CONNECT", "cid": h.name, "clean": h.sei == 0 if h.ver == 4 else bool(q.get("clean")), "ka": 0}
        if h.ver == 5: p["p"] = {"sei": h.sei}
        done(["conn", p["clean"]], "CONNACK", None, p)
        return
      if h.conn is None or not h.conn.live: return
      pid = h.conn.client.newpid()
      if k == "sub": done(["sub", q["f"], q["qos"]], "SUBACK", pid, {"t": "SUBSCRIBE", "pid": pid, "filters": [(q["f"], {"qos": q["qos"]})], "p": {}})
      elif k == "unsub": done(["unsub", q["f"]], "UNSUBACK", pid, {"t": "UNSUBSCRIBE", "pid": pid, "filters": [q["f"]]})
      elif k == "rpub":
        body = bytes.fromhex(q["x"]) if "x" in q else payload(q)
        p = {"t": "PUBLISH", "topic": q["topic"], "qos": 1, "pid": pid, "retain": True, "payload": body, "p": self.pubprops(q) if h.ver == 5 else {}}
        done(["rpub", q["topic"], body, 1], "PUBACK", pid, p)
      elif k == "disc": done(["end"], None, None, {"t": "DISCONNECT"})
      elif k == "drop":
        hist.append([["end"], sim.now, None])
        h.conn.drop(q.get("how", "fin"))
    def done(ev, ack, pid, p):
      e = [ev, sim.now, None]
      hist.append(e)
      c = h.conn
      c.send(p, observe=False)
      n = len(c.got)
      def look():
        if e[2] is None:
          if ack and any(x["t"] == ack and x.get("pid") == pid for x in c.got[n:]): e[2] = sim.now
          elif c.live: sim.after(0.0002, look, net=True)
      if ack: sim.after(0.0002, look, net=True)
    t = sim.now
    if h.conn is None or not h.conn.live:
      send({"k": "conn", "clean": op.get("clean")})
      t += 0.002
    for q in op["ops"]:
      t += q.get("dt", 0.0)
      sim.at(t, lambda q=q: send(q), net=True)

  def o_hbad(self, op):
    "a request nobody should make; MQTT clients and other requests go on"
    r = random.Random(op["seed"])
    k, n = op["kind"], op["n"]
    ok = b"GET /api/v0001/clients HTTP/1.1\r\nHost: x\r\n\r\n"
    data = {"silent": b"", "half": ok[:1 + n % (len(ok) - 1)], "garbage": bytes(r.randrange(256) for _ in range(1 + n % 300)) + b"\r\n\r\n" * (n % 2),
            "longline": b"GET /" + b"x" * 70000 + b" HTTP/1.1\r\n\r\n", "headers": b"GET / HTTP/1.1\r\n" + b"A: b\r\n" * (90 + n % 30) + b"\r\n",
            "longheader": b"GET / HTTP/1.1\r\nA: " + b"y" * 66000 + b"\r\n\r\n", "http09": b"GET /api/v0001/clients\r\n\r\n",
            "method": b"%s /api/v0001/clients HTTP/1.1\r\nHost: x\r\n\r\n" % [b"HEAD", b"OPTIONS", b"BREW", b"\xff", b"get"][n % 5],
            "change": b"%s /api/v0001/%s HTTP/1.1\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n%s" % (
              [b"POST", b"PUT", b"PATCH", b"DELETE"][n % 4], [b"clients", b"clients/c0", b"retained", b"subscriptions"][n // 4 % 4],
              [b"application/json", b"text/plain", b"multipart/form-data"][n // 16 % 3], [0, 2, 9, 100000][n // 48 % 4], [b"", b"{}", b"[1, 2"][n // 192 % 3]),
            "path": b"GET %s HTTP/1.1\r\nHost: x\r\n\r\n" % [b"/", b"*", b"/api", b"/api/v0001/", b"/api/v0001/clients/", b"/api/v0001/clients/%00", b"/api/v0001/clients/%ff%fe", b"/api/v0001/clients/no%0asuch",
              b"/api/v0001/clients/c0/x", b"http://other/api", b"/api/v0001/%28%28", b"/../../etc/passwd", b"/api/v0001/clients?x=y", b"//api/v0001/clients", b"/api/v0001/clients/%25s%25d"][n % 15],
            "pipeline": ok * (2 + n % 5), "tls": b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03" + bytes(n % 200), "version": b"GET / HTTP/%s\r\n\r\n" % [b"9.9", b"x", b"1.1.1", b"", b"-1.0", b"2.0"][n % 6],
            "noread": ok, "mqtt": codec.encode({"t": "CONNECT", "cid": "http-c0", "clean": True, "ka": 0}, 5)}[k]
    self.sim.count("bad_http_" + k)
    q = Request(self, data, [1 + n % 7] if n % 3 == 0 else (), 0.02)
    if k == "noread":
      self.netcap(q, 10)
      q.ep.pause()
    self.sim.run_for(op.get("dt", 0.1))
    if op.get("then") == "drop": q.drop(op.get("how", "fin"))

  def epilogue(self):
    self.o_get({"gets": [{"path": p} for p in ("clients", "subscriptions", "retained")]})
    for q in self.requests: q.drop("fin")
    self.rest()
    lockstep.Driver.epilogue(self)

HBAD = ["silent", "half", "garbage", "longline", "headers", "longheader", "http09", "method", "change", "path", "pipeline", "tls", "version", "noread", "mqtt"]


def generate(prof, seed):
  prof = dict(prof, filters=FILTERS)
  g = G.Gen(prof, seed)
  r = g.r
  scn = g.scenario()
  scn["cfg"]["http"] = True
  kinds = {}
  for i in range(r.choice([1, 2, 2, 3])):
    kinds["h%d" % i if r.random() < .7 else ["h %d", "h%%%d", "h\u00e9%d", "h\"%d\\", "h?%d#"][r.randrange(5)] % i] = (r.choice([4, 5, 5]), r.choice([0, 0, 1000]))
  def path():
    p = r.choice(["clients", "subscriptions", "subscriptions", "retained", "retained", "one"])
    return "clients/" + r.choice(g.names + list(kinds) + ["nobody"]) if p == "one" else p
  def one():
    if r.random() < prof.get("httpbad", 0):
      return {"op": "hbad", "kind": r.choice(HBAD), "n": r.randrange(1000), "seed": r.randrange(1 << 30), "dt": r.choice([0.0, 0.001, 0.1, 2.0]), "then": r.choice(["drop", "stay"]), "how": r.choice(["fin", "rst"])}
    q = {"op": "get", "gets": []}
    busy = r.random() < prof.get("httpwith", 0)
    for _ in range(r.choice([2, 4, 8]) if busy else r.choice([1, 1, 2])):
      x = {"path": path(), "dt": r.choice([0.0, 0.001, 0.002, 0.003, 0.005, 0.01])}
      if r.random() < .2: x["cuts"] = [r.randrange(1, 30) for _ in range(3)]; x["gap"] = r.choice([0.0, 0.002, 0.3])
      if r.random() < .2: x["quote"] = True
      if r.random() < .2: x["v"] = 0
      if r.random() < .1: x["hdr"] = r.choice([1, 1000, 60000])
      if r.random() < .3: x["net"] = g.netcfg()
      q["gets"].append(x)
    if busy:
      q["with"] = []
      for h in r.sample(sorted(kinds), r.randint(1, len(kinds))):
        ops = []
        for _ in range(r.choice([1, 3, 6])):
          k = r.random()
          o = {"dt": r.choice([0, 0, 0.0005, 0.001, 0.004])}
          i = sorted(kinds).index(h)
          if k < .4: o.update(k="sub", f="s/%d/q/%d" % (i, r.randrange(4)), qos=r.randrange(3))
          elif k < .6: o.update(k="unsub", f="s/%d/q/%d" % (i, r.randrange(4)))
          else:
            o.update(k="rpub", topic="h/%d/q/%d" % (i, r.randrange(4)), m=g.mid("r") if r.random() < .75 else "")
            if r.random() < .15: o["x"] = r.choice(["ff", "c3", "00", "eda080", "e282ac22"])
            if r.random() < .3: o["p"] = {"up": [["a", "b"]], "ct": "x"}
          ops.append(o)
        if r.random() < .3: ops.append({"k": r.choice(["disc", "drop"]), "dt": r.choice([0, 0.001]), "how": r.choice(["fin", "rst"])})
        q["with"].append({"h": h, "ver": kinds[h][0], "sei": kinds[h][1], "clean": r.random() < .3, "ops": ops})
    return q
  out = []
  for i, o in enumerate(scn["ops"]):
    out.append(o)
    if i >= len(g.names):
      while r.random() < prof.get("httprate", .35): out.append(one())
  out += [one() for _ in range(3)]
  scn["ops"] = out
  return scn
