"""Reference model of the broker for lockstep runs.

The driver performs one operation at a time and lets the simulated system come
to rest; within one operation the model sees every packet a client sends, in
order, and predicts what each client must, may and must not receive.  Every
packet from the broker is checked when it arrives, and obligations are checked
when the system is at rest (quiesce) and when timed windows end."""
import zlib
from . import codec
from .kernel import Violation

INF = float("inf")
WILL_SLACK = 2.3        # cleanup runs once a second
KA_SLACK = 3.0
EXP_SLACK = 2.3


def valid_filter(f):
  return len(f) > 0


def matches(filt, topic):
  "MQTT topic matching for non-empty levels"
  f, t = filt.split("/"), topic.split("/")
  if t[0].startswith("$") and f[0] in ("#", "+"):
    return False
  for i, x in enumerate(f):
    if x == "#":
      return True
    if i >= len(t) or (x != "+" and x != t[i]):
      return False
  return len(f) == len(t)


def share_of(filt):
  if filt.startswith("$share/"):
    return filt.split("/", 2)[2]
  return None


def sublevel(o):
  return o["qos"]


class Exp:
  "one PUBLISH some session has to (or may) get"
  __slots__ = ("topic", "payload", "qos", "retain", "app", "mei", "t_lo", "t_hi", "sids", "key", "must", "must_at", "share",
               "kind", "tags", "dupok", "own", "forver", "late", "group")


class Infl:
  __slots__ = ("exp", "pid", "qos", "retain", "state", "opt", "dupseen", "sid", "fresh")


class Shared:
  "the copies of one publication for its shared subscription groups"
  def __init__(self):
    self.groups = []
    self.receipts = []       # per received copy: the groups it can be for

  def saturates(self, left, edges):
    "can every element of left be matched to a different partner?"
    match = {}
    def aug(x, seen):
      for y in edges[x]:
        if y not in seen:
          seen.add(y)
          if y not in match or aug(match[y], seen):
            match[y] = x
            return True
      return False
    return all(aug(x, set()) for x in left)

  def receipts_ok(self):
    return self.saturates(range(len(self.receipts)), dict(enumerate(self.receipts)))

  def served(self, must):
    "can every group in must have had one of the copies?"
    return self.saturates(must, {g: [i for i, r in enumerate(self.receipts) if g in r] for g in must})

  def complete(self):
    return len(self.receipts) >= len(self.groups)


class Share:
  def __init__(self, shared):
    self.cands = {}
    self.shared = shared
    shared.groups.append(self)
    self.maybe_lost = False


class Sess:
  def __init__(self, key):
    self.key = self.skey = key    # skey: where the session is found (an assigned client identifier comes with CONNACK)
    self.ver = key[0]
    self.conn = None
    self.subs = {}
    self.pend = []
    self.infl = []
    self.in2 = {}
    self.errs = set()           # those of them whose PUBCOMP is to report an error
    self.will = None
    self.sei = 0            # v3: 0 clean session, INF persistent
    self.end = None
    self.resend = []
    self.swaps = []           # own copies which may have been those of a group
    self.acked = 0          # acks sent since the last rest
    self.lenient = False
    self.flags = set()
    self.name = None

  def tags(self):
    return set()


class Dying:
  def __init__(self, why, rcs, must_rc, by, tags):
    self.why, self.rcs, self.must_rc, self.by, self.tags = why, rcs, must_rc, by, tags
    self.got = None


class Model:
  def __init__(self, options, features=()):
    self.o = options
    self.world = None
    self.sessions = {}
    self.retained = {}
    self.dead_sessions = 0
    self.delayed = []        # [earliest, latest, sess, will]
    self.dropping = []       # sessions whose clients have closed their connections; the broker learns it later
    self.op_start = 0.0
    self.history = {}        # payload -> list of (session name, qos)
    self.sent_msgs = {}
    self.nexp = 0
    self.features = set(features)
    self.stats = {}
    self.windows = []        # (start, end, fn_end)
    self.expected_total = 0
    self.delivered = 0
    self.checked_resp = 0
    self.allow_internal = False
    self.statehash = set()
    self.shareds = {}
    self.ghosts = {}

  # ------------------------------------------------------------ helpers
  deferred = None

  def fail(self, kind, detail, *tags):
    if self.deferred: tags += tuple(self.deferred.tags)
    raise Violation(kind, detail, [t for t in tags if t])

  def stat(self, k, n=1):
    self.stats[k] = self.stats.get(k, 0) + n

  @property
  def now(self):
    return self.world.sim.now

  def sess_of(self, conn):
    return getattr(conn, "sess", None)

  # ------------------------------------------------------------ client -> broker
  def sent(self, conn, p):
    t = p["t"]
    if getattr(conn, "dying", None) is not None or getattr(conn, "ignored", False):
      return
    s = self.sess_of(conn)
    conn.last_sent = self.now
    if t == "CONNECT":
      return self.connect(conn, p)
    if s is None:
      return
    getattr(self, "c_" + t.lower())(conn, s, p)

  def expect(self, conn, **kw):
    conn.resp.append(kw)

  def connect(self, conn, p):
    conn.resp, conn.rels = [], []
    conn.dying = conn.ka_dying = None
    conn.ended = False
    conn.last_sent = self.now
    conn.sess = None
    conn.accepted = False
    conn.resent = set()
    conn.aliases_in = {}
    ver, cid = conn.ver, p["cid"]
    pr = p.get("p") or {}
    if ver == 4 and cid == "" and not p.get("clean"):
      self.expect(conn, t="CONNACK", rc={2}, sp=False)
      conn.ka, conn.ska, conn.rm, conn.mps, conn.tam = 0, None, INF, INF, 0
      self.stat("die_empty_id")
      conn.dying = Dying("empty client id", set(), False, self.now + 1, ("P24", "P19"))
      return
    key = (ver, cid) if cid else (ver, "", conn.serial)
    old = self.sessions.get(key)
    if old is not None and old.conn is not None:
      oc = old.conn
      oc.dying = Dying("session taken over", {0x8E} if ver == 5 else set(), ver == 5 and not getattr(oc, "may_close", False), self.now, ("P09",))
      self.stat("takeover")
      self.end_conn(old, True, "takeover")
      old = self.sessions.get(key)
    sp = False
    if old is not None:
      if p.get("clean"):
        for d in [d for d in self.delayed if d[2] is old]:      # the delay of a will ends with its session
          self.delayed.remove(d)
          self.stat("will_at_clean_start")
          self.publish_will(old, d[3], d[0] if d[0] < self.now else self.now, self.now)
        self.end_session(old)
        old = None
      else:
        sp = True
    s = old or Sess(key)
    if old is None and cid:
      g = self.ghosts.pop(key, None)        # subscriptions that outlived their session in a restart
      if g and not p.get("clean"):
        s.subs = g
        s.flags.add("restored")
        self.stat("subs_taken_up")
    s.name = conn.client.name
    self.sessions[key] = s
    conn.sess, s.conn = s, conn
    s.ver = ver
    if ver == 5:
      s.sei = pr.get("sei", 0)
      if s.sei == 0xFFFFFFFF: s.sei = INF
      conn.rm = pr.get("rm", 65535)
      conn.mps = pr.get("mps", 1 << 28)
      conn.tam = pr.get("tam", 0)
    else:
      s.sei = 0 if p.get("clean") else INF
      conn.rm, conn.mps, conn.tam = INF, INF, 0
    s.end = None
    ka = p.get("ka", 0)
    conn.ska = None
    if ver == 5 and ka and self.o["serverKeepAlive"] < ka:
      ka = conn.ska = self.o["serverKeepAlive"]
    conn.ka = ka
    self.delayed = [d for d in self.delayed if d[2] is not s and d[2].skey != key]
    s.will = None
    w = p.get("will")
    if w:
      wp = dict(w.get("p") or {})
      wdi = wp.pop("wdi", 0)
      s.will = {"topic": w["topic"], "payload": w["payload"], "qos": w.get("qos", 0), "retain": bool(w.get("retain")), "p": wp, "wdi": wdi}
    s.resend = list(s.infl) if sp else []
    for f in s.infl: f.fresh = False
    s.unresent = list(s.resend)
    self.expect(conn, t="CONNACK", rc={0}, sp=sp, cid=cid)
    if sp:
      self.stat("resumed")
      if s.infl: self.stat("resumed_with_inflight")
      if s.pend: self.stat("resumed_with_queue")

  def end_session(self, s):
    if self.sessions.get(s.skey) is s:
      del self.sessions[s.skey]
    for e in s.pend:
      if e.share:
        e.share.cands.pop(s, None)
        e.share.maybe_lost = True
    s.pend, s.infl, s.subs = [], [], {}
    s.conn = None
    s.dead = True
    self.dead_sessions += 1

  def end_conn(self, s, abnormal, why, until=None):
    "the connection of s ends now, as far as the broker is concerned"
    conn = s.conn
    s.conn = None
    s.end, s.end_hi = self.now, max(self.now, until or 0)
    s.resend = []
    s.flags.add("offline")
    for e in s.pend:
      e.dupok = True   # may already have been sent into the ending connection
      if s.ver == 5 and conn.mps < INF and self.size_range(conn, e, max(e.qos))[1] > conn.mps: e.must = False    # or discarded as too big for it
    # optional leftovers cannot come any more once the connection is gone
    s.pend = [e for e in s.pend if not (e.qos == {0} and not e.share)]
    for e in list(s.pend):
      if e.qos == {0} and e.share:
        s.pend.remove(e)
        e.share.cands.pop(s, None)
        e.share.maybe_lost = True
    will, s.will = s.will, None
    self.stat("end_" + why)
    if will and abnormal:
      d = min(will["wdi"], s.sei) if s.ver == 5 else 0
      if d > 0:
        self.delayed.append([s.end + d, s.end_hi + d, s, will])
        self.stat("will_delayed")
      else:
        self.publish_will(s, will, self.now, s.end_hi)
    elif will:
      self.stat("will_suppressed")
    if s.sei == 0:
      self.end_session(s)

  def publish_will(self, s, will, t_lo, must_at):
    self.stat("will_published")
    self.route(s, will["topic"], will["payload"], will["qos"], will["retain"], will["p"], t_lo, ("W", s.key, will["topic"], will["qos"]),
               "will", s.ver, must_at=must_at)

  # ------------------------------------------------------------ requests
  def c_pingreq(self, conn, s, p):
    self.expect(conn, t="PINGRESP")

  def c_disconnect(self, conn, s, p):
    rc, pr = p.get("rc", 0), p.get("p") or {}
    if "sei" in pr:
      n = pr["sei"]
      if n == 0xFFFFFFFF: n = INF
      if s.sei == 0 and n > 0:
        self.die(conn, "session expiry raised from 0", {0x82}, False, ("P06", "P13"))
        return
      s.sei = n
    conn.dying = Dying("disconnect", set(), False, self.now, ("P07", "P06"))
    self.end_conn(s, rc != 0, "disconnect" if rc == 0 else "disconnect_rc")

  AIDS = ("test_qos_1_2_errors", "test_qos_1_2_errors_pubcomp")
  SAMPLE = {"rs": "This is a custom Reason String", "sr": "tcp://localhost:1883", "up": [("key", "value")]}

  def die(self, conn, why, rcs, must_rc, tags, by=0.0):
    "the broker must end this connection"
    s = conn.sess
    conn.dying = Dying(why, rcs if conn.ver == 5 else set(), must_rc and conn.ver == 5 and not getattr(conn, "may_close", False), self.now + by, tags)
    self.stat("die_" + why.split()[0])
    if s is not None and s.conn is conn:
      self.end_conn(s, True, "error", self.now + by if by else None)

  def c_subscribe(self, conn, s, p):
    pr = p.get("p") or {}
    sid = pr.get("sid")
    if isinstance(sid, list): sid = sid[0]
    rcs = []
    aid = any(f.startswith("test/") for f, o in p["filters"])
    before = len(s.pend)
    for f, o in p["filters"]:
      if f == "test/nosubscribe":
        rcs.append({0x80})
        continue
      g = o["qos"]
      if f == "test/QoS 1 only": g = min(1, g)
      if f == "test/QoS 0 only": g = 0
      rcs.append({g})
      new = f not in s.subs
      s.subs[f] = {"qos": g, "nl": bool(o.get("nl")) and s.ver == 5, "rap": bool(o.get("rap")) and s.ver == 5, "sid": sid if s.ver == 5 else None,
                   "rh": o.get("rh", 0) if s.ver == 5 else 0}
      rh = s.subs[f]["rh"]
      if share_of(f) is None and not (rh == 2 or (rh == 1 and not new)):
        for topic, r in sorted(self.retained.items()):
          if matches(f, topic):
            self.deliver_retained(s, f, topic, r)
      else:
        self.stat("retain_not_sent")
    for e in s.pend[before:]:     # whatever the order in which the retained messages are sent
      if e.qos == {0} and self.busy(s) >= conn.rm: e.must = False
    self.expect(conn, t="SUBACK", pid=p["pid"], rcs=rcs, up=pr.get("up"), aid=aid)

  def deliver_retained(self, s, f, topic, r):
    o = s.subs[f]
    sids = self.sid_sets(s, [o])
    e = self.mkexp(s, topic, r["payload"], {min(r["qos"], o["qos"])}, {True}, r["p"], r["t_lo"], r["t_hi"], sids, ("R", topic, f), "retained", r["ver"])
    if o["nl"] and r["by"] == s.key: e.must = False
    self.add(s, e)
    self.stat("retained_due")

  def sid_sets(self, s, subs):
    if s.ver != 5: return [[]]
    return [sorted(o["sid"] for o in subs if o["sid"] is not None)]

  def c_unsubscribe(self, conn, s, p):
    rcs = []
    for f in p["filters"]:
      rcs.append({0} if f in s.subs else {0x11})
      if s.subs.pop(f, None) is not None:
        s.flags.add("unsub")
    self.expect(conn, t="UNSUBACK", pid=p["pid"], rcs=rcs, up=(p.get("p") or {}).get("up"))

  def c_publish(self, conn, s, p):
    ver, topic, qos = s.ver, p["topic"], p.get("qos", 0)
    pr = dict(p.get("p") or {})
    if ver == 5 and len(codec.encode(p, 5)) > self.o["maximumPacketSize"]:
      return self.die(conn, "packet too large", {0x95}, False, ("P20",))
    if ver == 5 and topic == "cmd/disconnectWithRC":
      self.stat("aid_disconnect")
      self.die(conn, "told to", {int(p["payload"])}, True, ("P28",))
      conn.dying.props = self.SAMPLE
      return
    if "+" in topic or "#" in topic:
      return self.die(conn, "wildcard topic", {0x90, 0x81, 0x82}, False, ("P13",))
    if ver == 5:
      if qos and p["pid"] not in s.in2 and len(s.in2) >= self.o["receiveMaximum"]:
        return self.die(conn, "receive maximum exceeded", {0x93}, True, ("P10",))
      dupqos2 = qos == 2 and p["pid"] in s.in2
      ta = pr.pop("ta", None)
      if ta is not None:
        self.features.add("alias_in")
        if not (dupqos2 and topic):
          if ta == 0 or ta > self.o["topicAliasMaximum"] or (topic == "" and ta not in conn.aliases_in):
            if topic or not dupqos2:
              return self.die(conn, "topic alias invalid", {0x94, 0x82}, False, ("P16",))
        if topic: conn.aliases_in[ta] = topic
        else: topic = conn.aliases_in.get(ta, "")
      if topic == "" and not dupqos2:
        return self.die(conn, "empty topic", {0x82, 0x81, 0x90, 0x94}, False, ("P13", "P16"))
      p["rtopic"] = topic
    elif topic == "":
      return self.die(conn, "empty topic", set(), False, ("P13",))
    key = (s.key, topic, qos)
    if qos == 2 and p["pid"] in s.in2:
      self.stat("qos2_retransmit")
      self.expect(conn, t="PUBREC", pid=p["pid"], rc={0, 0x10} if ver == 5 else {0})
      return
    n = None
    if ver == 5 and topic == "test_qos_1_2_errors" and qos:
      self.stat("aid_error")
      return self.expect(conn, t="PUBACK" if qos == 1 else "PUBREC", pid=p["pid"], rc={0x87}, up=pr.get("up"), aid=True)
    if ver == 5 and topic == "test_qos_1_2_errors_pubcomp" and qos == 2: s.errs.add(p["pid"])
    if qos == 2:
      s.in2[p["pid"]] = None
      if self.o["publish_on_pubrel"]:
        s.in2[p["pid"]] = (topic, p["payload"], qos, bool(p.get("retain")), pr, self.now)
        self.expect(conn, t="PUBREC", pid=p["pid"], rc={0, 0x10} if ver == 5 else {0})
        return
    n = self.route(s, topic, p["payload"], qos, bool(p.get("retain")), pr, self.now, key, "pub", ver)
    if qos:
      rc = {0} if ver != 5 else ({0, 0x10} if n is None else {0} if n else {0x10})
      self.expect(conn, t="PUBACK" if qos == 1 else "PUBREC", pid=p["pid"], rc=rc)

  def c_pubrel(self, conn, s, p):
    known = p["pid"] in s.in2
    if known and p["pid"] in s.errs:
      s.errs.discard(p["pid"])
      self.stat("aid_pubcomp")
      self.expect(conn, t="PUBCOMP", pid=p["pid"], rc={0x92}, up=(p.get("p") or {}).get("up"), aid=True)
    else: self.expect(conn, t="PUBCOMP", pid=p["pid"], rc={0} if known or s.ver != 5 else {0x92})
    if known:
      m = s.in2.pop(p["pid"])
      if m:
        topic, payload, qos, retain, pr, t = m
        self.route(s, topic, payload, qos, retain, pr, t, (s.key, topic, qos), "pub", s.ver)
        self.relax() # other messages may be on their way
    else:
      self.stat("unknown_pubrel")

  def find(self, s, pid):
    for f in s.infl:
      if f.pid == pid: return f
    return None

  def c_puback(self, conn, s, p):
    f = self.find(s, p["pid"])
    if f and f.qos == 1:
      s.infl.remove(f)
      s.acked += 1
    else:
      self.stat("stray_ack")

  def c_pubrec(self, conn, s, p):
    f = self.find(s, p["pid"])
    if f and f.qos == 2 and f.state == "pub" and p.get("rc", 0) >= 0x80:
      s.infl.remove(f)          # refused: it is finished with, and no PUBREL follows
      s.acked += 1
      self.stat("refused")
    elif f and f.qos == 2 and f.state == "pub":
      f.state = "rel"
      f.opt = False
      conn.rels.append(p["pid"])
    else:
      conn.straypubrel = getattr(conn, "straypubrel", set()) | {p["pid"]}
      self.stat("stray_ack")

  def c_pubcomp(self, conn, s, p):
    f = self.find(s, p["pid"])
    if f and f.qos == 2 and f.state == "rel":
      s.infl.remove(f)
      if p["pid"] in conn.rels: conn.rels.remove(p["pid"])
      s.acked += 1
    else:
      self.stat("stray_ack")

  # ------------------------------------------------------------ routing
  def mkexp(self, s, topic, payload, qos, retain, pr, t_lo, t_hi, sids, key, kind, ver):
    e = Exp()
    e.topic, e.payload, e.qos, e.retain = topic, payload, set(qos), set(retain)
    e.app = {k: v for k, v in pr.items() if k in ("pfi", "ct", "rt", "cd", "up")} if s.ver == 5 and ver == 5 else {}
    e.mei = pr.get("mei") if s.ver == 5 and ver == 5 else None
    e.t_lo, e.t_hi = t_lo, t_hi
    e.sids, e.key, e.kind = sids, key, kind
    e.must, e.must_at, e.share = True, self.now, None
    e.dupok = e.own = False
    e.forver = ver
    e.late = None
    e.group = None
    e.tags = set()
    if ver != s.ver: e.tags.add("P19")
    if kind == "retained": e.tags |= {"P04"}
    if kind == "will": e.tags |= {"P07"}
    if kind == "sn": e.tags |= {"P25"}
    return e

  def busy(self, s):
    return len(s.infl) + s.acked + sum(1 for x in s.pend if x.qos != {0})

  def add(self, s, e):
    q = e.qos
    self.expected_total += 1
    conn = s.conn
    if q == {0}:
      if conn is None or getattr(conn, "may_close", False):
        e.must = False
      else:
        if self.busy(s) >= conn.rm: e.must = False
    if s.conn is None: s.flags.add("queued")
    s.pend.append(e)

  def relax(self):
    "requests run at the same time: what fills a window may come first"
    for s in self.sessions.values():
      if s.conn is not None and self.busy(s) >= s.conn.rm:
        for e in s.pend:
          if 0 in e.qos:
            if e.share: e.share.maybe_lost = True
            else: e.must = False

  def route(self, by, topic, payload, qos, retain, pr, t_lo, key, kind, ver, must_at=None):
    "returns True/False: somebody matched or not (None: not determined)"
    t_hi = INF
    if retain:
      if len(payload) == 0:
        self.retained.pop(topic, None)
        self.stat("retained_cleared")
      else:
        self.retained[topic] = {"payload": payload, "qos": qos, "p": pr, "t_lo": t_lo, "t_hi": t_hi, "ver": ver, "by": by.key}
        self.stat("retained_set")
    matched = False
    undetermined = False
    groups = {}
    qos0 = []
    fan = 0
    for s in list(self.sessions.values()):
      mine = []
      for f, o in s.subs.items():
        sf = share_of(f)
        if sf is not None and s.ver == 5:
          if not topic.startswith("$") and matches(sf, topic):
            groups.setdefault(f, []).append((s, o))
            matched = True
        elif matches(f, topic):
          mine.append((f, o))
      if not mine:
        continue
      ok = [o for f, o in mine if not (o["nl"] and s.key == by.key)]
      if not ok:
        undetermined = True
        self.stat("nolocal_suppressed")
        continue
      matched = True
      fan += 1
      allq = {min(qos, max(o["qos"] for o in ok))}
      rts = {bool(retain) and o["rap"] for o in ok}
      if len(mine) > 1: self.stat("overlap")
      sids = self.sid_sets(s, ok)
      e = self.mkexp(s, topic, payload, allq, rts, pr, t_lo, t_hi, sids, key, kind, ver)
      if must_at is not None: e.must_at = must_at
      if s.lenient: e.must = False
      self.add(s, e)
      if e.qos == {0}: qos0.append((s, e))
    # the same payload may be published again (retransmissions, empty payloads)
    shared = self.shareds.setdefault((topic, payload), Shared()) if groups else None
    for f, members in groups.items():
      sh = Share(shared)
      self.stat("shared_msgs")
      for s, o in members:
        e = self.mkexp(s, topic, payload, {min(qos, o["qos"])}, {bool(retain) and o["rap"]}, pr, t_lo, t_hi,
                       self.sid_sets(s, [o]), (key, f), kind, ver)
        e.share, e.must, e.group = sh, False, f
        e.tags.add("P17")
        if must_at is not None: e.must_at = must_at
        sh.cands[s] = e
        if 0 in e.qos:
          if s.conn is None or getattr(s.conn, "may_close", False): sh.maybe_lost = True
          else: qos0.append((s, e))
        if e.mei is not None or s.lenient: sh.maybe_lost = sh.maybe_lost or s.conn is None or s.lenient
        self.add(s, e)
        e.must = False
    for s, e in qos0:
      if s.conn is not None and self.busy(s) >= s.conn.rm:
        if e.share: e.share.maybe_lost = True
        else: e.must = False
    if fan > 1: self.stat("fanout")
    self.sent_msgs[payload] = (by.key, topic, qos, kind)
    if matched: return True
    return None if undetermined or self.dead_sessions else False

  # ------------------------------------------------------------ broker -> client
  def got(self, conn, p):
    t = p["t"]
    if getattr(conn, "peer_disc", False) or getattr(conn, "ignored", False):
      return
    if not hasattr(conn, "resp"):
      self.fail("unsolicited", "%s before CONNECT was sent" % t, "P24")
    if not conn.accepted and t != "CONNACK" and not (t == "DISCONNECT" and conn.dying):
      self.fail("before-connack", "%r got %s before CONNACK" % (conn, t), "P24")
    if conn.ver == 5 and p["size"] > getattr(conn, "mps", INF):
      self.fail("packet-over-maximum", "%r %s of %d bytes sent, maximum packet size %d" % (conn, t, p["size"], conn.mps), "P20")
    if t == "PUBLISH": return self.g_publish(conn, p)
    if t == "PUBREL": return self.g_pubrel(conn, p)
    if t == "DISCONNECT": return self.g_disconnect(conn, p)
    self.checked_resp += 1
    if not conn.resp:
      self.fail("unsolicited", "%r got %s pid=%s that answers nothing" % (conn, t, p.get("pid")), "P24", self.acktag(t))
    x = conn.resp.pop(0)
    if x["t"] != t or (x.get("pid") is not None and x["pid"] != p["pid"]):
      self.fail("wrong-answer", "%r got %s pid=%s, next answer due is %s pid=%s" % (conn, t, p.get("pid"), x["t"], x.get("pid")),
                "P24", self.acktag(t), self.acktag(x["t"]))
    if t == "CONNACK":
      if p["rc"] not in x["rc"]:
        self.fail("connack-code", "%r CONNACK code %s, expected %s" % (conn, p["rc"], sorted(x["rc"])), "P24", "P09", "P06")
      if p["rc"] == 0:
        if p["sp"] != x["sp"]:
          self.fail("session-present", "%r CONNACK session present %s, expected %s" % (conn, p["sp"], x["sp"]), "P06", "P01" if x["sp"] else None)
        conn.accepted = True
        self.check_connack_props(conn, p, x)
    elif t in ("SUBACK", "UNSUBACK") and (t == "SUBACK" or conn.ver == 5):
      self.echoed(conn, p, x)
      if len(p["rcs"]) != len(x["rcs"]) or any(a not in b for a, b in zip(p["rcs"], x["rcs"])):
        self.fail("return-codes", "%r %s codes %s, expected %s" % (conn, t, p["rcs"], [sorted(b) for b in x["rcs"]]), "P24", "P28" if x.get("aid") else None)
    elif t in ("PUBACK", "PUBREC", "PUBCOMP"):
      self.echoed(conn, p, x)
      if p["rc"] not in x["rc"]:
        self.fail("reason-code", "%r %s pid=%s reason %#x, expected %s" % (conn, t, p["pid"], p["rc"], [hex(i) for i in x["rc"]]), "P24", "P28" if x.get("aid") else None,
                  "P02" if t == "PUBCOMP" else None, "P05" if t in ("PUBACK", "PUBREC") and {p["rc"]} | x["rc"] <= {0, 0x10} else None)

  def echoed(self, conn, p, x):
    "the user properties of a request, where the broker is to send them back"
    if conn.ver != 5: return
    got, want = [tuple(i) for i in p["p"].get("up", [])], [tuple(i) for i in x.get("up") or []]
    if want: self.stat("aid_echo")
    if got == want: return
    if not got and p["size"] + sum(5 + len(a.encode()) + len(b.encode()) for a, b in want) + 1 > conn.mps: return self.stat("aid_no_room")
    self.fail("echo", "%r %s pid=%s has user properties %s, expected %s" % (conn, p["t"], p["pid"], got, want), "P28")

  def acktag(self, t):
    return {"PUBREC": "P02", "PUBCOMP": "P02", "PUBACK": "P01"}.get(t)

  def check_connack_props(self, conn, p, x):
    pr = p["p"]
    if conn.ver != 5: return
    if x["cid"] == "" and not pr.get("acid"):
      self.fail("no-assigned-id", "%r no assigned client identifier" % conn, "P24")
    if x["cid"] == "":
      self.stat("assigned_id")
      s, key = conn.sess, (5, pr["acid"])
      if key in self.sessions or key in self.ghosts:
        self.fail("assigned-id-in-use", "%r was assigned the client identifier %r of another session" % (conn, pr["acid"]), "P06", "P09")
      if s is not None and self.sessions.get(s.skey) is s: self.sessions[key] = self.sessions.pop(s.skey)
      if s is not None: s.skey = key
      conn.client.cid = pr["acid"]
    elif "acid" in pr:
      self.fail("assigned-id", "%r was assigned the client identifier %r, but it has one" % (conn, pr["acid"]), "P24", "P06")
    if conn.ska is not None and pr.get("ska") != conn.ska or conn.ska is None and "ska" in pr and pr["ska"] < (conn.ka or 0):
      self.fail("server-keep-alive", "%r CONNACK server keep alive %s, expected %s" % (conn, pr.get("ska"), conn.ska), "P08")
    for k, opt, dflt, tag in (("rm", "receiveMaximum", 65535, "P10"), ("tam", "topicAliasMaximum", 0, "P16"), ("mps", "maximumPacketSize", None, "P20")):
      v = pr.get(k, dflt)
      if v is not None and v != self.o[opt]:
        self.fail("connack-limits", "%r CONNACK %s=%s, configured %s" % (conn, k, v, self.o[opt]), tag)

  def g_disconnect(self, conn, p):
    d = conn.dying
    conn.peer_disc = True
    if d is None and getattr(conn, "may_close", False): return
    if d is None:
      self.fail("unexpected-disconnect", "%r got DISCONNECT reason %#x; it did nothing wrong" % (conn, p["rc"]), *self.blame(conn, p["rc"]))
    d.got = p["rc"]
    if d.why == "disconnect":
      self.fail("unsolicited", "%r got DISCONNECT after its own DISCONNECT" % conn, "P24")
    if d.rcs and p["rc"] not in d.rcs and d.must_rc:
      self.fail("disconnect-reason", "%r: %s: DISCONNECT reason %#x, expected %s" % (conn, d.why, p["rc"], [hex(i) for i in d.rcs]), *d.tags)
    w = getattr(d, "props", None)
    if w:
      if conn.mps > 150 and {k: v if k != "up" else [tuple(x) for x in v] for k, v in p["p"].items()} != w:
        self.fail("disconnect-properties", "%r: %s: DISCONNECT has properties %s" % (conn, d.why, p["p"]), "P28")
    elif p["rc"] < 0x80:
      self.fail("disconnect-reason", "%r: %s: DISCONNECT reason %#x is not an error" % (conn, d.why, p["rc"]), *d.tags)

  def blame(self, conn, rc=None):
    "properties that an unjustified end of a connection breaks"
    t = ["P13", "P24"]
    t += {0x93: ["P10"], 0x94: ["P16"], 0x95: ["P20"], 0x8E: ["P09"], 0x8D: ["P08"], 0x81: ["P12"], 0x82: ["P12"]}.get(rc, [])
    if rc is None:
      t += ["P08"] if conn.ka else []
      t += ["P12", "P09", "P14"]
      if conn.ver == 5 and conn.sess and conn.sess.in2: t.append("P10")
    if "cross" in self.features: t.append("P19")
    return t

  def closed(self, conn, how):
    if getattr(conn, "ignored", False) or not hasattr(conn, "resp"):
      if not getattr(conn, "ignored", False) and getattr(conn, "halfopen", None) is None and not conn.disc_sent and conn.connect_pkt is not None:
        self.fail("unexpected-close", "%r closed by the broker (%s)" % (conn, how), "P13", "P24")
      return
    d = conn.dying
    conn.ended = True
    if d is None:
      w = self.window_of(conn)
      if w: return
      if getattr(conn, "may_close", False):
        conn.dying = Dying("stalled", set(), False, self.now, ())
        self.end_conn(conn.sess, True, "stalled")
        return
      self.fail("unexpected-close", "%r closed by the broker (%s); it did nothing wrong" % (conn, how), *self.blame(conn))
    if d.must_rc and d.got is None and how != "rst":    # a reset (input was left unread) may overtake what was sent
      self.fail("no-disconnect-packet", "%r: %s: closed (%s) without DISCONNECT %s" % (conn, d.why, how, [hex(i) for i in d.rcs]), *d.tags)
    if how == "fin" and conn.resp and d.why != "session taken over" and not getattr(d, "lossy", False):
      x = conn.resp[0]
      self.fail("unanswered", "%r closed with %s pid=%s unanswered" % (conn, x["t"], x.get("pid")), "P24", self.acktag(x["t"]))

  def window_of(self, conn):
    return getattr(conn, "ka_dying", None)

  def dropped(self, conn, how):
    "the client's side ended the connection without DISCONNECT"
    if getattr(conn, "ignored", False): return
    conn.ended = True
    s = self.sess_of(conn)
    if s is not None and s.conn is conn:
      conn.dying = Dying("dropped", set(), False, self.now, ())
      self.end_conn(s, True, "drop")
      self.dropping.append(s)

  def bad_stream(self, conn, why):
    if getattr(conn, "ignored", False): return
    self.fail("malformed-output", "%r: the broker's byte stream is not a sequence of valid packets: %s" % (conn, why), "P12",
              "P16" if "alias" in why or "topic" in why else None, "P11" if "packet id 0" in why else None,
              "P19" if "not allowed in" in why or "server DISCONNECT" in why else None)

  def g_pubrel(self, conn, p):
    s = conn.sess
    pid = p["pid"]
    f = self.find(s, pid) if s else None
    if s is None or s.conn is not conn:
      return
    if f in s.resend:
      self.check_resend_order(conn, s, f)
      if f.state == "pub":
        self.fail("pubrel-without-pubrec", "%r PUBREL %d resent before any PUBREC" % (conn, pid), "P02")
      return
    if pid in conn.rels:
      conn.rels.remove(pid)
      return
    if pid in getattr(conn, "straypubrel", ()):
      return
    self.fail("unsolicited", "%r got PUBREL %d it did not ask for" % (conn, pid), "P24", "P02", "P11")

  def check_resend_order(self, conn, s, f):
    "retransmissions come in the original order; expired or oversized ones may be skipped"
    i = s.resend.index(f)
    for g in s.resend[:i]:
      if not self.may_skip(conn, g):
        self.fail("retransmission-order", "%r: %r resent before %r" % (conn, self.d(f), self.d(g)), "P03", "P01")
    for g in s.resend[:i]:      # the broker has discarded it
      if g in s.infl and g.state == "pub": s.infl.remove(g)
    del s.resend[:i+1]
    conn.resent.add(id(f))

  def may_skip(self, conn, f):
    if f not in conn.sess.infl: return True       # acknowledged in the meantime
    if f.state == "rel": return False
    return self.maybe_expired(f.exp) or self.size_range(conn, f.exp, f.qos)[1] > conn.mps or f.opt

  def d(self, f):
    e = f.exp if isinstance(f, Infl) else f
    return (e.topic, e.payload[:20])

  def maybe_expired(self, e, t=None):
    return e.mei is not None and (self.now if t is None else t) - e.t_lo >= e.mei - 0.001

  def surely_expired(self, e):
    "even measured from the latest moment the broker can have got it"
    if e.mei is None: return False
    return self.op_start - min(e.t_hi, self.op_start) >= e.mei

  def size_range(self, conn, e, q):
    "smallest and largest size this delivery may have"
    def size(alias, topic):
      pr = dict(e.app)
      if e.mei is not None: pr["mei"] = e.mei
      if sid: pr["sid"] = list(sid)
      if alias: pr["ta"] = 1
      return len(codec.encode({"t": "PUBLISH", "qos": q, "pid": 1, "topic": e.topic if topic else "", "payload": e.payload, "p": pr}, 5))
    lo, hi = INF, 0
    for sid in e.sids or [[]]:
      lo = min(lo, size(False, True), size(True, False) if conn.tam else INF)
      hi = max(hi, size(False, True), size(True, True) if conn.tam else 0)
    return lo, hi

  def content_ok(self, conn, e, p):
    "why a PUBLISH differs from the expectation (None: it does not)"
    pr = p["p"]
    app = {k: v for k, v in pr.items() if k not in ("ta", "sid", "mei")}
    if p["retain"] not in e.retain: return "retain flag %s" % p["retain"], ("P18", "P04", "P05")
    want = {k: ([list(x) for x in v] if k == "up" else (v.encode() if k == "cd" and isinstance(v, str) else v)) for k, v in e.app.items()}
    if app != want: return "application properties %r, published %r" % (app, want), ("P18", "P07" if e.kind == "will" else None, "P04" if e.kind == "retained" else None)
    if conn.ver == 5:
      sid = sorted(pr.get("sid", []))
      if sid not in e.sids: return "subscription identifiers %r, expected %r" % (sid, e.sids), ("P18",)
      if (e.mei is None) != ("mei" not in pr): return "message expiry %r, published %r" % (pr.get("mei"), e.mei), ("P15", "P18")
      if e.mei is not None:
        lo = int(max(0.0, self.op_start - min(e.t_hi, self.op_start)))
        hi = int(self.now - e.t_lo)
        if not (e.mei - hi <= pr["mei"] <= e.mei - lo):
          return "message expiry %d, published %d, %.2f s ago" % (pr["mei"], e.mei, self.now - e.t_lo), ("P15",)
    return None

  def base_tags(self, s, e, q):
    t = set(e.tags) if e else set()
    t.add("P05")
    return t

  def g_publish(self, conn, p):
    s = conn.sess
    topic, payload, q = p["rtopic"], p["payload"], p["qos"]
    self.delivered += 1
    if self.allow_internal and topic == "$SYS/clients-packets":
      return
    ta = p["p"].get("ta")
    if ta is not None:
      self.stat("alias_out")
      if conn.ver == 5 and ta > conn.tam:
        self.fail("alias-over-maximum", "%r PUBLISH with alias %d, maximum %d" % (conn, ta, conn.tam), "P16")
    if topic is None:
      self.fail("alias-unbound", "%r PUBLISH %r with alias %d, never bound on this connection" % (conn, payload[:20], ta), "P16")
    if s is None or s.conn is not conn:
      if s is not None:
        mine = [e for e in s.pend if e.payload == payload]
        if self.window_of(conn) or any(e.own for e in mine):
          for e in mine: e.dupok = True       # may have been sent into the dying connection
          return
      if conn.ended or conn.dying or self.window_of(conn):
        d = conn.dying
        if d and d.why == "session taken over":
          self.fail("old-connection-served", "%r got PUBLISH %r after the session was taken over" % (conn, payload[:20]), "P09")
        return
      return
    if s.lenient:
      return self.lenient_publish(conn, s, p)
    if q:
      f = self.find(s, p["pid"])
      if f is not None:
        return self.g_retransmit(conn, s, f, p)
    # first transmission
    cands, blocked, reasons = [], None, []
    seen = {}
    for e in s.pend:
      k = e.key
      if e.payload == payload and e.topic == topic and q in e.qos:
        why = self.content_ok(conn, e, p)
        if why is None:
          b = seen.get(k)
          if b is None or b is e:
            cands.append(e)
          blocked = blocked or (e, b)
        else:
          reasons.append((e, why))
      if k not in seen and self.in_order_must(conn, e):
        seen[k] = e
    if not cands and blocked:
      # out of order; whether the other one is only late or lost shows later
      e, b = blocked
      if not self.deferred:
        self.deferred = Violation("order", "%r got %r on %r QoS %d before %r" % (conn, payload[:20], topic, q, b.payload[:20]),
                                  ["P03"] + (["P15"] if b.mei is not None else []) + sorted(e.tags))
      cands = [e]
    swapped = None
    if not cands:
      swapped = self.swap(conn, s, p)
      if swapped is None: self.explain(conn, s, p, reasons)
      cands = [swapped]
    # the same message may be due more than once: the most particular copy first, shared ones last, and one sent before if DUP is set
    e = min(cands, key=lambda x: (p["dup"] and not x.dupok, x.share is not None, not x.must, len(x.retain)))
    if not e.share and not swapped and len(e.retain) > 1:
      shares = [x for x in cands if x.share]
      if shares: s.swaps.append((e, [(x.share.shared, [y.share for y in shares if y.share.shared is x.share.shared]) for x in shares]))
    if not e.must and not e.share:
      for x in cands:      # it may have been this one instead
        if x.must and not x.share:
          x.must = False
          break
      for x in cands:
        if x.share: x.share.maybe_lost = True
    if p["dup"] and not (e.dupok or any(x.dupok for x in s.pend if x.payload == payload) or (s.ver == 4 and "offline" in s.flags)):
      self.fail("dup-on-first", "%r first PUBLISH of %r has DUP set" % (conn, payload[:20]), "P02", "P05", "P11")
    if self.surely_expired(e):
      self.fail("expired-sent", "%r sent %r, expiry %d, %.2f s old" % (conn, payload[:20], e.mei, self.now - e.t_lo), "P15")
    if s.resend:
      g = next((g for g in s.resend if not self.may_skip(conn, g)), None)
      if g is not None and q:
        if not self.windowed(conn, s):
          self.fail("new-before-retransmission", "%r: %r sent before unacknowledged %r" % (conn, payload[:20], self.d(g)), "P03", "P01")
      elif q:      # the broker has discarded all of them
        s.infl = [f for f in s.infl if f not in s.resend]
        s.resend = []
    if e.share:
      m = e.share.shared
      m.receipts.append([x.share for x in s.pend if x.share and x.share.shared is m and q in x.qos and self.content_ok(conn, x, p) is None])
      if not m.receipts_ok():
        self.fail("duplicate", "%r got %r more often than its groups explain" % (conn, payload[:20]), "P17", "P05")
      if m.complete(): self.drop_shared(m)
    elif not swapped:
      s.pend.remove(e)
    if q:
      n = len(s.infl) - len([g for g in s.resend if g in s.infl]) + 1
      if n > conn.rm:
        self.fail("receive-maximum", "%r %d unacknowledged messages, receive maximum %d" % (conn, n, conn.rm), "P10")
      if n == conn.rm: self.stat("window_full")
      f = Infl()
      f.exp, f.pid, f.qos, f.state, f.opt, f.dupseen = e, p["pid"], q, "pub", False, False
      f.retain, f.sid = p["retain"], sorted(p["p"].get("sid", []))
      f.fresh = True
      s.infl.append(f)
    self.history.setdefault(payload, []).append((s.name, q))

  def swap(self, conn, s, p):
    "this is the session's own copy, and what was taken for it was that of a group"
    for i, (e, shares) in enumerate(s.swaps):
      if e.payload != p["payload"] or e.topic != p["rtopic"] or p["qos"] not in e.qos or self.content_ok(conn, e, p) is not None: continue
      for m, groups in shares:
        m.receipts.append(groups)
        if m.receipts_ok():
          del s.swaps[i]
          self.stat("swapped_copies")
          return e
        m.receipts.pop()
    return None

  def drop_shared(self, m):
    for g in m.groups:
      for s2, e2 in g.cands.items():
        if e2 in s2.pend: s2.pend.remove(e2)
      g.cands = {}

  def windowed(self, conn, s):
    return False

  def in_order_must(self, conn, e):
    "must e precede later messages of its key?"
    if not e.must or 0 in e.qos and len(e.qos) > 1: return False
    if e.mei is not None and self.now - e.t_lo >= e.mei: return False
    if self.size_range(conn, e, max(e.qos))[1] > conn.mps: return False
    return True

  def g_retransmit(self, conn, s, f, p):
    payload = p["payload"]
    same = f.exp.payload == payload and f.exp.topic == p["rtopic"] and f.qos == p["qos"]
    if not same:
      self.fail("packet-id-reused", "%r packet id %d carries %r while %r is unfinished" % (conn, p["pid"], payload[:20], self.d(f)), "P11", "P02")
    if f not in s.resend:
      if f.state == "rel":
        self.fail("publish-after-pubrec", "%r PUBLISH %d %r again after PUBREC" % (conn, p["pid"], payload[:20]), "P02")
      self.fail("retransmitted-same-connection", "%r PUBLISH %d %r sent again on the same connection" % (conn, p["pid"], payload[:20]), "P02", "P05", "P01")
    if f.state == "rel":
      self.fail("publish-after-pubrec", "%r PUBLISH %d %r resent although PUBREC was received" % (conn, p["pid"], payload[:20]), "P02")
    self.check_resend_order(conn, s, f)
    if not p["dup"]:
      self.fail("no-dup", "%r retransmission of %d %r without DUP" % (conn, p["pid"], payload[:20]), "P02")
    f.dupseen = True
    f.opt = False
    n = len([g for g in s.infl if g not in s.resend])
    if n > conn.rm:
      self.fail("receive-maximum", "%r %d unacknowledged messages, receive maximum %d" % (conn, n, conn.rm), "P10")
    why = self.content_ok(conn, f.exp, p)
    if why:
      self.fail("retransmission-differs", "%r retransmission of %r: %s" % (conn, payload[:20], why[0]), "P02", *[t for t in why[1] if t])
    self.stat("retransmit")

  def explain(self, conn, s, p, reasons):
    topic, payload, q = p["rtopic"], p["payload"], p["qos"]
    what = "%r got %r on %r QoS %d" % (conn, payload[:20], topic, q)
    if reasons:
      e, why = reasons[0]
      self.fail("content", "%s: %s" % (what, why[0]), *[t for t in why[1] if t], *sorted(e.tags - {"P07", "P04"}))
    same = [e for e in s.pend if e.payload == payload]
    if same:
      e = same[0]
      if e.topic != topic:
        self.fail("wrong-topic", "%s, published on %r" % (what, e.topic), "P05", "P16" if ("alias_in" in self.features or conn.tam) else None, *sorted(e.tags))
      self.fail("wrong-qos", "%s, expected QoS %s" % (what, sorted(e.qos)), "P05", *sorted(e.tags))
    got = self.history.get(payload, [])
    info = self.sent_msgs.get(payload)
    kind = info[3] if info else None
    kt = "P07" if kind == "will" else None
    if any(n == s.name for n, _ in got):
      t = ["P05", kt]
      if info and info[2] == 2: t.append("P02")
      if q: t.append("P11")
      if p["retain"]: t.append("P04")
      if any(share_of(f) for f in s.subs): t.append("P17")
      if "offline" in s.flags: t.append("P06")
      if info and info[0][0] != s.ver: t.append("P19")
      self.fail("duplicate", "%s, which it has already had" % what, *t)
    if info is None:
      t = ["P05", "P07", "P13", "P20"]
      self.fail("unknown-message", "%s, which nobody has published (yet)" % what, *t)
    if payload in self.purged:
      self.fail("expired-sent", "%s, which had expired" % what, "P15")
    t = ["P05", kt]
    if p["retain"]: t += ["P04", "P18"]
    if any(share_of(f) for f in s.subs) or any(share_of(f) for z in self.sessions.values() for f in z.subs): t.append("P17")
    if "unsub" in s.flags: t.append("P24")
    if any(o["nl"] for o in s.subs.values()): t.append("P18")
    if "offline" in s.flags or self.dead_sessions: t.append("P06")
    if info[0][0] != s.ver: t.append("P19")
    self.fail("unexpected-message", "%s: no subscription entitles it" % what, *t)

  purged = frozenset()

  def lenient_publish(self, conn, s, p):
    q = p["qos"]
    if q:
      f = self.find(s, p["pid"])
      if f is None:
        f = Infl()
        f.exp = self.mkexp(s, p["rtopic"], p["payload"], {q}, {p["retain"]}, {}, self.now, self.now, [[]], ("L",), "pub", s.ver)
        f.pid, f.qos, f.state, f.opt, f.dupseen, f.retain, f.sid, f.fresh = p["pid"], q, "pub", True, False, p["retain"], [], True
        s.infl.append(f)
    s.pend = [e for e in s.pend if e.payload != p["payload"]]

  # ------------------------------------------------------------ rest
  def start_op(self):
    self.op_start = self.now

  def quiesce(self):
    "the system is at rest: everything that had to happen has happened"
    now = self.now
    for s in self.dropping:
      late = now - getattr(s, "end_hi", now)
      if s.conn is None and late > 0:
        s.end_hi += late
        for d in self.delayed:
          if d[2] is s: d[1] += late
    self.dropping = []
    for conn in self.world.conns:
      if not hasattr(conn, "resp") or getattr(conn, "ignored", False): continue
      d = conn.dying
      if conn.live and d is None and conn.sess is not None and not getattr(conn, "ka_dying", None):
        if conn.resp:
          x = conn.resp[0]
          self.fail("unanswered", "%r: %s pid=%s not answered" % (conn, x["t"], x.get("pid")), "P24", self.acktag(x["t"]), "P12", "P14", "P13",
                    "P09" if x["t"] == "CONNACK" else None)
        if conn.rels and not conn.client.policy.get("PUBREC") == "hold":
          self.fail("unanswered", "%r: PUBREL %s never came" % (conn, conn.rels), "P24", "P02")
      if conn.live and d is not None and now >= d.by and not getattr(conn, "stalled", False):
        self.fail("not-closed", "%r: %s, but the connection is still open" % (conn, d.why), *(d.tags or ("P13",)))
    for s in list(self.sessions.values()):
      self.settle_session(s, now)
    for r in self.retained.values():
      if r["t_hi"] == INF: r["t_hi"] = now
    self.snapshot()

  def snapshot(self):
    h = []
    for s in self.sessions.values():
      h.append((s.name, s.conn is not None, tuple(sorted((f, o["qos"]) for f, o in s.subs.items())), len(s.pend), tuple((f.qos, f.state) for f in s.infl), len(s.in2)))
    h.append(tuple(sorted((k, v["qos"]) for k, v in self.retained.items())))
    self.statehash.add(zlib.crc32(repr(sorted(h, key=repr)).encode()))

  def settle_session(self, s, now):
    conn = s.conn
    for e in s.pend:
      if e.t_hi == INF: e.t_hi = now
    # shared: who can still have it
    for e in list(s.pend):
      sh = e.share
      if sh and conn is not None and conn.accepted and not getattr(conn, "stalled", False) and now >= e.must_at:
        if len(s.infl) < conn.rm or e.qos == {0}:
          s.pend.remove(e)
          sh.cands.pop(s, None)
          if self.maybe_expired(e): sh.maybe_lost = True
          if not sh.cands and not sh.shared.served([g for g in sh.shared.groups if not g.cands and not g.maybe_lost]):
            self.fail("shared-lost", "no member of %r got %r" % (e.group, e.payload[:20]), "P17", "P05", *(["P01"] if e.qos != {0} else []), *sorted(e.tags))
    if conn is None or not conn.accepted or getattr(conn, "stalled", False) or getattr(conn, "ka_dying", None):
      s.acked = 0
      return
    # retransmissions
    left = [f for f in s.resend if f in s.infl]
    if left:
      room = conn.rm - len([g for g in s.infl if g not in s.resend])
      while left and room > 0 and self.may_skip(conn, left[0]):      # what waits for room in the window has not been considered yet
        f = left.pop(0)
        s.infl.remove(f); s.resend.remove(f)
        self.stat("inflight_discarded")
      if left and room > 0:
        f = left[0]
        self.fail("not-retransmitted", "%r: unfinished %s %r (packet id %d) not resumed" % (conn, "PUBLISH" if f.state == "pub" else "PUBREL", self.d(f), f.pid),
                  "P01", "P02" if f.qos == 2 else None, "P06", "P15" if f.exp.mei is not None else None)
    if not left: s.resend = []
    blockers = bool(left)
    for e in list(s.pend):
      if now < e.must_at: continue
      q = max(e.qos)
      if self.maybe_expired(e):
        if self.surely_expired_at(e, now): 
          s.pend.remove(e)
          self.stat("expired")
          self.purged = self.purged | {e.payload}
        continue
      if conn.mps < INF:
        lo, hi = self.size_range(conn, e, q)
        if lo > conn.mps:
          if e.qos != {0} and (len(s.infl) >= conn.rm or blockers): continue     # still waiting its turn
          s.pend.remove(e)
          self.stat("oversize_skipped")
          continue
        if hi > conn.mps:
          e.must = False
      if not e.must:
        if e.qos == {0} and not e.share: s.pend.remove(e)
        continue
      if e.share: continue
      if e.qos == {0} or (len(s.infl) < conn.rm and not blockers):
        self.missing(conn, s, e)
    s.acked = 0

  def surely_expired_at(self, e, now):
    return e.mei is not None and now - min(e.t_hi, now) >= e.mei

  def missing(self, conn, s, e):
    t = {"P05"} | e.tags
    if e.qos != {0}: t.add("P01")
    if "offline" in s.flags and e.qos != {0}: t.add("P06")
    if conn.rm < 65535 and e.qos != {0}: t.add("P10")
    if e.qos == {2}: t.add("P02")
    if conn.mps < (1 << 28): t.add("P20")
    if any(x.mei is not None for x in s.pend) or self.purged: t.add("P15")
    if "alias_in" in self.features or conn.tam: t.add("P16")
    if any(o["nl"] or o["rap"] or o["rh"] for o in s.subs.values()) or any(o["sid"] for o in s.subs.values()): t.add("P18")
    if any(share_of(f) for f in s.subs): t.add("P17")
    if "oldconn" in s.flags: t.add("P09")
    self.fail("missing", "%r never got %r on %r (QoS %s, %s)" % (conn, e.payload[:20], e.topic, sorted(e.qos), e.kind), *sorted(t))

  # ------------------------------------------------------------ time
  def timed(self):
    "pending timed events: (start, end, kind, subject)"
    out = []
    for d in self.delayed:
      out.append((d[0], d[1] + WILL_SLACK, "will", d))
    for s in self.sessions.values():
      if s.conn is None and s.end is not None and s.sei not in (0, INF) and s.ver == 5:
        out.append((s.end + s.sei, s.end_hi + s.sei + EXP_SLACK, "expiry", s))
      c = s.conn
      if c is not None and c.ka and c.live and c.accepted and not getattr(c, "stalled", False):
        out.append((c.last_sent + 1.5 * c.ka - 0.05, c.last_sent + 1.5 * c.ka + KA_SLACK, "keepalive", c))
    out.sort(key=lambda x: (x[0], x[2]))
    return out

  def begin_window(self, w):
    a, b, kind, x = w
    if kind == "will":
      self.delayed.remove(x)
      self.publish_will(x[2], x[3], a, b)
      self.stat("timed_will")
    elif kind == "expiry":
      self.stat("timed_expiry")
      self.end_session(x)
    elif kind == "keepalive":
      x.ka_dying = b
      x.dying = Dying("keep alive timeout", {0x8D}, False, b, ("P08",))
      self.stat("timed_keepalive")
      self.end_conn(x.sess, True, "keepalive", b)

  def end_window(self, w):
    a, b, kind, x = w
    if kind == "keepalive" and x.live:
      self.fail("keepalive-not-enforced", "%r silent for %.1f s with keep alive %d is still connected" % (x, self.now - x.last_sent, x.ka), "P08")
