"""Independent MQTT 3.1.1 / 5.0 codec used by the simulated clients and oracles.

Packets are dicts with "t" (type name).  decode() is strict: anything a server
may not send raises BadPacket."""

NAMES = {1: "CONNECT", 2: "CONNACK", 3: "PUBLISH", 4: "PUBACK", 5: "PUBREC", 6: "PUBREL", 7: "PUBCOMP", 8: "SUBSCRIBE",
         9: "SUBACK", 10: "UNSUBSCRIBE", 11: "UNSUBACK", 12: "PINGREQ", 13: "PINGRESP", 14: "DISCONNECT", 15: "AUTH"}
TYPES = {v: k for k, v in NAMES.items()}

# id -> (name, type)
PROPS = {1: ("pfi", "b"), 2: ("mei", "4"), 3: ("ct", "s"), 8: ("rt", "s"), 9: ("cd", "x"), 11: ("sid", "v"), 17: ("sei", "4"),
         18: ("acid", "s"), 19: ("ska", "2"), 21: ("am", "s"), 22: ("ad", "x"), 23: ("rpi", "b"), 24: ("wdi", "4"), 25: ("rri", "b"),
         26: ("ri", "s"), 28: ("sr", "s"), 31: ("rs", "s"), 33: ("rm", "2"), 34: ("tam", "2"), 35: ("ta", "2"), 36: ("mq", "b"),
         37: ("ra", "b"), 38: ("up", "p"), 39: ("mps", "4"), 40: ("wsa", "b"), 41: ("sia", "b"), 42: ("ssa", "b")}
PID = {n: (i, t) for i, (n, t) in PROPS.items()}
ALLOWED = {  # what a server may send
  "CONNACK": {"sei", "rm", "mq", "ra", "mps", "acid", "tam", "rs", "up", "wsa", "sia", "ssa", "ska", "ri", "sr", "am", "ad"},
  "PUBLISH": {"pfi", "mei", "ta", "rt", "cd", "up", "sid", "ct"},
  "PUBACK": {"rs", "up"}, "PUBREC": {"rs", "up"}, "PUBREL": {"rs", "up"}, "PUBCOMP": {"rs", "up"},
  "SUBACK": {"rs", "up"}, "UNSUBACK": {"rs", "up"}, "DISCONNECT": {"sei", "rs", "up", "sr"}, "AUTH": {"am", "ad", "rs", "up"},
}
RC = {
  "CONNACK": {0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F},
  "PUBACK": {0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99}, "PUBREC": {0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99},
  "PUBREL": {0, 0x92}, "PUBCOMP": {0, 0x92},
  "SUBACK": {0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2}, "UNSUBACK": {0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91},
}


class BadPacket(Exception):
  pass


def vbi(n):
  out = bytearray()
  while True:
    b = n & 0x7F
    n >>= 7
    if n:
      out.append(b | 0x80)
    else:
      out.append(b)
      return bytes(out)

def u16(n): return bytes([n >> 8 & 255, n & 255])
def u32(n): return n.to_bytes(4, "big")
def bs(b): return u16(len(b)) + b
def st(s): return bs(s.encode("utf-8") if isinstance(s, str) else s)

def props(d):
  body = b""
  for k, v in (d or {}).items():
    i, t = PID[k]
    vs = v if k in ("up", "sid") and isinstance(v, list) else [v]
    for x in vs:
      body += vbi(i)
      if t == "b": body += bytes([x])
      elif t == "2": body += u16(x)
      elif t == "4": body += u32(x)
      elif t == "v": body += vbi(x)
      elif t == "s": body += st(x)
      elif t == "x": body += bs(x if isinstance(x, bytes) else x.encode())
      elif t == "p": body += st(x[0]) + st(x[1])
  return vbi(len(body)) + body


def encode(p, ver):
  t = p["t"]
  fl, b = 0, b""
  v5 = ver == 5
  pr = p.get("p")
  if t == "CONNECT":
    w = p.get("will")
    f = (2 if p.get("clean") else 0)
    if w:
      f |= 4 | (w.get("qos", 0) << 3) | (0x20 if w.get("retain") else 0)
    if p.get("user") is not None: f |= 0x80
    if p.get("pw") is not None: f |= 0x40
    b = st(p.get("pname", "MQTT")) + bytes([p.get("pver", ver), f]) + u16(p.get("ka", 0))
    if v5: b += props(pr)
    b += st(p["cid"])
    if w:
      if v5: b += props(w.get("p"))
      b += st(w["topic"]) + bs(w["payload"])
    if p.get("user") is not None: b += st(p["user"])
    if p.get("pw") is not None: b += bs(p["pw"])
  elif t == "PUBLISH":
    q = p.get("qos", 0)
    fl = (8 if p.get("dup") else 0) | (q << 1) | (1 if p.get("retain") else 0)
    b = st(p["topic"]) + (u16(p["pid"]) if q else b"")
    if v5: b += props(pr)
    b += p["payload"]
  elif t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
    fl = 2 if t == "PUBREL" else 0
    b = u16(p["pid"])
    if v5 and (p.get("rc") or pr):
      b += bytes([p.get("rc", 0)])
      if pr: b += props(pr)
  elif t == "SUBSCRIBE":
    fl = 2
    b = u16(p["pid"]) + (props(pr) if v5 else b"")
    for f, o in p["filters"]:
      b += st(f) + bytes([o["qos"] | (((4 if o.get("nl") else 0) | (8 if o.get("rap") else 0) | (o.get("rh", 0) << 4)) if v5 else 0)])
  elif t == "UNSUBSCRIBE":
    fl = 2
    b = u16(p["pid"]) + (props(pr) if v5 else b"")
    for f in p["filters"]: b += st(f)
  elif t == "DISCONNECT":
    if v5 and (p.get("rc") or pr):
      b = bytes([p.get("rc", 0)])
      if pr: b += props(pr)
  elif t in ("PINGREQ", "PINGRESP"):
    pass
  elif t == "CONNACK":
    b = bytes([1 if p.get("sp") else 0, p.get("rc", 0)]) + (props(pr) if v5 else b"")
  elif t == "SUBACK":
    b = u16(p["pid"]) + (props(pr) if v5 else b"") + bytes(p["rcs"])
  elif t == "UNSUBACK":
    b = u16(p["pid"]) + (props(pr) + bytes(p["rcs"]) if v5 else b"")
  else:
    raise ValueError(t)
  return bytes([TYPES[t] << 4 | p.get("flags", fl)]) + vbi(len(b)) + b


class _R:
  def __init__(self, b): self.b, self.i = b, 0
  def n(self, k):
    if self.i + k > len(self.b): raise BadPacket("truncated field")
    x = self.b[self.i:self.i+k]
    self.i += k
    return bytes(x)
  def u8(self): return self.n(1)[0]
  def u16(self): return int.from_bytes(self.n(2), "big")
  def u32(self): return int.from_bytes(self.n(4), "big")
  def vbi(self):
    v = s = 0
    for k in range(4):
      b = self.u8()
      v |= (b & 127) << s
      s += 7
      if not b & 128:
        return v
    raise BadPacket("bad variable byte integer")
  def bs(self): return self.n(self.u16())
  def st(self):
    b = self.bs()
    try:
      s = b.decode("utf-8")
    except UnicodeDecodeError:
      raise BadPacket("bad UTF-8 string %r" % b[:40])
    if "\0" in s: raise BadPacket("NUL in string")
    return s
  def left(self): return len(self.b) - self.i
  def props(self, t, strict=True):
    n = self.vbi()
    end = self.i + n
    if end > len(self.b): raise BadPacket("property length beyond packet")
    d = {}
    while self.i < end:
      i = self.vbi()
      if i not in PROPS: raise BadPacket("unknown property %d" % i)
      name, ty = PROPS[i]
      if strict and name not in ALLOWED.get(t, ()): raise BadPacket("property %s not allowed in %s" % (name, t))
      if ty == "b": v = self.u8()
      elif ty == "2": v = self.u16()
      elif ty == "4": v = self.u32()
      elif ty == "v": v = self.vbi()
      elif ty == "s": v = self.st()
      elif ty == "x": v = self.bs()
      else: v = [self.st(), self.st()]
      if name in ("up", "sid"): d.setdefault(name, []).append(v)
      elif name in d: raise BadPacket("property %s twice" % name)
      else: d[name] = v
    if self.i != end: raise BadPacket("property length mismatch")
    return d


def decode(hdr, body, ver, server=True):
  "decode one packet sent by a server (server=True) or by a client"
  t = NAMES.get(hdr >> 4)
  fl = hdr & 15
  if t is None: raise BadPacket("packet type 0")
  r = _R(body)
  v5 = ver == 5
  p = {"t": t}
  if t != "PUBLISH" and fl != (2 if t in ("PUBREL", "SUBSCRIBE", "UNSUBSCRIBE") else 0):
    raise BadPacket("%s with flags %x" % (t, fl))
  if t == "PUBLISH":
    p["dup"], p["qos"], p["retain"] = bool(fl & 8), fl >> 1 & 3, bool(fl & 1)
    if p["qos"] == 3: raise BadPacket("QoS 3")
    if p["dup"] and p["qos"] == 0: raise BadPacket("DUP on QoS 0")
    p["topic"] = r.st()
    if p["qos"]:
      p["pid"] = r.u16()
      if p["pid"] == 0: raise BadPacket("packet id 0")
    p["p"] = r.props(t) if v5 else {}
    if p["topic"] == "" and "ta" not in p["p"]: raise BadPacket("PUBLISH without topic")
    if "+" in p["topic"] or "#" in p["topic"]: raise BadPacket("wildcard in topic name")
    if p["p"].get("ta") == 0: raise BadPacket("topic alias 0")
    p["payload"] = r.n(r.left())
  elif t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
    p["pid"], p["rc"], p["p"] = r.u16(), 0, {}
    if v5 and r.left():
      p["rc"] = r.u8()
      if r.left(): p["p"] = r.props(t)
      if p["rc"] not in RC[t]: raise BadPacket("%s reason %x" % (t, p["rc"]))
  elif t == "CONNACK" and server:
    f = r.u8()
    if f > 1: raise BadPacket("CONNACK flags")
    p["sp"], p["rc"] = bool(f), r.u8()
    p["p"] = r.props(t) if v5 else {}
    if v5 and p["rc"] not in RC[t]: raise BadPacket("CONNACK reason %x" % p["rc"])
    if not v5 and p["rc"] > 5: raise BadPacket("CONNACK code %x" % p["rc"])
  elif t == "SUBACK" and server:
    p["pid"] = r.u16()
    p["p"] = r.props(t) if v5 else {}
    p["rcs"] = list(r.n(r.left()))
    if not p["rcs"] or any(c not in (RC[t] if v5 else {0, 1, 2, 0x80}) for c in p["rcs"]): raise BadPacket("SUBACK codes %r" % p["rcs"])
  elif t == "UNSUBACK" and server:
    p["pid"] = r.u16()
    p["p"] = r.props(t) if v5 else {}
    p["rcs"] = list(r.n(r.left()))
    if v5 and (not p["rcs"] or any(c not in RC[t] for c in p["rcs"])): raise BadPacket("UNSUBACK codes %r" % p["rcs"])
    if not v5 and p["rcs"]: raise BadPacket("UNSUBACK payload")
  elif t == "PINGRESP" and server:
    pass
  elif t == "PINGREQ" and not server:
    pass
  elif t == "DISCONNECT":
    if server and not v5: raise BadPacket("server DISCONNECT in 3.1.1")
    p["rc"], p["p"] = 0, {}
    if v5 and r.left():
      p["rc"] = r.u8()
      if r.left(): p["p"] = r.props(t)
  elif t == "CONNECT" and not server:
    p["pname"], p["pver"] = r.st(), r.u8()
    f, p["ka"] = r.u8(), r.u16()
    p["clean"] = bool(f & 2)
    p["p"] = r.props(t, False) if v5 else {}
    p["cid"] = r.st()
    if f & 4:
      w = {"qos": f >> 3 & 3, "retain": bool(f & 0x20), "p": r.props("WILL", False) if v5 else {}}
      w["topic"], w["payload"] = r.st(), r.bs()
      p["will"] = w
    if f & 0x80: p["user"] = r.st()
    if f & 0x40: p["pw"] = r.bs()
  elif t in ("SUBSCRIBE", "UNSUBSCRIBE") and not server:
    p["pid"] = r.u16()
    p["p"] = r.props(t, False) if v5 else {}
    fs = []
    while r.left():
      f = r.st()
      if t == "SUBSCRIBE":
        o = r.u8()
        fs.append([f, {"qos": o & 3, "nl": bool(o & 4), "rap": bool(o & 8), "rh": o >> 4 & 3}])
      else: fs.append(f)
    p["filters"] = fs
  else:
    raise BadPacket("%s not expected from a %s" % (t, "server" if server else "client"))
  if r.left(): raise BadPacket("%d bytes after the end of %s" % (r.left(), t))
  return p


class Stream:
  "cuts a byte stream into packets"
  def __init__(self): self.b = bytearray()
  def feed(self, data):
    self.b += data
  def next(self):
    "(hdr, body, raw length) or None"
    b = self.b
    n = s = 0
    for i in range(1, 5):
      if i >= len(b): return None
      n |= (b[i] & 127) << s
      s += 7
      if not b[i] & 128: break
    else:
      raise BadPacket("remaining length longer than 4 bytes")
    if len(b) < i + 1 + n: return None
    hdr, body = b[0], bytes(b[i+1:i+1+n])
    del b[:i+1+n]
    return hdr, body, i + 1 + n


# ------------------------------------------------------------------ websockets
class WsStream:
  "client side of a WebSocket connection: handshake, unmasked binary frames from the server"
  def __init__(self):
    self.b = bytearray()
    self.open = False
    self.head = b""
    self.frames = 0
  def feed(self, data):
    self.b += data
    out = bytearray()
    if not self.open:
      k = self.b.find(b"\r\n\r\n")
      if k < 0:
        if len(self.b) > 4096: raise BadPacket("no websocket handshake response")
        return b""
      self.head = bytes(self.b[:k])
      if not self.head.startswith(b"HTTP/1.1 101"): raise BadPacket("websocket handshake: %r" % self.head[:40])
      del self.b[:k+4]
      self.open = True
    while len(self.b) >= 2:
      op, l = self.b[0], self.b[1]
      if op & 0x70 or (op & 15) not in (0, 2, 8, 9, 10): raise BadPacket("websocket frame header %02x" % op)
      if l & 0x80: raise BadPacket("masked frame from server")
      i = 2
      if l == 126:
        if len(self.b) < 4: break
        l, i = int.from_bytes(self.b[2:4], "big"), 4
        if l < 126: raise BadPacket("non-minimal websocket length")
      elif l == 127:
        if len(self.b) < 10: break
        l, i = int.from_bytes(self.b[2:10], "big"), 10
        if l < 65536: raise BadPacket("non-minimal websocket length")
      if len(self.b) < i + l: break
      out += self.b[i:i+l]
      del self.b[:i+l]
      self.frames += 1
    return bytes(out)

WS_REQ = (b"GET /mqtt HTTP/1.1\r\nHost: sim\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
          b"Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Protocol: mqtt\r\nSec-WebSocket-Version: 13\r\n\r\n")
WS_ACCEPT = b"s3pPLMBiTxaQ9kYGzzhZRbK+xOo="

def ws_frame(data, mask=b"\x11\x22\x33\x44"):
  l = len(data)
  h = bytearray([0x82])
  if l < 126: h.append(0x80 | l)
  elif l < 65536: h += bytes([0x80 | 126]) + u16(l)
  else: h += bytes([0x80 | 127]) + l.to_bytes(8, "big")
  return bytes(h) + mask + bytes(b ^ mask[i & 3] for i, b in enumerate(data))
