"""Which byte sequences are correct packets of a client: decides independently of the code under test."""
from . import codec
from .codec import BadPacket, _R, NAMES

CALLOWED = {
  "CONNECT": {"sei", "rm", "mps", "tam", "rri", "rpi", "up", "am", "ad"},
  "WILL": {"wdi", "pfi", "mei", "ct", "rt", "cd", "up"},
  "PUBLISH": {"pfi", "mei", "ta", "rt", "cd", "up", "ct"},
  "PUBACK": {"rs", "up"}, "PUBREC": {"rs", "up"}, "PUBREL": {"rs", "up"}, "PUBCOMP": {"rs", "up"},
  "SUBSCRIBE": {"sid", "up"}, "UNSUBSCRIBE": {"up"}, "DISCONNECT": {"sei", "rs", "up"}, "AUTH": {"am", "ad", "rs", "up"},
}
DISC = {0, 4, 0x80, 0x81, 0x82, 0x83, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99}


def utf(r, what="string"):
  s = r.st()
  for ch in s:
    if ch == "\0": raise BadPacket("NUL in " + what)
  return s

def vbi(r):
  i = r.i
  v = r.vbi()
  if len(codec.vbi(v)) != r.i - i: raise BadPacket("not minimal: variable byte integer")
  return v

def props(r, t):
  n = vbi(r)
  if r.i + n > len(r.b): raise BadPacket("property length beyond packet")
  q = _R(r.b[r.i:r.i + n])
  r.i += n
  d = {}
  while q.left():
    i = vbi(q)
    if i not in codec.PROPS: raise BadPacket("unknown property")
    name, ty = codec.PROPS[i]
    if name not in CALLOWED[t]: raise BadPacket("property not allowed: %s in %s" % (name, t))
    v = q.u8() if ty == "b" else q.u16() if ty == "2" else q.u32() if ty == "4" else vbi(q) if ty == "v" else utf(q) if ty == "s" else q.bs() if ty == "x" else [utf(q), utf(q)]
    if name == "up": d.setdefault(name, []).append(v)
    elif name in d: raise BadPacket("property twice: %s" % name)
    else: d[name] = v
    if name in ("pfi", "rri", "rpi") and v > 1: raise BadPacket("property value: %s" % name)
    if name in ("rm", "mps", "ta", "sid") and v == 0: raise BadPacket("property value: %s 0" % name)
  if "ad" in d and "am" not in d: raise BadPacket("ad without am")
  return d

def topic(s, what, v5=True):
  if s == "": raise BadPacket(what + " empty")
  if what != "filter" and ("+" in s or "#" in s): raise BadPacket(what + " with wildcard")
  if what == "filter":
    ls = s.split("/")
    for i, l in enumerate(ls):
      if "#" in l and (l != "#" or i != len(ls) - 1): raise BadPacket("filter #")
      if "+" in l and l != "+": raise BadPacket("filter +")
    if v5 and ls[0] == "$share" and (len(ls) < 3 or ls[1] in ("", "+", "#") or ls[2:] == [""]): raise BadPacket("filter $share")
  return s

def check(data, ver):
  """the packet (as codec.decode gives it); raises BadPacket(class: detail) if data is not exactly one correct packet"""
  v5 = ver == 5
  if len(data) < 2: raise BadPacket("length")
  t, fl = NAMES.get(data[0] >> 4), data[0] & 15
  if t is None or t in ("CONNACK", "SUBACK", "UNSUBACK", "PINGRESP") or t == "AUTH" and not v5: raise BadPacket("packet type")
  r = _R(data)
  r.i = 1
  n = vbi(r)
  if r.left() != n: raise BadPacket("length of the packet")
  p = {"t": t}
  if t != "PUBLISH" and fl != (2 if t in ("PUBREL", "SUBSCRIBE", "UNSUBSCRIBE") else 0): raise BadPacket("fixed header flags of %s" % t)
  if t == "CONNECT":
    p["pname"], p["pver"] = utf(r), r.u8()
    f, p["ka"] = r.u8(), r.u16()
    if p["pname"] != "MQTT" or p["pver"] != ver: raise BadPacket("protocol")
    if f & 1: raise BadPacket("connect flags: reserved")
    if not f & 4 and f & 0x38: raise BadPacket("connect flags: will")
    if f >> 3 & 3 == 3: raise BadPacket("connect flags: will qos 3")
    if not v5 and f & 0x40 and not f & 0x80: raise BadPacket("connect flags: password without user name")
    p["clean"] = bool(f & 2)
    p["p"] = props(r, t) if v5 else {}
    p["cid"] = utf(r)
    if p["cid"] == "" and not v5 and not p["clean"]: raise BadPacket("client id empty")
    if f & 4:
      w = {"qos": f >> 3 & 3, "retain": bool(f & 0x20), "p": props(r, "WILL") if v5 else {}}
      w["topic"], w["payload"] = topic(utf(r), "will topic"), r.bs()
      p["will"] = w
    if f & 0x80: p["user"] = utf(r)
    if f & 0x40: p["pw"] = r.bs()
  elif t == "PUBLISH":
    p["dup"], p["qos"], p["retain"] = bool(fl & 8), fl >> 1 & 3, bool(fl & 1)
    if p["qos"] == 3: raise BadPacket("QoS 3")
    if p["dup"] and p["qos"] == 0: raise BadPacket("DUP on QoS 0")
    p["topic"] = utf(r)
    if p["qos"]:
      p["pid"] = r.u16()
      if p["pid"] == 0: raise BadPacket("packet id 0: PUBLISH")
    p["p"] = props(r, t) if v5 else {}
    if not (v5 and p["topic"] == "" and "ta" in p["p"]): topic(p["topic"], "topic")
    p["payload"] = r.n(r.left())
  elif t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
    p["pid"], p["rc"], p["p"] = r.u16(), 0, {}
    if p["pid"] == 0: raise BadPacket("packet id 0: ack")
    if v5 and r.left():
      p["rc"] = r.u8()
      if p["rc"] not in codec.RC[t]: raise BadPacket("reason code of %s" % t)
      if r.left(): p["p"] = props(r, t)
  elif t in ("SUBSCRIBE", "UNSUBSCRIBE"):
    p["pid"] = r.u16()
    if p["pid"] == 0: raise BadPacket("packet id 0: %s" % t)
    p["p"] = props(r, t) if v5 else {}
    p["filters"] = []
    while r.left():
      f = topic(utf(r), "filter", v5)
      if t == "SUBSCRIBE":
        o = r.u8()
        if o & 3 == 3: raise BadPacket("options: QoS 3")
        if v5 and o >> 4 & 3 == 3: raise BadPacket("options: retain handling 3")
        if o & (0xC0 if v5 else 0xFC): raise BadPacket("options: reserved bits")
        if v5 and o & 4 and f.startswith("$share/"): raise BadPacket("options: No Local on a shared subscription")
        p["filters"].append([f, {"qos": o & 3, "nl": bool(o & 4), "rap": bool(o & 8), "rh": o >> 4 & 3}])
      else: p["filters"].append(f)
    if not p["filters"]: raise BadPacket("no filters")
  elif t == "DISCONNECT":
    p["rc"], p["p"] = 0, {}
    if v5 and r.left():
      p["rc"] = r.u8()
      if p["rc"] not in DISC: raise BadPacket("reason code of DISCONNECT")
      if r.left(): p["p"] = props(r, t)
  elif t == "AUTH":
    p["rc"], p["p"] = 0, {}
    if r.left():
      p["rc"] = r.u8()
      if p["rc"] not in (0, 0x18, 0x19): raise BadPacket("reason code of AUTH")
      if r.left(): p["p"] = props(r, t)
  if r.left(): raise BadPacket("trailing bytes in %s" % t)
  return p


PB = {"b": [0, 1, 1, 2, 255], "2": [0, 1, 2, 7, 65535], "4": [0, 1, 300, 1 << 31, (1 << 32) - 1], "v": [1, 127, 128, 268435455, 0]}

def some_props(r, t, n=None):
  "random properties, mostly correct ones"
  out = b""
  ids = [k for k, (nm, ty) in sorted(codec.PROPS.items()) if nm in CALLOWED[t]]
  used = set()
  for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5]) if n is None else n):
    i = r.choice(ids) if r.random() < .93 else r.randrange(0, 50)
    nm, ty = codec.PROPS.get(i, ("?", "b"))
    if i in used and i != 38 and r.random() < .9: continue
    used.add(i)
    out += codec.vbi(i)
    if nm == "am" : out += codec.st("x")
    elif ty == "x" or ty == "s": out += codec.st(r.choice(["", "x", "a/b", "\u00e9\u4e2d", "y" * 130]))
    elif ty == "p": out += codec.st(r.choice(["", "k"])) + codec.st(r.choice(["", "v\u00fc"]))
    elif ty == "v": out += codec.vbi(r.choice(PB["v"]))
    else:
      v = r.choice(PB[ty][:3] if r.random() < .8 else PB[ty])
      out += bytes([v]) if ty == "b" else codec.u16(v) if ty == "2" else codec.u32(v)
  return codec.vbi(len(out)) + out

def some_packet(r, ver, types, pids=(1, 2, 77), cid="zz", topics=("a/b",)):
  "a mostly correct packet of one of the types: (first byte, body)"
  v5 = ver == 5
  t = r.choice(types)
  pr = lambda k=t: some_props(r, k) if v5 else b""
  fl = 2 if t in ("PUBREL", "SUBSCRIBE", "UNSUBSCRIBE") else 0
  b = b""
  pid = codec.u16(r.choice(pids))
  if t == "CONNECT":
    f = r.choice([0, 2])
    w, u, pw = r.random() < .5, r.random() < .5, r.random() < .4
    pw = pw and (u or v5)
    if w: f |= 4 | r.choice([0, 8, 16]) | r.choice([0, 0x20])
    f |= (0x80 if u else 0) | (0x40 if pw else 0)
    b = codec.st("MQTT") + bytes([ver, f]) + codec.u16(r.choice([0, 60])) + pr() + codec.st(cid)
    if w: b += pr("WILL") + codec.st("zz/will") + codec.bs(r.choice([b"", b"bye", b"w" * 130]))
    if u: b += codec.st(r.choice(["", "joe"]))
    if pw: b += codec.bs(r.choice([b"", b"pw"]))
  elif t == "PUBLISH":
    q = r.choice([0, 1, 2])
    fl = q << 1 | (8 if q and r.random() < .2 else 0) | (1 if r.random() < .2 else 0)
    b = codec.st(r.choice(topics)) + (pid if q else b"") + pr() + r.choice([b"", b"x", b"payload", b"\xff\xfe\0"])
  elif t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
    b = pid
    if v5 and r.random() < .5: b += bytes([r.choice([0, 0x92] if t in ("PUBREL", "PUBCOMP") else [0, 0x10, 0x80])]) + (pr() if r.random() < .5 else b"")
  elif t in ("SUBSCRIBE", "UNSUBSCRIBE"):
    b = pid + pr()
    for _ in range(r.choice([1, 1, 2, 3])):
      b += codec.st(r.choice(["a/b", "c", "a/+", "#", "a/#", "+/b", "$share/g/a", "x//y"]))
      if t == "SUBSCRIBE": b += bytes([r.choice([0, 1, 2]) | (r.choice([0, 4, 8, 12, 16, 32]) if v5 else 0)])
  elif t == "DISCONNECT":
    if v5 and r.random() < .6: b += bytes([r.choice([0, 4])]) + (pr() if r.random() < .6 else b"")
  elif t == "AUTH":
    b = bytes([r.choice([0, 0x18, 0x19])]) + pr()
  return bytes([codec.TYPES[t] << 4 | fl]), b

def mutate(r, h, b):
  "one small change; the whole packet as bytes"
  ln = codec.vbi(len(b))
  k = r.choice(["flag", "byte", "byte", "byte", "bit", "bit", "cut", "cutlen", "tail", "len", "del", "ins", "zero", "u16", "vbi", "swap", "dup", "nothing"])
  B = bytearray(b)
  if len(B) < 3 and r.random() < .4 or r.random() < .05: k = "flag"
  i = r.randrange(len(B)) if B else 0
  if B and r.random() < .2: i = min(len(B) - 1, r.randrange(4))
  if h[0] >> 4 == 1 and len(B) > 8 and r.random() < .25: B[7] ^= r.choice([1, 2, 4, 8, 16, 24, 32, 64, 128, 192])      # the flags of a CONNECT
  elif k == "flag": h = bytes([h[0] ^ 1 << r.randrange(4)])
  elif k == "byte" and B: B[i] = r.randrange(256)
  elif k == "bit" and B: B[i] ^= 1 << r.randrange(8)
  elif k == "cut" and B: del B[r.randrange(len(B)):]
  elif k == "tail": B += bytes(r.randrange(256) for _ in range(r.choice([1, 1, 2, 5])))
  elif k == "del" and B: del B[i]
  elif k == "ins": B.insert(i, r.randrange(256))
  elif k == "zero" and B: B[i] = 0
  elif k == "u16" and B: B[i] = r.choice([1, 2, 3, 4, 127, 128, 255])
  elif k == "swap" and len(B) > 1:
    j = r.randrange(len(B)); B[i], B[j] = B[j], B[i]
  elif k == "dup" and B:
    j = min(len(B), i + r.choice([1, 2, 3, 5, 8])); B[i:i] = B[i:j]
  ln = codec.vbi(len(B))
  if k == "vbi" and ln: # not minimal
    ln = ln[:-1] + bytes([ln[-1] | 0x80, 0])
  return bytes(h) + ln + bytes(B)


def dress(r, p, ver, limit):
  "p as another client could write it: optional fields, other orders"
  plain = codec.encode(p, ver)
  t, v5 = p["t"], ver == 5
  q = dict(p)
  pr = dict(p.get("p") or {})
  if r.random() < .3: return plain
  more = lambda: dict([(k, v) for k, v in (("rs", r.choice(["", "because", "\u00e9" * 30])), ("up", [["k", "v"]] * r.choice([1, 2]))) if r.random() < .5])
  if t == "CONNECT":
    k = r.randrange(6)
    if p.get("user") is None and p.get("pw") is None:
      if k in (1, 2, 3): q["user"] = r.choice(["", "joe", "\u4e2d"])
      if k in (2, 3) or k == 4 and v5: q["pw"] = r.choice([b"", b"secret", b"\xff\0"])
    if v5:
      for n, vs in (("rri", [0, 1]), ("rpi", [1]), ("up", [[["a", "b"]], [["a", ""], ["", "b"]]]), ("sei", [0]), ("rm", [65535]), ("tam", [0])):
        if n not in pr and r.random() < .25: pr[n] = r.choice(vs)
  elif t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "DISCONNECT") and v5:
    k = r.randrange(3)
    if k:
      rc = p.get("rc", 0)
      if t == "PUBCOMP" and rc == 0 and r.random() < .3: rc = 0x92
      b = (codec.u16(p["pid"]) if "pid" in p else b"") + bytes([rc])
      if k == 2: b += codec.props(shuffle(r, dict(pr, **more())))
      elif pr: return plain
      return fits(plain[:1] + codec.vbi(len(b)) + b, plain, limit)
  if v5 and (pr or "p" in p):
    q["p"] = shuffle(r, pr)
    if p.get("will"): q["will"] = dict(p["will"], p=shuffle(r, p["will"].get("p") or {}))
  elif v5 and pr: q["p"] = pr
  if t == "CONNECT" and v5: q["p"] = shuffle(r, pr)
  return fits(codec.encode(q, ver), plain, limit)

def shuffle(r, d):
  ks = sorted(d)
  r.shuffle(ks)
  return {k: d[k] for k in ks}

def fits(b, plain, limit): return b if len(b) <= limit else plain
