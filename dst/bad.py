"""Packets no correct client sends."""
from random import Random
from . import codec, strict


def build(kind, conn, op):
  v5 = conn.ver == 5
  e = lambda p: codec.encode(p, conn.ver)
  n = op.get("n", 0)
  npid = conn.client.peekpid()
  pub = lambda topic, **k: e(dict({"t": "PUBLISH", "topic": topic, "qos": n % 3, "pid": npid, "payload": b"bad"}, **k))
  if kind == "mut": return mut(n, conn.ver, MUT5 if v5 else MUT4, op.get("topics"), pids=(npid, npid, 77))
  if kind == "wildtopic": return pub(["a/#", "a/+", "#", "+/b"][n % 4])
  if kind == "emptytopic": return pub("")
  if kind == "connect2": return e({"t": "CONNECT", "cid": conn.client.cid, "clean": True, "ka": 0})
  if kind == "type0": return b"\x00\x00"
  if kind == "type15": return b"\xf0\x00" if not v5 else None
  if kind == "pub_qos3": return b"\x36\x09\x00\x03a/b\x00\x07xx"
  if kind == "sub_flags": return b"\x80" + e({"t": "SUBSCRIBE", "pid": 9, "filters": [("a/b", {"qos": 0})]})[1:]
  if kind == "rl5": return b"\x30\xff\xff\xff\xff\x7f"
  if kind == "sub_short": return b"\x82\x01\x00"
  if kind == "utf8": return b"\x30\x06\x00\x03a\xff\xfebb"[:8]
  if kind == "server_pkt": return e({"t": "CONNACK", "sp": False, "rc": 0})
  if kind == "suback": return e({"t": "SUBACK", "pid": 1, "rcs": [0]})
  if kind.startswith("alias_"):
    if not v5: return None
    tam = op["tam"]
    free = [a for a in range(1, tam + 1) if a not in conn.aliases_in]
    if kind == "alias_unset" and not free: return None
    ta = {"alias_unset": free and free[n % len(free)], "alias_0": 0, "alias_big": tam + 1 + n * 11}[kind]
    return pub("" if kind == "alias_unset" else "a/b", p={"ta": ta})
  if kind == "topiclen": return b"\x30\x04\x00\x20ab"
  return None


MUT4 = ["PUBLISH", "PUBLISH", "SUBSCRIBE", "SUBSCRIBE", "UNSUBSCRIBE", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "PINGREQ", "DISCONNECT", "DISCONNECT"]
MUT5 = MUT4 + ["AUTH"]
# not decided here: the broker need not notice these
LENIENT = ("packet id 0: ack", "ad without am", "reason code of DISCONNECT", "property not allowed: sr in DISCONNECT")

def wrong(data, ver):
  "the reason why data is not a correct packet, or None"
  try: strict.check(data, ver)
  except codec.BadPacket as x:
    return None if str(x) in LENIENT or ver == 4 and str(x).startswith("not minimal") else str(x)

def mut(n, ver, types, topics=None, vers=None, pids=(1, 2, 77)):
  "a packet of one of the types which is wrong (only) in one place"
  r = Random(n)
  for _ in range(1000):
    h, b = strict.some_packet(r, ver, types, pids, topics=topics or ("a/b", "a", "b/x"))
    d = strict.mutate(r, h, b)
    if all(wrong(d, v) for v in vers or (ver,)): return d
  return None


def raw(kind, op, model):
  n = op.get("n", 0)
  if kind == "silent": return b""
  if kind == "mutconn": return mut(op["n"], 4 + op["n"] % 2, ["CONNECT"], vers=(4, 5))
  if kind == "garbage": return bytes((i * 37 + n) & 255 for i in range(20))
  if kind == "ping": return b"\xc0\x00"
  if kind == "pub": return codec.encode({"t": "PUBLISH", "topic": "a/b", "qos": 0, "payload": b"rogue"}, 4)
  if kind == "sub": return codec.encode({"t": "SUBSCRIBE", "pid": 1, "filters": [("#", {"qos": 0})]}, 4)
  if kind == "halfconn": return codec.encode({"t": "CONNECT", "cid": "half", "clean": True, "ka": 0}, [4, 5][n % 2])[:1 + n % 13]
  if kind == "badproto": return codec.encode({"t": "CONNECT", "cid": "zz", "clean": True, "ka": 0, "pname": ["MQTX", "MQ", ""][n % 3]}, 4)
  if kind == "badver": return codec.encode({"t": "CONNECT", "cid": "zz", "clean": True, "ka": 0, "pver": [3, 6, 9][n % 3]}, 4)
  if kind == "http": return b"GET / HTTP/1.1\r\nHost: x\r\n\r\n"
  if kind == "wshalf": return codec.WS_REQ[:n % len(codec.WS_REQ)]
  if kind == "wsframe": return codec.WS_REQ + codec.ws_frame(codec.encode({"t": "CONNECT", "cid": "half", "clean": True, "ka": 0}, [4, 5][n % 2]))[:1 + n % 20]
  if kind == "disc": return b"\xe0\x00"
  if kind == "rl5": return b"\x10\xff\xff\xff\xff\xff\x7f"
  if kind == "longconn": return b"\x10\xff\xff\x7f" + b"\x00\x04MQTT\x05"
  return None
