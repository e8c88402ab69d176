"""Which property a deviation belongs to, judged by its minimised scenario.

Every deviation from the model carries the tags of the properties it breaks by
its kind.  A consequence can also be of a kind that says little ("a message is
missing") while its cause is the feature a property is about.  So a deviation
without the tag of the property under check is minimised first; it belongs to
the property if the smallest scenario that still shows it cannot do without the
feature (the minimiser removes whatever is not needed)."""


def ops_of(scn):
  out = []
  def walk(l):
    for o in l:
      if isinstance(o, dict):
        out.append(o)
        for k in ("ops", "then", "with"):
          if isinstance(o.get(k), list): walk(o[k])
        if isinstance(o.get("of"), dict): walk([o["of"]])
  walk(scn.get("ops", []))
  return out


def _any(f): return lambda scn, ops: any(f(o) for o in ops)
def _filters(o): return [(x[0], x[1]) for x in o.get("f", []) if isinstance(x, (list, tuple))]
def _vers(scn): return {(c.get("ver", 5) if isinstance(c, dict) else 5) for c in scn["cfg"].get("clients", {}).values()}
def _conns(ops): return [o["c"] for o in ops if o["op"] in ("conn", "late")]
def _reconnect(scn, ops):
  c = _conns(ops)
  return len(c) > len(set(c))
def _pubs(o): return o["op"] == "pub"
LOST = {"missing", "not-retransmitted", "never-finished", "shared-lost"}

NEED = {
 "P02": (_any(lambda o: _pubs(o) and o.get("qos") == 2), {"missing", "duplicate", "unanswered", "unsolicited", "wrong-answer", "unexpected-close", "unexpected-disconnect", "not-retransmitted"}),
 "P03": (lambda scn, ops: sum(map(_pubs, ops)) > 1, {"order", "missing", "duplicate", "not-retransmitted"}),
 "P04": (_any(lambda o: o.get("retain") or (o.get("will") or {}).get("retain")), None),
 "P06": (lambda scn, ops: _reconnect(scn, ops), {"missing", "duplicate", "unexpected-message", "session-present", "not-retransmitted", "no-assigned-id", "return-codes", "reason-code", "unanswered"}),
 "P07": (_any(lambda o: o.get("will")), None),
 "P08": (_any(lambda o: o.get("ka")), None),
 "P09": (_any(lambda o: o["op"] == "conn" and o.get("to")), None),
 "P10": (_any(lambda o: o.get("rm") or o.get("over") or o["op"] in ("release", "pol")), LOST | {"unexpected-close", "unexpected-disconnect", "unanswered"}),
 "P12": (lambda scn, ops: any(o["op"] in ("batch", "partial") or o.get("frames") or o.get("nc") or o.get("ns") for o in ops) or
         any(isinstance(c, dict) and c.get("ws") for c in scn["cfg"]["clients"].values()) or scn["cfg"].get("net_s") or scn["cfg"].get("net_c"), None),
 "P13": (_any(lambda o: o["op"] in ("bad", "rawbad")), None),
 "P29": (lambda scn, ops: any(o["op"] == "bad" or o["op"] == "rawbad" and o.get("kind") == "mutconn" for o in ops) or any(isinstance(c, dict) and c.get("odd") is not None for c in scn["cfg"]["clients"].values()), None),
 "P14": (_any(lambda o: o["op"] in ("stall", "unstall") or o["op"] == "rawbad" and o.get("then") == "stay"), None),
 "P15": (_any(lambda o: (o.get("p") or {}).get("mei") is not None or ((o.get("will") or {}).get("p") or {}).get("mei") is not None), None),
 "P16": (_any(lambda o: o.get("ta") is not None or o.get("tam") or str(o.get("kind", "")).startswith("alias")), None),
 "P17": (_any(lambda o: any(f.startswith("$share") for f, _ in _filters(o))), None),
 "P18": (_any(lambda o: o.get("sid") or any(q.get(k) for _, q in _filters(o) for k in ("nl", "rap", "rh")) or set(o.get("p") or {}) & {"up", "ct", "rt", "cd", "pfi"}), None),
 "P28": (_any(lambda o: str(o.get("topic", "")).startswith(("test_qos", "cmd/")) or o.get("op") in ("sub", "unsub") and o.get("up") or any(f.startswith("test/") for f, _ in _filters(o))), None),
 "P30": (lambda scn, ops: bool(scn["cfg"].get("visual")), None),
 "P31": (lambda scn, ops: bool(scn["cfg"].get("tls")), None),
 "P19": (lambda scn, ops: len(_vers(scn)) > 1, None),
 "P23": (_any(lambda o: o["op"] == "restart"), None),
 "P25": (_any(lambda o: o["op"] in ("sn", "snconn")), None),
 "P20": (lambda scn, ops: any(o.get("mps") or o.get("big") for o in ops) or "maximumPacketSize" in scn["cfg"].get("options", {}), None),
}


def applies(prop, scn, kind):
  "may a deviation of this kind be the property's, if the scenario is minimal?"
  d = NEED.get(prop)
  if d is None or d[1] is not None and kind not in d[1]: return False
  return bool(d[0](scn, ops_of(scn)))
