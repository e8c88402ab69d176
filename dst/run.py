"""One simulated execution: scenario in, result out."""
import importlib, random, sys, traceback
from . import kernel, seams

MODES = {"lockstep": "lockstep"}


def run_scenario(scn):
  from . import lockstep
  mod = importlib.import_module("dst." + MODES.get(scn.get("mode", "lockstep"), scn.get("mode", "lockstep")))
  so, se = sys.stdout, sys.stderr
  d = None
  r = {"status": "ok"}
  try:
    try:
      if scn.get("cfg", {}).get("nolines"): seams.no_lines()
      d = mod.Driver(scn)
      sys.stdout = sys.stderr = d.w.sink
      d.run()
    except kernel.Violation as e:
      r.update(status="violation", kind=e.kind, detail=e.detail, tags=list(e.tags))
    except kernel.StepLimit as e:
      r.update(status="violation", kind="livelock", detail=str(e), tags=["P22"] if scn.get("mode") == "proxy" else ["P21"] if scn.get("mode") == "client" else ["P13", "P14", "P26", "P24", "P12", "P05", "P01"])
    except BaseException as e:
      r.update(status="error", kind=type(e).__name__, detail=traceback.format_exc()[-3000:], tags=[])
  finally:
    sys.stdout, sys.stderr = so, se
  if d is not None:
    s = d.w.sim
    r.update(op=getattr(d, "opidx", None), crc=s.crc, schedcrc=s.schedcrc, steps=s.steps, switches=s.switches, simtime=round(s.now, 6), nev=s.nlog,
             counters=s.counters, stats=dict(getattr(getattr(d, "model", None), "stats", {})), states=sorted(getattr(getattr(d, "model", None), "statehash", ())),
             task_errors=["%s: %s" % (getattr(a, "name", a), str(b)[-300:]) for a, b in [(x if isinstance(x, tuple) else ("?", x))[:2] for x in s.task_errors[:3]]])
    if scn.get("keep_log"): r["log"] = s.log
    if scn.get("keep_tail"): r["tail"] = "".join(d.w.sink.tail)[-4000:]
  return r
