"""Worker process: imports the code under test once, then forks one child per simulated run.

Reads one JSON request per line: {"id", "scn"} or {"id", "gen": [profile, seed]}; writes one JSON result per line."""
import json, os, select, signal, sys, time
real_time = time.monotonic
real_select = select.select
real_stdout = sys.stdout


def main():
  import logging, resource, tempfile, shutil
  from . import seams
  out = os.fdopen(os.dup(1), "w")
  os.dup2(2, 1)
  seams.install()
  try:
    seams.load()
  except BaseException:
    import traceback
    out.write(json.dumps({"fatal": "cannot import the code under test: " + traceback.format_exc()[-1500:]}) + "\n")
    out.flush()
    return
  seams.instrument_lines()
  logging.disable(logging.CRITICAL)
  from . import gen, run
  limit = float(os.environ.get("DST_RUN_LIMIT", "60"))
  scratch = os.environ["DST_SCRATCH"]
  out.write(json.dumps({"ready": os.getpid()}) + "\n")
  out.flush()
  for line in sys.stdin:
    req = json.loads(line)
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        os.close(rd)
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        d = tempfile.mkdtemp(dir=scratch)
        os.chdir(d)
        try:
          scn = req.get("scn") or gen.make(req["gen"][0], req["gen"][1])
          r = run.run_scenario(scn)
          if req.get("want_scn") or r["status"] != "ok": r["scn"] = scn
        finally:
          os.chdir("/")
          shutil.rmtree(d, ignore_errors=True)
        data = json.dumps(r).encode()
      except BaseException as e:
        import traceback
        data = json.dumps({"status": "error", "kind": "worker", "detail": traceback.format_exc()[-2000:], "tags": []}).encode()
      while data:
        data = data[os.write(wr, data):]
      os._exit(0)
    os.close(wr)
    buf, end = b"", real_time() + float(req.get("limit", limit))
    killed = False
    while True:
      left = end - real_time()
      if left <= 0:
        os.kill(pid, signal.SIGKILL)
        killed = True
        break
      if real_select([rd], [], [], left)[0]:
        x = os.read(rd, 1 << 16)
        if not x: break
        buf += x
    os.close(rd)
    os.waitpid(pid, 0)
    if killed: r = {"status": "timeout", "kind": "timeout", "detail": "run exceeded its wall clock limit", "tags": []}
    elif not buf: r = {"status": "error", "kind": "crash", "detail": "run died", "tags": []}
    else: r = json.loads(buf)
    r["id"] = req["id"]
    if "gen" in req: r["gen"] = req["gen"]
    out.write(json.dumps(r) + "\n")
    out.flush()


if __name__ == "__main__":
  main()
