#!/usr/bin/env python3
"""Development aid: small random changes of the code under test, to see which of them no profile notices.
mutate.py SRC FILE... [n=40] [seed=1] [runs=60] [props=P01,P02] [jobs=8] [out=FILE]     (SRC: a clone of the repository)"""
import ast, json, os, random, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, ".."))
sys.dont_write_bytecode = True
from dst import runner, profiles

LOCK = ["P%02d" % i for i in range(1, 21)] + ["P24", "P28", "P29", "P30", "P31"]
SCOPE = [("brokers/SN", ["P25"]), ("HTTPListeners", ["P27"]), ("TCPListeners", ["P12", "P13", "P14", "P26", "P08", "P01"]), ("UDPListeners", ["P25", "P26"]), ("start.py", ["P26", "P23", "P25", "P27", "P01"]),
         ("formats/MQTTSN", ["P25"]), ("formats/MQTTV311", LOCK + ["P21", "P22"]), ("formats/MQTTV5", LOCK + ["P21"]), ("clients/", ["P21"]), ("proxy", ["P22"]), ("netproxy", ["P22"]), ("restart", ["P22"]),
         ("brokers/", LOCK + ["P26", "P23", "P25"])]
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
NOISE = ("logger.", "print(", "traceback.", "mscfile", "logging.", "sys.stdout", "import ", "visual")


def sites(src):
  t = ast.parse(src)
  L = src.split("\n")
  off = [0]
  for l in L: off.append(off[-1] + len(l) + 1)
  pos = lambda ln, col: off[ln - 1] + len(L[ln - 1].encode()[:col].decode())
  seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
  out = []
  def add(n, new, what):
    a, b = seg(n)
    line = L[n.lineno - 1].strip()
    if any(x in line for x in NOISE) or src[a:b] == new: return
    out.append((a, b, new, what, n.lineno))
  for f in ast.walk(t):
    if not isinstance(f, (ast.FunctionDef,)): continue
    if f.name in ("__str__", "__repr__", "getstr") : continue
    for n in ast.walk(f):
      if isinstance(n, ast.Compare) and len(n.ops) == 1:
        a, b = seg(n)
        add(n, "(%s %s %s)" % (src[slice(*seg(n.left))], SWAP[type(n.ops[0])], src[slice(*seg(n.comparators[0]))]), "compare")
      elif isinstance(n, ast.BoolOp):
        x = " or " if isinstance(n.op, ast.And) else " and "
        add(n, "(" + x.join("(%s)" % src[slice(*seg(v))] for v in n.values) + ")", "boolop")
        if len(n.values) > 1:
          for i in range(len(n.values)):
            add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % src[slice(*seg(v))] for j, v in enumerate(n.values) if j != i) + ")", "operand dropped")
      elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        add(n, "(%s)" % src[slice(*seg(n.operand))], "not dropped")
      elif isinstance(n, (ast.If, ast.IfExp)):
        add(n.test, "False", "if False"); add(n.test, "True", "if True")
      elif isinstance(n, ast.Constant) and isinstance(n.value, bool): add(n, str(not n.value), "bool")
      elif isinstance(n, ast.Constant) and isinstance(n.value, int): add(n, str(n.value + 1), "int+1")
      elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert, ast.Continue, ast.Break)): add(n, "pass", "statement dropped")
      elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): add(n, "pass", "statement dropped")
      elif isinstance(n, ast.Return) and n.value is not None: add(n, "return None", "return None")
      elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
        add(n, "(%s %s %s)" % (src[slice(*seg(n.left))], "-" if isinstance(n.op, ast.Add) else "+", src[slice(*seg(n.right))]), "+-")
  seen, l = set(), []
  for s in out:
    if s[:3] not in seen:
      seen.add(s[:3])
      try: ast.parse(src[:s[0]] + s[2] + src[s[1]:])
      except SyntaxError: continue
      l.append(s)
  return l


def main():
  kw = dict(a.split("=", 1) for a in sys.argv[1:] if "=" in a)
  args = [a for a in sys.argv[1:] if "=" not in a]
  src, files = os.path.abspath(args[0]), args[1:]
  r = random.Random(int(kw.get("seed", 1)))
  work = "/tmp/mut.%d" % os.getpid()
  out = open(kw.get("out", "/tmp/mutants.txt"), "a")
  total = surv = 0
  for f in files:
    text = open(os.path.join(src, f)).read()
    S = sites(text)
    r.shuffle(S)
    props = kw["props"].split(",") if "props" in kw else next(p for k, p in SCOPE if k in f)
    for a, b, new, what, ln in S[:int(kw.get("n", 40))]:
      shutil.rmtree(work, ignore_errors=True)
      shutil.copytree(src, work, symlinks=True, ignore=shutil.ignore_patterns(".git"))
      open(os.path.join(work, f), "w").write(text[:a] + new + text[b:])
      os.environ["VERIF_REPO"] = work
      t0, hit, per = time.monotonic(), None, []
      try: pool = runner.Pool(int(kw.get("jobs", 8)))
      except RuntimeError as e: hit = "import"
      if hit is None:
        jobs = []
        for p in props:
          js = [j for j in runner.plan(p, "quick", int(kw.get("seed", 1)) + 100) if not profiles.BYNAME[j[0]].get("limit")]
          jobs += [(i, p, j) for i, j in enumerate(js[:int(kw.get("runs", 60))])]
        jobs.sort(key=lambda x: x[0])
        def stop(): return hit is not None
        for q in pool.run((dict(runner.job(i, j[2]), limit=40) for i, j in enumerate(jobs)), stop):
          if q["status"] != "ok" and hit is None: hit = "%s %s %s" % (q["gen"], q["kind"], q["tags"])
        pool.close()
      total += 1
      o = text[a:b].replace("\n", "\\n")
      s = "%s %s:%d %s: %s -> %s   %s %.0fs" % ("SURVIVED" if hit is None else "killed", f, ln, what, o[:110], new[:110], hit or "", time.monotonic() - t0)
      if hit is None: surv += 1
      print(s, file=out, flush=True)
  print("done: %d mutants, %d survived" % (total, surv), file=out, flush=True)
  shutil.rmtree(work, ignore_errors=True)

main()
