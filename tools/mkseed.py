"""mkseed.mk(id, property, needs, breaks, edits, demo): writes /verif/seeded/<id>/ from edits [(file, old, new)] and the body of a demo."""
import os, shutil, subprocess, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import sys, os, time, socket, signal, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mq import *
'''

def mk(id, prop, needs, breaks, edits, demo):
  d = os.path.join(V, "seeded", id)
  t = tempfile.mkdtemp(prefix="mkseed")
  subprocess.check_call(["git", "clone", "-q", os.environ.get("SEED_SRC", "/repo"), t + "/r"])
  for f, old, new in edits:
    p = os.path.join(t, "r", "interoperability", f)
    s = open(p, newline="").read()
    assert s.count(old) == 1, (id, f, s.count(old), old)
    open(p, "w", newline="").write(s.replace(old, new))
  diff = subprocess.check_output(["git", "-C", t + "/r", "diff"])
  shutil.rmtree(t)
  os.makedirs(d, exist_ok=True)
  open(d + "/patch.diff", "wb").write(diff)
  for f in ("mq.py", "codec.py"): shutil.copy(os.path.join(V, "tools", "demo", f), d)
  open(d + "/demo.py", "w").write(HEAD + demo.strip() + "\nprint('ok')\n")
  open(d + "/demo.sh", "w").write('''#!/bin/bash
py=/opt/venv/bin/python; [ -x $py ] || py=python3
export PYTHONDONTWRITEBYTECODE=1
exec timeout 250 $py "$(dirname "$0")/demo.py"
''')
  os.chmod(d + "/demo.sh", 0o755)
  json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
