"""Puts every source of nondeterminism of this process behind the simulator.

install() patches the standard library's clocks, threads, locks, sockets,
select, randomness, uuid and signals.  With no simulation active (kernel.cur is
None) every patched function behaves as the original."""
import _thread, io, os, random, select, selectors, signal, socket, socketserver, sys, threading, time, uuid
from . import kernel, net, tls
from .kernel import TIMEOUT, HarnessError

REPO = os.environ.get("VERIF_REPO", "/repo")
IOP = os.path.join(REPO, "interoperability")

real = {n: getattr(time, n) for n in ("time", "monotonic", "sleep", "perf_counter", "process_time", "time_ns", "monotonic_ns")}


def _t_time():
  s = kernel.cur
  return real["time"]() if s is None else kernel.EPOCH + s.now + s.wall_offset

def _t_mono():
  s = kernel.cur
  return real["monotonic"]() if s is None else kernel.BOOT + s.now

def _t_proc():
  s = kernel.cur
  return real["process_time"]() if s is None else s.now * 0.1

def _t_sleep(dt):
  s = kernel.cur
  if s is None or s.current is None:
    if s is None:
      return real["sleep"](dt)
    raise HarnessError("sleep outside a task")
  end = s.now + max(dt, 0)
  first = True
  while s.now < end or first:
    first = False
    s.park(max(end - s.now, 0), "sleep")


# ---------------------------------------------------------------- threads
_orig = {}

def _thread_start(self):
  s = kernel.cur
  if s is None:
    return _orig["start"](self)
  if getattr(self, "_sim_task", None) is not None:
    raise RuntimeError("threads can only be started once")
  def body():
    ident = _thread.get_ident()
    self._ident = ident
    threading._active[ident] = self
    try:
      self.run()
    except SystemExit:
      pass
    finally:
      threading._active.pop(ident, None)
      self._is_stopped = True
  name = getattr(getattr(self, "_target", None), "__name__", None) or type(self).__name__
  self._sim_task = s.spawn(body, "%s-%d" % (name, len(s.tasks)))
  self._sim_task.daemon = bool(self.daemon)
  self._started.set() if hasattr(self._started, "set") else None
  s.point()

def _thread_join(self, timeout=None):
  s = kernel.cur
  if s is None or getattr(self, "_sim_task", None) is None:
    return _orig["join"](self, timeout)
  t = self._sim_task
  end = None if timeout is None else s.now + timeout
  while t.state != kernel.DONE:
    left = None if end is None else end - s.now
    if left is not None and left <= 0:
      return
    t.joiners.append(s.current)
    s.park(left, "join")

def _thread_is_alive(self):
  t = getattr(self, "_sim_task", None)
  if t is None:
    return _orig["is_alive"](self)
  return t.state != kernel.DONE

def _start_new_thread(fn, args, kwargs={}):
  s = kernel.cur
  if s is None:
    return _orig["start_new_thread"](fn, args, kwargs)
  s.spawn(lambda: fn(*args, **kwargs), "%s-%d" % (getattr(fn, "__name__", "thread"), len(s.tasks))).daemon = True
  return len(s.tasks)

def _get_ident():
  s = kernel.cur
  if s is None or s.current is None:
    return _orig["get_ident"]()
  return 1000000 + s.current.serial

def _factory(simcls, name):
  o = getattr(threading, name)
  _orig[name] = o
  class Meta(type):
    def __instancecheck__(cls, obj):
      return isinstance(obj, simcls) or (isinstance(o, type) and isinstance(obj, o))
    def __call__(cls, *a, **k):
      return simcls(*a, **k) if kernel.cur is not None else o(*a, **k)
  return Meta(name, (), {})


# ---------------------------------------------------------------- randomness, uuid, signals
def _uuid4():
  s = kernel.cur
  if s is None:
    return _orig["uuid4"]()
  return uuid.UUID(int=s.rng.getrandbits(128), version=4)

def _signal(signum, handler):
  s = kernel.cur
  if s is None:
    return _orig["signal"](signum, handler)
  g = s.current.group if s.current else s.default_group
  old = g.handlers.get(signum, signal.SIG_DFL)
  g.handlers[signum] = handler
  return old


_RealSocket = socket.socket

class _SockMeta(type):
  def __call__(cls, *a, **k):
    return net.SimSocket(*a, **k) if kernel.cur is not None else _RealSocket(*a, **k)
  def __instancecheck__(cls, obj):
    return isinstance(obj, (net.SimSocket, _RealSocket))


class _SelMeta(type):
  def __call__(cls, *a, **k):
    return net.SimSelector()


def install():
  if _orig.get("done"):
    return
  _orig["done"] = True
  time.time, time.monotonic, time.sleep = _t_time, _t_mono, _t_sleep
  time.perf_counter, time.process_time = _t_mono, _t_proc
  time.time_ns = lambda: int(_t_time() * 1e9)
  time.monotonic_ns = time.perf_counter_ns = lambda: int(_t_mono() * 1e9)
  socketserver.time = _t_mono
  T = threading.Thread
  _orig.update(start=T.start, join=T.join, is_alive=T.is_alive, start_new_thread=_thread.start_new_thread)
  T.start, T.join, T.is_alive = _thread_start, _thread_join, _thread_is_alive
  _thread.start_new_thread = _start_new_thread
  _orig["get_ident"] = _thread.get_ident
  _thread.get_ident = threading.get_ident = _get_ident      # those of finished threads are used again by the real one
  for name, c in (("Lock", kernel.SimLock), ("RLock", kernel.SimRLock), ("Condition", kernel.SimCondition),
                  ("Event", kernel.SimEvent), ("Semaphore", kernel.SimSemaphore), ("BoundedSemaphore", kernel.SimSemaphore)):
    setattr(threading, name, _factory(c, name))
  tls.install()
  _orig["uuid4"] = uuid.uuid4
  uuid.uuid4 = _uuid4
  _orig["signal"] = signal.signal
  signal.signal = _signal
  socket.socket = _SockMeta("socket", (), {})
  socket.SocketType = socket.socket
  _orig["create_connection"] = socket.create_connection
  socket.create_connection = net.create_connection
  socket.getfqdn = lambda name="": "simhost"
  _orig["select"] = select.select
  select.select = net.sim_select
  sel = _SelMeta("SimSelectorType", (), {})
  socketserver._ServerSelector = sel
  for n in ("DefaultSelector", "PollSelector", "SelectSelector", "EpollSelector"):
    if hasattr(selectors, n):
      setattr(selectors, n, sel)


# ---------------------------------------------------------------- code under test
broken = {}
_serials = {}
_keep = []

def _sim_hash(obj):
  k = id(obj)
  n = _serials.get(k)
  if n is None:
    n = _serials[k] = len(_keep) * 8 + 1000
    _keep.append(obj)
  return n


def repo_modules():
  return [m for m in list(sys.modules.values()) if getattr(m, "__file__", None) and m.__file__.startswith(IOP)]


def snapshot_modules():
  "the module and class level state of the code under test"
  out = []
  for m in repo_modules():
    objs = [m] + [v for v in vars(m).values() if isinstance(v, type) and v.__module__ == m.__name__]
    for o in objs:
      d = {}
      for k, v in vars(o).items():
        if k.startswith("__"): continue
        d[k] = (v, type(v)(v) if type(v) in (list, dict, set) else None)
      out.append((o, d))
  return out

def restore_modules(snap):
  "a new process has freshly imported modules"
  for o, d in snap:
    for k in [k for k in vars(o) if not k.startswith("__") and k not in d]:
      delattr(o, k)
    for k, (v, content) in d.items():
      if content is not None:
        v.clear()
        v.extend(content) if isinstance(v, list) else v.update(content)
      if vars(o).get(k) is not v: setattr(o, k, v)

def load(extra=()):
  "import the code under test (from the working tree) and make object hashes deterministic"
  if IOP not in sys.path:
    sys.path.insert(0, IOP)
  import mqtt, mqtt.brokers, mqtt.brokers.start
  import mqtt.clients.V311, mqtt.clients.V5
  try: import ZODB, ZODB.FileStorage, BTrees.OOBTree, transaction, persistent, persistent.mapping
  except ImportError: pass
  import importlib, types
  class Client:                 # stands in for the restart proxy's control connection
    made = []
    def __init__(self, *a, **k): Client.made.append(self)
    def __getattr__(self, name):
      if name.startswith("__") or name.startswith("on_"): raise AttributeError(name)
      return lambda *a, **k: None
  paho = [types.ModuleType(n) for n in ("paho", "paho.mqtt", "paho.mqtt.client")]
  paho[2].Client, paho[1].client, paho[0].mqtt = Client, paho[2], paho[1]
  for m in paho: sys.modules[m.__name__] = m
  for m in ("mqtt.proxy.mqttsas", "mqtt.restart.netproxy"):
    try: importlib.import_module(m)
    except Exception as e: broken[m] = e         # the check that needs it says so
  for m in extra:
    importlib.import_module(m)
  for m in repo_modules():
    for v in list(vars(m).values()):
      if isinstance(v, type) and v.__module__ == m.__name__ and v.__hash__ is object.__hash__ and not issubclass(v, BaseException):
        try:
          v.__hash__ = _sim_hash
        except TypeError:
          pass


_codes = None
TOOL = 2

def _walk(code, out):
  if code in out:
    return
  out.add(code)
  for c in code.co_consts:
    if hasattr(c, "co_code"):
      _walk(c, out)


def instrument_lines(modules=None):
  "deliver every executed line of the code under test to the scheduler"
  global _codes
  mon = sys.monitoring
  if _codes is not None:
    return
  codes = set()
  def visit(v):
    f = getattr(v, "__func__", v)
    c = getattr(f, "__code__", None)
    if c is not None and c.co_filename.startswith(IOP):
      _walk(c, codes)
    if isinstance(v, type):
      for x in list(vars(v).values()):
        if not isinstance(x, type) or x.__module__ == v.__module__:
          visit(x)
  for m in repo_modules():
    n = m.__name__
    if n.startswith("mqtt.brokers") or n.startswith("mqtt.clients") or n.startswith("mqtt.proxy") or n.startswith("mqtt.restart"):
      if n.endswith("coverage"):
        continue
      for v in list(vars(m).values()):
        if getattr(v, "__module__", None) == n:
          visit(v)
  _codes = codes
  mon.use_tool_id(TOOL, "dst")
  def line(code, lineno):
    s = kernel.cur
    if s is not None and s.current is not None:
      s.line()
  mon.register_callback(TOOL, mon.events.LINE, line)
  for c in codes:
    mon.set_local_events(TOOL, c, mon.events.LINE)


def no_lines():
  "for long runs without preemption at lines (in this process from now on)"
  sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, None)
  for c in _codes or (): sys.monitoring.set_local_events(TOOL, c, 0)
