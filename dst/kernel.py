"""Deterministic simulation kernel.

Real OS threads run the code under test, but exactly one of them (or the
scheduler) holds the baton at any time: a thread gives it up only inside an
intercepted operation (lock, sleep, select, socket call, thread start/join, or
a sampled source line of the code under test), and the seeded scheduler alone
decides who gets it next.  Time is virtual and advances only when the scheduler
says so.
"""
import _thread, heapq, random, sys, zlib

_start_new_thread = _thread.start_new_thread
TIMEOUT = object()
RUNNABLE, BLOCKED, DONE = 0, 1, 2
EPOCH = 1_700_000_000.0
BOOT = 5000.0

cur = None  # the active Sim of this process (one per process)


class HarnessError(Exception):
  "something is wrong with the harness, not with the code under test"


class StepLimit(Exception):
  "the run used up its step budget"


class Violation(Exception):
  def __init__(self, kind, detail, tags):
    Exception.__init__(self, kind, detail)
    self.kind, self.detail, self.tags = kind, detail, tuple(tags)


class Group:
  "one simulated operating system process"
  def __init__(self, name):
    self.name = name
    self.dead = False
    self.main = None
    self.handlers = {}
    self.tasks = []


class Task:
  def __init__(self, name, group, serial):
    self.name, self.group, self.serial = name, group, serial
    self.lock = _thread.allocate_lock()
    self.lock.acquire()
    self.state = BLOCKED
    self.value = None
    self.epoch = 0            # distinguishes successive parks, for timers
    self.why = ""
    self.joiners = []
    self.pending_signal = None
    self.error = None
    self.daemon = False
    self.prio = 0.0

  def __repr__(self):
    return "<%s>" % self.name


class Sim:
  def __init__(self, seed, sched=None, max_steps=200000):
    self.rng = random.Random(seed)
    self.sched = dict(kind="random", preempt=0.0, yield_p=0.3, cost=2e-5)
    self.sched.update(sched or {})
    self.now = 0.0
    self.wall_offset = 0.0
    self.heap = []
    self.eseq = 0
    self.net_pending = 0
    self.runnable = []
    self.current = None
    self.tasks = []
    self.sched_lock = _thread.allocate_lock()
    self.sched_lock.acquire()
    self.steps = 0
    self.max_steps = max_steps
    self.crc = 0
    self.schedcrc = 0
    self.log = []
    self.keep_log = False
    self.nlog = 0
    self.task_errors = []
    self.failed = None         # a violation found inside a task
    self.counters = {}
    self.switches = 0
    self.main_group = Group("harness")
    self.default_group = self.main_group
    self.lines_left = 1 << 60
    self.preempt_active = False
    self.spin, self.max_spin, self.stuck = 0, 400000, None
    self._pct_change = set()
    if self.sched["kind"] == "pct":
      n = self.sched.get("pct_points", 4)
      self._pct_change = set(self.rng.randrange(1, self.sched.get("pct_len", 400)) for _ in range(n))

  # ---------------------------------------------------------------- logging
  def ev(self, *what):
    "record an event of the execution (used for the determinism check and replay)"
    self.nlog += 1
    s = "%.6f %s" % (self.now, what)
    self.crc = zlib.crc32(s.encode("utf-8", "replace"), self.crc)
    if self.keep_log:
      self.log.append(s)

  def count(self, name, n=1):
    self.counters[name] = self.counters.get(name, 0) + n

  # ---------------------------------------------------------------- events
  def at(self, t, fn, net=False):
    self.eseq += 1
    ev = [max(t, self.now), self.eseq, fn, net]
    heapq.heappush(self.heap, ev)
    if net:
      self.net_pending += 1
    return ev

  def after(self, dt, fn, net=False):
    return self.at(self.now + dt, fn, net)

  def cancel(self, ev):
    if ev[2] is not None:
      ev[2] = None
      if ev[3]:
        self.net_pending -= 1

  def _pop_event(self):
    while self.heap:
      ev = heapq.heappop(self.heap)
      if ev[2] is not None:
        return ev
    return None

  def _peek(self):
    while self.heap and self.heap[0][2] is None:
      heapq.heappop(self.heap)
    return self.heap[0] if self.heap else None

  # ---------------------------------------------------------------- tasks
  def spawn(self, fn, name, group=None):
    group = group or (self.current.group if self.current else self.default_group)
    t = Task(name, group, len(self.tasks))
    self.tasks.append(t)
    group.tasks.append(t)
    t.prio = self.rng.random()
    def boot():
      t.lock.acquire()
      try:
        fn()
      except BaseException as e:
        import traceback as tb
        t.error = e
        if isinstance(e, Violation) and self.failed is None: self.failed = e
        self.task_errors.append((t.name, type(e).__name__, str(e)[:200], tb.format_exc()[-1500:]))
      t.state = DONE
      for j in t.joiners:
        self.wake(j, None)
      self.sched_lock.release()
    _start_new_thread(boot, ())
    t.state = RUNNABLE
    if not group.dead:
      self.runnable.append(t)
    return t

  def wake(self, t, value=None):
    if t.state == BLOCKED and not t.group.dead:
      t.state = RUNNABLE
      t.value = value
      t.epoch += 1
      self.runnable.append(t)

  def _out(self, t):
    self.sched_lock.release()
    t.lock.acquire()
    if t.pending_signal is not None:
      signum, handler = t.pending_signal
      t.pending_signal = None
      handler(signum, None)

  def park(self, timeout=None, why=""):
    "block the current task until woken; returns TIMEOUT or the wake value"
    t = self.current
    if t is None:
      raise HarnessError("blocking call outside a task: " + why)
    t.state = BLOCKED
    t.why = why
    t.value = None
    if timeout is not None:
      ep = t.epoch
      def fire():
        if t.epoch == ep and t.state == BLOCKED:
          self.wake(t, TIMEOUT)
      ev = self.at(self.now + timeout, fire)
      try:
        self._out(t)
      finally:
        self.cancel(ev)
    else:
      self._out(t)
    return t.value

  def yield_(self):
    t = self.current
    if t is None:
      return
    t.state = RUNNABLE
    self.runnable.append(t)
    self._out(t)

  def point(self, p=None):
    "a scheduling point inside an intercepted operation"
    t = self.current
    if t is None:
      return
    self.now += self.sched["cost"]
    if not self.runnable:
      e = self._peek()
      if e is None or e[0] > self.now:
        return
    if self.rng.random() < (self.sched["yield_p"] if p is None else p):
      self.yield_()

  def kill_group(self, group):
    "the process dies at once: none of its threads runs again"
    group.dead = True
    self.runnable = [t for t in self.runnable if t.group is not group]

  def signal_group(self, group, signum):
    t = group.main
    h = group.handlers.get(signum)
    if t is None or h is None or t.state == DONE:
      return False
    t.pending_signal = (signum, h)
    if t.state == BLOCKED:
      self.wake(t, None)
    return True

  # ---------------------------------------------------------------- loop
  def _pick(self):
    r = self.runnable
    if len(r) == 1:
      return r.pop()
    k = self.sched["kind"]
    if k == "fifo":
      return r.pop(0)
    if k == "lifo":
      return r.pop() if self.rng.random() < 0.9 else r.pop(self.rng.randrange(len(r)))
    if k == "pct":
      if self.switches in self._pct_change:
        for t in r:
          t.prio = self.rng.random()
      i = max(range(len(r)), key=lambda i: (r[i].prio, i))
      if self.rng.random() < 0.02:      # no starvation
        i = self.rng.randrange(len(r))
      return r.pop(i)
    return r.pop(self.rng.randrange(len(r)))

  def step(self, limit=None):
    "one scheduling decision; False if nothing can happen before `limit`"
    self.steps += 1
    if self.steps > self.max_steps:
      raise StepLimit("step limit %d at t=%.3f" % (self.max_steps, self.now))
    if self.stuck:
      raise StepLimit(self.stuck)
    if self.failed is not None:
      raise self.failed
    if self.runnable:
      e = self._peek()
      if e is not None and e[0] <= self.now and self.rng.random() < 0.5:
        self._fire(self._pop_event())
        return True
      t = self._pick()
      self.switches += 1
      self.schedcrc = zlib.crc32(b"%d" % t.serial, self.schedcrc)
      self.current = t
      self.spin = 0
      t.lock.release()
      self.sched_lock.acquire()
      self.current = None
      self.now += self.sched["cost"]
      return True
    e = self._peek()
    if e is None or (limit is not None and e[0] > limit):
      return False
    self._fire(self._pop_event())
    return True

  def _fire(self, ev):
    if ev[3]:
      self.net_pending -= 1
    if ev[0] > self.now:
      self.now = ev[0]
    fn, ev[2] = ev[2], None
    fn()

  def run_for(self, dt):
    limit = self.now + dt
    while self.step(limit):
      pass
    if self.now < limit:
      self.now = limit

  def run_quiet(self, max_dt=30.0):
    """run until nothing is runnable and nothing is in transit (only timers
    remain); returns False if that takes more than max_dt of virtual time"""
    limit = self.now + max_dt
    while self.runnable or self.net_pending:
      if not self.step(limit):
        return False
      if self.now > limit:
        return False
    return True

  def run_until(self, cond, max_dt):
    limit = self.now + max_dt
    while not cond():
      if self.now > limit or not self.step(limit):
        return cond()
    return True

  # ---------------------------------------------------------------- preemption at lines
  def arm_lines(self):
    p = self.sched["preempt"]
    if p > 0:
      self.preempt_active = True
      self._next_line()

  def _next_line(self):
    p = self.sched["preempt"]
    self.lines_left = 1 + int(self.rng.expovariate(p))

  def line(self):
    "called for every executed line of the code under test"
    self.spin += 1
    if self.spin > self.max_spin and self.current is not None:
      self.stuck = "%s ran %d lines without ever waiting" % (self.current.name, self.spin)
      self.spin = 0
      self.yield_()
    if not self.preempt_active: return
    self.lines_left -= 1
    if self.lines_left > 0:
      return
    self._next_line()
    if self.current is not None and self.preempt_active:
      self.now += self.sched["cost"]
      if self.runnable or (self._peek() and self.heap[0][0] <= self.now):
        self.count("preempt")
        self.yield_()


# -------------------------------------------------------------------- synchronisation objects
class SimLock:
  def __init__(self):
    self._owner = None
    self._waiters = []

  def acquire(self, blocking=True, timeout=-1):
    s = cur
    s.point()
    me = s.current
    if self._owner is None:
      self._owner = me or True
      return True
    if not blocking:
      return False
    if me is None:
      raise HarnessError("deadlock: harness would block on a lock")
    deadline = None if timeout is None or timeout < 0 else s.now + timeout
    s.count("lock_contention")
    while self._owner is not None:
      self._waiters.append(me)
      left = None if deadline is None else deadline - s.now
      if left is not None and left <= 0:
        self._waiters.remove(me)
        return False
      s.park(left, "lock")
      if me in self._waiters:
        self._waiters.remove(me)
    self._owner = me
    return True

  def release(self):
    if self._owner is None:
      raise RuntimeError("release unlocked lock")
    self._owner = None
    self._wake()
    cur.point()

  def _wake(self):
    ws = [w for w in self._waiters if not w.group.dead and w.state == BLOCKED]
    for w in ws:       # all waiters compete: the scheduler decides who gets it
      cur.wake(w)

  def locked(self):
    return self._owner is not None

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()


class SimRLock(SimLock):
  def __init__(self):
    SimLock.__init__(self)
    self._count = 0

  def acquire(self, blocking=True, timeout=-1):
    me = cur.current or True
    if self._owner is me:
      self._count += 1
      return True
    rc = SimLock.acquire(self, blocking, timeout)
    if rc:
      self._count = 1
    return rc

  def release(self):
    if self._owner is not (cur.current or True):
      raise RuntimeError("cannot release un-acquired lock")
    self._count -= 1
    if self._count == 0:
      SimLock.release(self)

  __enter__ = acquire

  def _is_owned(self):
    return self._owner is (cur.current or True)


class SimCondition:
  def __init__(self, lock=None):
    self._lock = lock or SimRLock()
    self.acquire, self.release = self._lock.acquire, self._lock.release
    self._cw = []

  def __enter__(self):
    return self._lock.acquire()

  def __exit__(self, *a):
    self._lock.release()

  def wait(self, timeout=None):
    me = cur.current
    self._cw.append(me)
    n = getattr(self._lock, "_count", 1)
    for _ in range(n):
      self._lock.release()
    ok = True
    try:
      if me in self._cw:
        ok = cur.park(timeout, "condition") is not TIMEOUT
    finally:
      if me in self._cw:
        self._cw.remove(me)
      for _ in range(n):
        self._lock.acquire()
    return ok

  def wait_for(self, predicate, timeout=None):
    end = None if timeout is None else cur.now + timeout
    r = predicate()
    while not r:
      left = None if end is None else end - cur.now
      if left is not None and left <= 0:
        break
      self.wait(left)
      r = predicate()
    return r

  def notify(self, n=1):
    for w in self._cw[:n]:
      self._cw.remove(w)
      cur.wake(w)

  def notify_all(self):
    self.notify(len(self._cw))
  notifyAll = notify_all


class SimEvent:
  def __init__(self):
    self._flag = False
    self._ws = []

  def is_set(self):
    return self._flag
  isSet = is_set

  def set(self):
    self._flag = True
    ws, self._ws = self._ws, []
    for w in ws:
      cur.wake(w)
    cur.point()

  def clear(self):
    self._flag = False

  def wait(self, timeout=None):
    cur.point()
    end = None if timeout is None else cur.now + timeout
    while not self._flag:
      left = None if end is None else end - cur.now
      if left is not None and left <= 0:
        break
      me = cur.current
      self._ws.append(me)
      cur.park(left, "event")
      if me in self._ws:
        self._ws.remove(me)
    return self._flag


class SimSemaphore:
  def __init__(self, value=1):
    self._v = value
    self._c = SimCondition(SimLock())

  def acquire(self, blocking=True, timeout=None):
    with self._c:
      while self._v == 0:
        if not blocking:
          return False
        if not self._c.wait(timeout) and timeout is not None:
          return False
      self._v -= 1
      return True
  __enter__ = acquire

  def release(self, n=1):
    with self._c:
      self._v += n
      self._c.notify(n)

  def __exit__(self, *a):
    self.release()
