"""Simulated TCP and UDP, and the socket/select/selectors seams.

A connection is two Endpoints.  Bytes written at one end travel in segments
with seeded sizes and delays (order kept), and count against the pipe's
capacity until the other end has read them.  A simulated task uses an Endpoint
through SimSocket; a harness-side actor uses it through callbacks.
"""
import errno, io, socket as _socket
from . import kernel
from .kernel import TIMEOUT, HarnessError

RealSocketIO = _socket.SocketIO
AF_INET, SOCK_STREAM, SOCK_DGRAM = _socket.AF_INET, _socket.SOCK_STREAM, _socket.SOCK_DGRAM
_timeout = _socket.timeout


class NetCfg:
  "how one direction of a connection behaves"
  __slots__ = ("lat", "jitter", "seg", "gap", "cap", "short")
  def __init__(self, lat=0.0005, jitter=0.001, seg="whole", gap=0.002, cap=1 << 20, short=0.0):
    self.lat, self.jitter, self.seg, self.gap, self.cap, self.short = lat, jitter, seg, gap, cap, short

  @classmethod
  def of(cls, d):
    return cls(**d)


class Net:
  def __init__(self, sim):
    self.sim = sim
    self.listeners = {}      # port -> SimSocket (stream)
    self.udp = {}            # port -> SimSocket or callback
    self.fds = {}            # fd -> SimSocket
    self.nextport = 40000
    self.server_cfg = NetCfg()      # default for bytes a server-side task sends
    self.client_cfg = NetCfg()
    self.conns = []
    self.connserial = 0
    self.accept_cfg = None   # callable(conn) to set per-connection configs
    self.gate = None         # list: new connections of the harness are held, and noted here

  def fd(self, sock):
    n = 7
    while n in self.fds:
      n += 1
    self.fds[n] = sock
    return n

  def connect(self, port, owner=None, cfg_out=None, cfg_in=None):
    "harness-side connect; returns the client Endpoint or None if refused"
    l = self.listeners.get(port)
    if l is None or l._closed or not l._listening or l._group.dead or len(l._backlog) >= max(l._backlog_max, 1) + 200:
      return None
    self.connserial += 1
    a = Endpoint(self, "c%d" % self.connserial, cfg_out or self.client_cfg)
    b = Endpoint(self, "s%d" % self.connserial, cfg_in or self.server_cfg)
    a.peer, b.peer = b, a
    a.owner = owner
    self.nextport += 1
    b.peername = ("10.0.0.9", self.nextport)
    b.sockname = ("10.0.0.1", port)
    a.sockname, a.peername = b.peername, b.sockname
    self.conns.append((a, b))
    def arrive():
      if l._closed or l._group.dead:
        b.send_rst()
        return
      l._backlog.append(b)
      l._notify()
    self.sim.after(a.cfg.lat, arrive, net=True)
    if self.gate is not None and owner is not None:
      a.hold()
      self.gate.append(a)
    return a

  def crash_group(self, group):
    "the process's sockets vanish: peers get FIN or RST as from a dead process"
    for fd, s in list(self.fds.items()):
      if s._group is group:
        s._process_exit()
        self.fds.pop(fd, None)
    for p in [p for p, l in self.listeners.items() if l._group is group]:
      del self.listeners[p]
    for p in [p for p, l in self.udp.items() if isinstance(l, SimSocket) and l._group is group]:
      del self.udp[p]


class Endpoint:
  def __init__(self, net, name, cfg):
    self.net, self.sim, self.name, self.cfg = net, net.sim, name, cfg
    self.peer = None
    self.owner = None          # harness actor with on_data/on_eof/on_rst, else a task side
    self.rbuf = bytearray()
    self.eof = False           # peer's FIN arrived
    self.err = None            # reset
    self.err_reported = False
    self.shut_rd = self.shut_wr = self.closed = False
    self.undelivered = 0       # bytes sent by this end not yet delivered to the peer
    self.queue = []            # delayed segments while the link is held
    self.last_arrival = 0.0
    self.held = False          # link held (partition) for bytes sent BY this end
    self.paused = False        # harness actor does not read
    self.waiters = []
    self.sent_total = 0
    self.rcvd_total = 0
    self.dropped = False       # nothing sent by this end arrives any more (silent loss)
    self.sockname = self.peername = ("0.0.0.0", 0)

  # ---- state
  def notify(self):
    ws, self.waiters = self.waiters, []
    for w in ws:
      self.sim.wake(w)

  def readable(self):
    return bool(self.rbuf) or self.eof or self.shut_rd or self.err is not None

  def space(self):
    p = self.peer
    return self.cfg.cap - self.undelivered - len(p.rbuf)

  def writable(self):
    return self.shut_wr or self.err is not None or self.peer.closed or self.space() > 0

  # ---- sending
  def _segments(self, data):
    rng = self.sim.rng
    seg = self.cfg.seg
    if seg == "whole" or len(data) <= 1:
      return [data]
    if seg == "bytes":
      return [data[i:i+1] for i in range(len(data))] if len(data) <= 400 else [data]
    out, i = [], 0
    while i < len(data):
      n = rng.choice((1, 1, 2, 3, 5, 8, 20, 100, 1000)) if rng.random() < 0.8 else len(data)
      out.append(data[i:i+n])
      i += n
    return out

  def transmit(self, data):
    "put bytes on the wire (capacity already checked by the caller)"
    data = bytes(data)
    self.sent_total += len(data)
    self.undelivered += len(data)
    segs = self._segments(data)
    if len(segs) > 1:
      self.sim.count("segmented_send")
    for s in segs:
      self._send_item(("data", s))

  def _send_item(self, item):
    if self.held:
      self.queue.append(item)
      return
    c = self.cfg
    t = self.sim.now + c.lat + self.sim.rng.random() * c.jitter
    if t < self.last_arrival:
      t = self.last_arrival
    if item[0] == "data" and c.seg in ("split", "bytes"):
      t += self.sim.rng.random() * c.gap
    self.last_arrival = t
    self.sim.at(t, lambda: self.peer._arrive(item), net=True)

  def send_fin(self):
    if not self.shut_wr:
      self.shut_wr = True
      self._send_item(("fin", None))

  def send_rst(self):
    "abortive close: the peer sees a reset; bytes still in transit from here are lost"
    self.shut_wr = self.closed = True
    self._send_item(("rst", None))

  def hold(self):
    self.held = True
    self.sim.count("link_held")

  def unhold(self, at=None):
    "let go what was held; all of it arrives at time `at` if that is given"
    self.held = False
    q, self.queue = self.queue, []
    for item in q:
      if at is None:
        self._send_item(item)
      else:
        self.last_arrival = max(self.last_arrival, at)
        self.sim.at(self.last_arrival, lambda item=item: self.peer._arrive(item), net=True)

  # ---- receiving (events)
  def _arrive(self, item):
    kind, data = item
    src = self.peer
    if kind == "data":
      if self.closed or self.err is not None:
        src.undelivered -= len(data)
        if self.closed and src.err is None and not src.closed:
          # data for a closed socket: reset
          self._send_item(("rst", None))
        return
      if self.shut_rd:
        src.undelivered -= len(data)
        self.err = errno.ECONNRESET
        self.notify()
        if src.err is None and not src.closed:
          self._send_item(("rst", None))
        return
      if self.owner is not None:
        if self.paused:
          self.rbuf += data      # stays counted against the sender through len(rbuf)
          src.undelivered -= len(data)
        else:
          src.undelivered -= len(data)
          self.rcvd_total += len(data)
          src.notify()
          self.owner.on_data(self, data)
      else:
        src.undelivered -= len(data)
        self.rbuf += data
        self.notify()
    elif kind == "fin":
      self.eof = True
      if self.owner is not None:
        if not self.paused:
          self.owner.on_eof(self)
      else:
        self.notify()
    elif kind == "rst":
      if self.err is None:
        self.err = errno.ECONNRESET
        self.eof = True
        if self.owner is not None:
          self.owner.on_rst(self)
        else:
          self.notify()
      src.notify()

  # ---- harness-side actor interface
  def pause(self):
    self.paused = True

  def resume(self):
    if not self.paused:
      return
    self.paused = False
    if self.rbuf:
      data, self.rbuf = bytes(self.rbuf), bytearray()
      self.rcvd_total += len(data)
      self.peer.notify()
      self.owner.on_data(self, data)
    if self.eof and self.err is None:
      self.owner.on_eof(self)

  def write(self, data):
    if self.closed or self.shut_wr:
      return False
    self.transmit(data)
    return True

  def close(self):
    "harness actor closes: FIN, or RST if it leaves unread bytes"
    if self.closed:
      return
    if self.rbuf and self.owner is not None:
      self.send_rst()
    else:
      self.send_fin()
      self.closed = True

  def abort(self):
    if not self.closed or not self.shut_wr:
      self.send_rst()


class SimSocket:
  "stands in for socket.socket in the simulated processes"

  def __init__(self, family=AF_INET, type=SOCK_STREAM, proto=0, fileno=None, _ep=None):
    s = kernel.cur
    if s is None:
      raise HarnessError("socket created outside a simulation")
    self.net = s.net
    self._family, self._type = family, type
    self._ep = _ep
    self._timeout = None
    self._closed = False
    self._io_refs = 0
    self._listening = False
    self._backlog = []
    self._backlog_max = 0
    self._waiters = []
    self._group = s.current.group if s.current else s.default_group
    self._addr = ("0.0.0.0", 0)
    self._dgrams = []
    self._fd = self.net.fd(self)

  # --- generic
  @property
  def family(self): return self._family
  @property
  def type(self): return self._type
  @property
  def proto(self): return 0
  def fileno(self): return self._fd
  def __enter__(self): return self
  def __exit__(self, *a): self.close()
  def settimeout(self, t): self._timeout = t
  def gettimeout(self): return self._timeout
  def setblocking(self, f): self._timeout = None if f else 0.0
  def getblocking(self): return self._timeout != 0.0
  timeout = property(gettimeout)
  def setsockopt(self, *a): pass
  def getsockopt(self, *a): return 0
  def set_inheritable(self, f): pass
  def get_inheritable(self): return False
  def __repr__(self):
    return "<simsocket%s fd=%d>" % (" [closed]" if self._closed else "", self._fd)

  def getsockname(self):
    self._check()
    return self._ep.sockname if self._ep else self._addr

  def getpeername(self):
    self._check()
    if not self._ep:
      raise OSError(errno.ENOTCONN, "not connected")
    return self._ep.peername

  def _check(self):
    if self._fd < 0:
      raise OSError(errno.EBADF, "Bad file descriptor")

  def _notify(self):
    ws, self._waiters = self._waiters, []
    for w in ws:
      kernel.cur.wake(w)

  def _wait(self, timeout, why):
    me = kernel.cur.current
    lst = self._ep.waiters if self._ep else self._waiters
    lst.append(me)
    r = kernel.cur.park(timeout, why)
    if self._ep:
      if me in self._ep.waiters: self._ep.waiters.remove(me)
    elif me in self._waiters: self._waiters.remove(me)
    return r

  def _readable(self):
    if self._listening:
      return bool(self._backlog)
    if self._type == SOCK_DGRAM:
      return bool(self._dgrams)
    return self._ep is not None and self._ep.readable()

  # --- server
  def bind(self, addr):
    self._check()
    host, port = addr[0], addr[1]
    table = self.net.udp if self._type == SOCK_DGRAM else self.net.listeners
    if port == 0:
      self.net.nextport += 1
      port = self.net.nextport
    if port in table:
      raise OSError(errno.EADDRINUSE, "Address already in use")
    self._addr = (host or "0.0.0.0", port)
    table[port] = self

  def listen(self, backlog=128):
    self._check()
    self._listening = True
    self._backlog_max = backlog

  def accept(self):
    s = kernel.cur
    s.point()
    self._check()
    while not self._backlog:
      if self._timeout == 0.0:
        raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
      if self._wait(self._timeout, "accept") is TIMEOUT:
        raise _timeout("timed out")
    ep = self._backlog.pop(0)
    if s.net.accept_cfg:
      s.net.accept_cfg(ep)
    return SimSocket(_ep=ep), ep.peername

  # --- client
  def connect(self, addr):
    s = kernel.cur
    s.point()
    self._check()
    ep = self.net.connect(addr[1])
    if ep is None:
      raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
    ep.cfg = s.net.task_client_cfg if hasattr(s.net, "task_client_cfg") else ep.cfg
    self._ep = ep
    if s.current:
      end = s.now + ep.cfg.lat * 2
      while s.now < end:
        s.park(end - s.now, "connect")

  def connect_ex(self, addr):
    try:
      self.connect(addr)
      return 0
    except OSError as e:
      return e.errno

  # --- stream I/O
  def recv(self, n, flags=0):
    s = kernel.cur
    s.point()
    self._check()
    ep = self._ep
    if ep is None:
      raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
    if n == 0:
      return b""
    end = None if self._timeout is None else s.now + self._timeout
    while not ep.rbuf:
      if ep.err is not None and not ep.err_reported:
        ep.err_reported = True
        raise ConnectionResetError(ep.err, "Connection reset by peer")
      if ep.eof or ep.shut_rd or ep.err is not None:
        return b""
      if self._timeout == 0.0:
        raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
      left = None if end is None else end - s.now
      if left is not None and left <= 0:
        s.count("recv_timeout")
        raise _timeout("timed out")
      self._wait(left, "recv")
      self._check()
    k = min(n, len(ep.rbuf))
    if k > 1 and ep.peer.cfg.short and s.rng.random() < ep.peer.cfg.short:
      k = s.rng.randrange(1, k)
      s.count("short_read")
    if flags & _socket.MSG_PEEK:
      return bytes(ep.rbuf[:k])
    out = bytes(ep.rbuf[:k])
    del ep.rbuf[:k]
    ep.rcvd_total += k
    ep.peer.notify()
    return out

  def recv_into(self, buf, nbytes=0, flags=0):
    m = memoryview(buf).cast("B")
    data = self.recv(nbytes or len(m), flags)
    m[:len(data)] = data
    return len(data)

  def _send_err(self):
    ep = self._ep
    if ep is None:
      raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
    if ep.err is not None:
      if not ep.err_reported:
        ep.err_reported = True
        raise ConnectionResetError(ep.err, "Connection reset by peer")
      raise BrokenPipeError(errno.EPIPE, "Broken pipe")
    if ep.shut_wr:
      raise BrokenPipeError(errno.EPIPE, "Broken pipe")

  def send(self, data, flags=0):
    s = kernel.cur
    s.point()
    self._check()
    self._send_err()
    ep = self._ep
    data = bytes(data)
    if not data:
      return 0
    fault = getattr(s.net, "send_fault", None)
    if fault is not None:
      fault(self, ep)
    end = None if self._timeout is None else s.now + self._timeout
    total = 0
    while True:
      room = ep.space()
      if room > 0:
        k = min(room, len(data) - total)
        if ep.cfg.short and k > 1 and s.rng.random() < ep.cfg.short:
          k = s.rng.randrange(1, k)
          s.count("short_write")
          ep.transmit(data[total:total+k])
          return total + k
        ep.transmit(data[total:total+k])
        total += k
        if total == len(data):
          return total
        if self._timeout is not None:
          s.count("short_write")
          return total
        continue
      if self._timeout == 0.0:
        raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
      left = None if end is None else end - s.now
      if left is not None and left <= 0:
        s.count("send_timeout")
        raise _timeout("timed out")
      s.count("send_blocked")
      self._wait(left, "send")
      self._check()
      try:
        self._send_err()
      except OSError:
        if total:
          return total
        raise

  def sendall(self, data, flags=0):
    s = kernel.cur
    view, i = bytes(data), 0
    t = self._timeout
    end = None if not t else s.now + t
    try:
      while i < len(view):
        if end is not None:       # the timeout is for all of it
          left = end - s.now
          if left <= 0: raise _timeout("timed out")
          self._timeout = left
        i += self.send(view[i:i + 65536])
    finally:
      self._timeout = t
    return None

  def shutdown(self, how):
    s = kernel.cur
    self._check()
    ep = self._ep
    if self._listening:
      return
    if ep is None:
      raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
    if ep.err is not None or (ep.eof and ep.shut_wr):
      raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
    if how in (_socket.SHUT_RD, _socket.SHUT_RDWR):
      ep.shut_rd = True
    if how in (_socket.SHUT_WR, _socket.SHUT_RDWR):
      ep.send_fin()
    ep.notify()
    s.point()

  def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
    raw = SimSocketIO(self, mode.replace("b", "").replace("t", "") or "r")
    self._io_refs += 1
    if buffering == 0:
      return raw
    if buffering is None or buffering < 0:
      buffering = io.DEFAULT_BUFFER_SIZE
    if "w" in mode and "r" in mode:
      return io.BufferedRWPair(raw, raw, buffering)
    return io.BufferedWriter(raw, buffering) if "w" in mode else io.BufferedReader(raw, buffering)

  def _decref_socketios(self):
    if self._io_refs > 0:
      self._io_refs -= 1
    if self._closed:
      self.close()

  def close(self):
    self._closed = True
    if self._io_refs <= 0:
      self._real_close()

  def detach(self):
    raise HarnessError("socket.detach not simulated")

  def _real_close(self):
    if self._fd < 0:
      return
    fd, self._fd = self._fd, -1
    self.net.fds.pop(fd, None)
    self._closed = True
    self._teardown()

  def _teardown(self):
    if self._ep is not None:
      ep = self._ep
      if not ep.closed:
        if ep.rbuf and ep.err is None:
          ep.send_rst()
        else:
          ep.send_fin()
          ep.closed = True
        ep.notify()
        ep.peer.notify()
    elif self._type == SOCK_DGRAM:
      if self.net.udp.get(self._addr[1]) is self:
        del self.net.udp[self._addr[1]]
    else:
      if self.net.listeners.get(self._addr[1]) is self:
        del self.net.listeners[self._addr[1]]
      for ep in self._backlog:
        ep.send_rst()
      self._backlog = []

  def _process_exit(self):
    self._fd = -1
    self._closed = True
    self._teardown()

  # --- datagrams
  def sendto(self, data, *args):
    addr = args[-1]
    s = kernel.cur
    s.point()
    self._check()
    dst = self.net.udp.get(addr[1])
    src = self._addr
    data = bytes(data)
    if callable(dst) and not isinstance(dst, SimSocket):
      s.after(0.001, lambda: dst(data, src), net=True)
    elif dst is not None:
      s.after(0.001, lambda: dst._dgram(data, src), net=True)
    return len(data)

  def _dgram(self, data, src):
    if not self._closed and len(self._dgrams) < 1000:
      self._dgrams.append((data, src))
      self._notify()

  def recvfrom(self, n, flags=0):
    s = kernel.cur
    s.point()
    self._check()
    end = None if self._timeout is None else s.now + self._timeout
    while not self._dgrams:
      if self._timeout == 0.0:
        raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
      left = None if end is None else end - s.now
      if left is not None and left <= 0:
        raise _timeout("timed out")
      self._wait(left, "recvfrom")
      self._check()
    if getattr(self.net, "udp_errors", 0) > 0:        # an error reported before the datagram
      self.net.udp_errors -= 1
      s.count("fault_udp_error")
      raise OSError(errno.ECONNREFUSED, "Connection refused")
    data, src = self._dgrams.pop(0)
    return data[:n], src


class SimSocketIO(io.RawIOBase):
  def __init__(self, sock, mode):
    io.RawIOBase.__init__(self)
    self._sock, self._mode = sock, mode
    self._tmo = False
  def readable(self): return "r" in self._mode
  def writable(self): return "w" in self._mode
  def fileno(self): return self._sock.fileno()
  @property
  def name(self): return self._sock.fileno()
  def readinto(self, b):
    if self._tmo:
      raise OSError("cannot read from timed out object")
    try:
      return self._sock.recv_into(b)
    except _timeout:
      self._tmo = True
      raise
    except BlockingIOError:
      return None
  def write(self, b):
    return self._sock.send(b)
  def close(self):
    if self.closed:
      return
    io.RawIOBase.close(self)
    self._sock._decref_socketios()
    self._sock = None


def create_connection(address, timeout=None, source_address=None, **kw):
  s = SimSocket()
  if timeout is not None and not isinstance(timeout, type(_socket._GLOBAL_DEFAULT_TIMEOUT)):
    s.settimeout(timeout)
  try:
    s.connect(address)
  except OSError:
    s.close()
    raise
  return s


# ------------------------------------------------------------------ select / selectors
def _resolve(obj):
  fd = obj if isinstance(obj, int) else obj.fileno()
  if fd < 0:
    raise ValueError("file descriptor cannot be a negative integer (%d)" % fd)
  sock = kernel.cur.net.fds.get(fd)
  if sock is None:
    raise OSError(errno.EBADF, "Bad file descriptor")
  return sock


def sim_select(rlist, wlist, xlist, timeout=None):
  s = kernel.cur
  s.point()
  rs = [(o, _resolve(o)) for o in rlist]
  ws = [(o, _resolve(o)) for o in wlist]
  for o in xlist:
    _resolve(o)
  end = None if timeout is None else s.now + timeout
  while True:
    r = [o for o, k in rs if k._readable()]
    w = [o for o, k in ws if k._ep is not None and k._ep.writable()]
    if r or w:
      return r, w, []
    left = None if end is None else end - s.now
    if left is not None and left <= 0:
      return [], [], []
    me = s.current
    lists = []
    for o, k in rs + ws:
      l = k._ep if k._ep is not None else k
      (l.waiters if k._ep is not None else l._waiters).append(me)
      lists.append((l, k._ep is not None))
    s.park(left, "select")
    for l, isep in lists:
      lst = l.waiters if isep else l._waiters
      while me in lst:
        lst.remove(me)


class SimSelector:
  def __init__(self):
    self._map = {}
  def register(self, fileobj, events, data=None):
    import selectors
    key = selectors.SelectorKey(fileobj, fileobj if isinstance(fileobj, int) else fileobj.fileno(), events, data)
    self._map[key.fd] = key
    return key
  def unregister(self, fileobj):
    for fd, k in list(self._map.items()):
      if k.fileobj is fileobj or fd == fileobj:
        return self._map.pop(fd)
    raise KeyError(fileobj)
  def modify(self, fileobj, events, data=None):
    self.unregister(fileobj)
    return self.register(fileobj, events, data)
  def get_map(self):
    return self._map
  def get_key(self, fileobj):
    for k in self._map.values():
      if k.fileobj is fileobj:
        return k
    raise KeyError(fileobj)
  def select(self, timeout=None):
    keys = list(self._map.values())
    r, w, _ = sim_select([k.fileobj for k in keys if k.events & 1], [k.fileobj for k in keys if k.events & 2], [], timeout)
    return [(k, (1 if any(k.fileobj is o for o in r) else 0) | (2 if any(k.fileobj is o for o in w) else 0))
            for k in keys if any(k.fileobj is o for o in r) or any(k.fileobj is o for o in w)]
  def close(self):
    self._map.clear()
  def __enter__(self): return self
  def __exit__(self, *a): self.close()
