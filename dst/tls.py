"""A stand-in for TLS: real record framing and message flow, no cryptography (whose bytes and lengths would not repeat).

As in the ssl module: accept() on a wrapped listening socket does the handshake of the new connection if do_handshake_on_connect is set, otherwise the first read or
write does; a read takes one record from the socket at a time, so that select() does not see what is left of it, but pending() tells."""
import random, ssl as _real
from . import kernel

FLIGHTS = [(b"C", 60), (b"S", 90), (b"c", 30), (b"s", 20)]      # client hello; server hello..done; key exchange, finished; finished
HANDSHAKE, DATA, MAXREC = 22, 23, 16384


def record(t, body): return bytes([t, 3, 3]) + len(body).to_bytes(2, "big") + bytes(body)

def flight(i): return record(HANDSHAKE, FLIGHTS[i][0] * FLIGHTS[i][1])


class SSLSocket:
  "server side"
  def __init__(self, sock, context, do_handshake_on_connect=True):
    self._s, self.context, self.do_handshake_on_connect = sock, context, do_handshake_on_connect
    self._raw, self._plain, self._step = bytearray(), bytearray(), 0

  def __getattr__(self, n): return getattr(self._s, n)
  def __enter__(self): return self
  def __exit__(self, *a): self.close()

  def accept(self):
    new, addr = self._s.accept()
    return self.context.wrap_socket(new, server_side=True, do_handshake_on_connect=self.do_handshake_on_connect), addr

  def _need(self, n):
    "n bytes of the record; False at the end of the stream"
    while len(self._raw) < n:
      data = self._s.recv(n - len(self._raw))
      if not data: return False
      self._raw += data
    return True

  def _record(self):
    if not self._need(5): return None
    if self._raw[0] not in (21, 22, 23) or self._raw[1] != 3:
      raise _real.SSLError(1, "[SSL: WRONG_VERSION_NUMBER] wrong version number")
    n = 5 + int.from_bytes(self._raw[3:5], "big")
    if not self._need(n): return None
    t, body = self._raw[0], bytes(self._raw[5:n])
    del self._raw[:n]
    return t, body

  def do_handshake(self, block=False):
    while self._step < 4:
      r = self._record()
      if r is None: raise _real.SSLEOFError(8, "[SSL: UNEXPECTED_EOF_WHILE_READING] EOF occurred in violation of protocol")
      if record(*r) != flight(self._step): raise _real.SSLError(1, "[SSL: UNEXPECTED_MESSAGE] unexpected message")
      self._s.sendall(flight(self._step + 1))
      self._step += 2
    kernel.cur.count("tls_handshake")

  def pending(self): return len(self._plain)

  def recv(self, n=1024, flags=0):
    if self._step < 4: self.do_handshake()
    while not self._plain and n:
      r = self._record()
      if r is None or r[0] == 21: return b""
      if r[0] != DATA: raise _real.SSLError(1, "[SSL: UNEXPECTED_MESSAGE] unexpected message")
      self._plain += r[1]
    out = bytes(self._plain[:n])
    del self._plain[:n]
    return out

  def read(self, n=1024, buffer=None): return self.recv(n)

  def recv_into(self, buf, nbytes=None, flags=0):
    d = self.recv(nbytes or len(buf))
    buf[:len(d)] = d
    return len(d)

  def sendall(self, data, flags=0):
    if self._step < 4: self.do_handshake()
    data = bytes(data)
    self._s.sendall(b"".join(record(DATA, data[i:i+MAXREC]) for i in range(0, len(data), MAXREC)))

  def send(self, data, flags=0):
    self.sendall(data)
    return len(data)

  def write(self, data): return self.send(data)


class SSLContext:
  def __init__(self, protocol=None, *a, **kw): self.protocol, self.verify_mode = protocol, _real.CERT_NONE
  def load_cert_chain(self, certfile, keyfile=None, password=None): pass
  def load_verify_locations(self, cafile=None, capath=None, cadata=None): pass
  def set_ciphers(self, c): pass
  def wrap_socket(self, sock, server_side=False, do_handshake_on_connect=True, suppress_ragged_eofs=True, server_hostname=None, session=None):
    s = SSLSocket(sock, self, do_handshake_on_connect)
    if do_handshake_on_connect and getattr(sock, "_ep", None) is not None:
      try: s.do_handshake()
      except (OSError, ValueError):
        s.close()
        raise
    return s


def install():
  _real.SSLContext, _real.SSLSocket = SSLContext, SSLSocket


class End:
  "the client's end of a connection: between its endpoint and its owner"
  def __init__(self, sim, owner, seed):
    self.sim, self.owner, self.r = sim, owner, random.Random(seed)
    self.cut = self.r.random() < .3
    self.lag = self.r.choice([.35, .6]) if self.r.random() < .15 else 0      # a slow client
    self.step, self.raw, self.queue, self.ep, self.ending = 0, bytearray(), bytearray(), None, False

  def __getattr__(self, n): return getattr(self.__dict__["ep"], n)

  def open(self, ep):
    self.ep = ep
    ep.write(flight(0))
    self.step = 1

  def write(self, data):
    if self.step < 5:
      self.queue += data
      return not self.ep.closed
    return self.ep.write(self.records(data))

  def close(self):
    if self.step < 5 and self.queue: self.ending = True     # once the handshake is done
    else: self.ep.close()

  def records(self, data):
    "in one record, or in several ones"
    out, i = b"", 0
    while i < len(data):
      n = self.r.choice([1, 2, 3, 5, 17, 64]) if self.cut else MAXREC
      out += record(DATA, data[i:i+n])
      i += n
    return out

  def junk(self, kind, n):
    "a handshake which is not done"
    f = flight(0)
    if kind == "tlsnone": return True
    if kind == "tlshalf": return self.ep.write(f[:1 + n % (len(f) - 1)])
    if kind == "tlsmid": return self.ep.write(f)
    if kind == "tlswrong": return self.ep.write(f + flight(2)[:-1] + b"?")
    if kind == "tlsplain": return self.ep.write(b"\x10\x10\x00\x04MQTT\x04\x02\x00\x00\x00\x04half")
    if kind == "tlsidle": return self.open(self.ep)

  def on_data(self, ep, data):
    self.raw += data
    plain = b""
    while len(self.raw) >= 5:
      n = 5 + int.from_bytes(self.raw[3:5], "big")
      if len(self.raw) < n: break
      rec = bytes(self.raw[:n])
      del self.raw[:n]
      if self.step < 5:
        if rec != flight(self.step):
          o = self.owner.world.oracle
          if o: o.bad_stream(self.owner, "TLS handshake: %r" % rec[:40])
          return
        self.step += 2
        if self.step == 3:
          if self.lag: self.sim.after(self.lag, lambda: self.ep.write(flight(2)), net=True)
          else: self.ep.write(flight(2))
        else:
          queued, self.queue = bytes(self.queue), bytearray()
          if queued: self.ep.write(self.records(queued))
          if self.ending: self.ep.close()
      elif rec[0] == DATA: plain += rec[5:]
    if plain: self.owner.on_data(self, plain)

  def on_eof(self, ep): self.owner.on_eof(self)
  def on_rst(self, ep): self.owner.on_rst(self)
