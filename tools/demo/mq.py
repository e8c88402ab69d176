"""A broker process on a free port and a small client, for demonstrations."""
import os, sys, socket, subprocess, tempfile, time, shutil, atexit, signal
import codec

def free_port():
  s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close()
  return p

class Broker:
  def __init__(self, conf="", cwd=None):
    self.repo = os.getcwd()
    self.dir = cwd or tempfile.mkdtemp(prefix="demo")
    self.own = cwd is None
    self.port = free_port()
    self.conf = conf
    self.start()
    atexit.register(self.end)

  def start(self):
    with open(os.path.join(self.dir, "b.conf"), "w") as f: f.write(self.conf + "\nlistener %d 127.0.0.1\n" % self.port)
    self.log = open(os.path.join(self.dir, "log"), "ab")
    self.p = subprocess.Popen([sys.executable, os.path.join(self.repo, "interoperability", "startbroker.py"), "-c", "b.conf"], cwd=self.dir,
                              stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL)
    t = time.time() + 20
    while time.time() < t:
      try:
        socket.create_connection(("127.0.0.1", self.port), 1).close()
        return
      except OSError: time.sleep(.1)
    raise SystemExit("the broker does not start (not what this demonstrates)") if 0 else RuntimeError("broker does not start")

  def stop(self, sig=signal.SIGKILL, wait=20):
    self.p.send_signal(sig)
    return self.p.wait(wait)

  def end(self):
    try: self.p.kill(); self.p.wait(10)
    except Exception: pass
    if self.own: shutil.rmtree(self.dir, ignore_errors=True)

class Client:
  def __init__(self, b, cid, ver=5, clean=True, connect=True, ka=0, auto=True, rcvbuf=None, **kw):
    self.ver, self.cid, self.auto = ver, cid, auto
    self.s = socket.socket()
    if rcvbuf: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
    self.s.connect(("127.0.0.1", b.port if hasattr(b, "port") else b))
    self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    self.buf = b""
    self.pid = 0
    self.msgs = []
    self.others = []
    self.eof = False
    if connect:
      self.send(dict({"t": "CONNECT", "cid": cid, "clean": clean, "ka": ka}, **kw))
      self.ack = self.expect("CONNACK")

  def send(self, p): self.s.sendall(codec.encode(p, self.ver))
  def raw(self, d): self.s.sendall(d)

  def next(self, timeout=2.0):
    "the next packet, or None"
    end = time.time() + timeout
    while True:
      if len(self.buf) >= 2:
        n, sh, i = 0, 0, 1
        while i < len(self.buf):
          n |= (self.buf[i] & 127) << sh; sh += 7; i += 1
          if not self.buf[i - 1] & 128:
            if len(self.buf) >= i + n:
              hdr, body = self.buf[0], self.buf[i:i + n]
              self.buf = self.buf[i + n:]
              return codec.decode(hdr, body, self.ver)
            break
      left = end - time.time()
      if left <= 0 or self.eof: return None
      self.s.settimeout(left)
      try: d = self.s.recv(65536)
      except socket.timeout: return None
      except OSError: d = b""
      if not d: self.eof = True
      self.buf += d

  def handle(self, p):
    "keep it, and acknowledge it"
    if p["t"] == "PUBLISH": self.msgs.append(p)
    else: self.others.append(p)
    if not self.auto: return
    if p["t"] == "PUBLISH" and p["qos"] == 1: self.send({"t": "PUBACK", "pid": p["pid"]})
    if p["t"] == "PUBLISH" and p["qos"] == 2: self.send({"t": "PUBREC", "pid": p["pid"]})
    if p["t"] == "PUBREC": self.send({"t": "PUBREL", "pid": p["pid"]})
    if p["t"] == "PUBREL": self.send({"t": "PUBCOMP", "pid": p["pid"]})

  def expect(self, t, timeout=8.0):
    end = time.time() + timeout
    while time.time() < end:
      p = self.next(end - time.time())
      if p is None: break
      self.handle(p)
      if p["t"] == t: return p
    return None

  def drain(self, t=1.0):
    "everything which comes within t seconds of silence"
    while True:
      p = self.next(t)
      if p is None: return self.msgs
      self.handle(p)

  def newpid(self):
    self.pid += 1
    return self.pid

  def sub(self, *filters, **p):
    fs = [(f, o if isinstance(o, dict) else {"qos": o}) for f, o in filters]
    self.send({"t": "SUBSCRIBE", "pid": self.newpid(), "filters": fs, "p": p} if self.ver == 5 else
              {"t": "SUBSCRIBE", "pid": self.newpid(), "filters": fs})
    return self.expect("SUBACK")

  def unsub(self, *filters):
    self.send({"t": "UNSUBSCRIBE", "pid": self.newpid(), "filters": list(filters)})
    return self.expect("UNSUBACK")

  def pub(self, topic, payload, qos=0, retain=False, wait=True, **p):
    if isinstance(payload, str): payload = payload.encode()
    d = {"t": "PUBLISH", "topic": topic, "payload": payload, "qos": qos, "retain": retain}
    if self.ver == 5: d["p"] = p
    if qos: d["pid"] = self.newpid()
    self.send(d)
    if wait and qos: return self.expect("PUBACK" if qos == 1 else "PUBCOMP")

  def disc(self, **k):
    self.send(dict({"t": "DISCONNECT"}, **k))
    self.close()

  def close(self): self.s.close()

  def payloads(self): return [bytes(m["payload"]) for m in self.msgs]

def check(ok, what):
  if not ok:
    print("DEMO: " + what)
    sys.stdout.flush()
    os._exit_code = 1
    sys.exit(1)
