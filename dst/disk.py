"""The simulated disk below ZODB's FileStorage.

The data file's writes go through here: every write is a scheduling point (so
the process can die between any two), writes can fail (disk full, I/O error),
and after a power failure only what was synced and a prefix of the later
writes, the last one torn, is there."""
import builtins, errno, io, os, shutil
from . import kernel

_open = builtins.open


class Raw(io.FileIO):
  def __init__(self, disk, name, mode):
    io.FileIO.__init__(self, name, mode)
    self.disk = disk
    disk.attach(self)

  def write(self, b):
    b = bytes(b)
    d, s = self.disk, kernel.cur
    if s is not None and s.current is not None: s.point()
    if d.dead: return len(b)
    if d.crash_after is not None and d.writes >= d.crash_after and s is not None and s.current is not None:
      d.crashed = True
      while True: s.park(None, "the process is dead")
    d.writes += 1
    size = os.fstat(self.fileno()).st_size
    if d.fail_after is not None and d.writes > d.fail_after and (d.fail_kind == "eio" or self.tell() + len(b) > size):    # a full disk can be overwritten
      s.count("fault_" + d.fail_kind)
      n = 0 if d.fail_kind == "eio" else max(0, size - self.tell())
      if n:
        d.log.append((self.tell(), b[:n]))
        return io.FileIO.write(self, b[:n])
      raise OSError(errno.EIO if d.fail_kind == "eio" else errno.ENOSPC, "simulated disk error")
    if len(b) > 1 and s is not None and s.rng.random() < d.short:
      b = b[:s.rng.randrange(1, len(b))]
      s.count("fault_short_disk_write")
    d.log.append((self.tell(), b))
    return io.FileIO.write(self, b)

  def truncate(self, n=None):
    d = self.disk
    if d.dead: return n
    d.log.append(("trunc", self.tell() if n is None else n))
    return io.FileIO.truncate(self, n)


class Disk:
  def __init__(self, sim, path):
    self.sim, self.path = sim, path
    self.raw = None
    self.base = None
    self.log = []
    self.writes = 0
    self.fail_after, self.fail_kind = None, "enospc"
    self.short = 0.0
    self.dead = False
    self.crash_after, self.crashed = None, False

  def attach(self, raw):
    self.raw = raw
    self.sync()

  def sync(self):
    if self.dead: return
    with _open(self.path, "rb") as f: self.base = f.read()
    self.log = []

  def open(self, name, mode="r", *a, **k):
    if os.path.basename(name) == os.path.basename(self.path) and ("+" in mode or "w" in mode) and "b" in mode:
      if "w" in mode:
        _open(name, "wb").close()
        mode = "r+"
      return io.BufferedRandom(Raw(self, name, mode.replace("b", "")))
    return _open(name, mode, *a, **k)

  def fsync(self, fd):
    if self.raw is not None and not self.raw.closed and fd == self.raw.fileno():
      if self.sim.current is not None: self.sim.point()
      self.sim.count("fsync")
      self.sync()
    else: os.fsync(fd)

  def image(self, power):
    "the data file's content as the next process finds it"
    if self.base is None: return None
    if not power:
      with _open(self.path, "rb") as f: return f.read()
    r = self.sim.rng
    data = bytearray(self.base)
    n = r.randrange(len(self.log) + 1)
    self.sim.count("fault_lost_writes", len(self.log) - n)
    for i, (at, b) in enumerate(self.log[:n + 1]):
      if i == n:
        if at == "trunc" or r.random() < .5: break
        b = b[:r.randrange(len(b) + 1)]
        self.sim.count("fault_torn_write")
      if at == "trunc":
        del data[b:]
        continue
      if at > len(data): data += b"\0" * (at - len(data))
      data[at:at + len(b)] = b
    return bytes(data)


def mount(sim, name="sharedData"):
  "the current directory's data file belongs to the simulated disk from now on"
  import sys, ZODB.FileStorage
  FS = sys.modules["ZODB.FileStorage.FileStorage"]     # the package has a class of that name
  d = Disk(sim, os.path.join(os.getcwd(), name))
  FS.open = d.open
  FS.fsync = d.fsync
  return d


def next_boot(disk, power=False):
  "a new directory with what survives; becomes the current one"
  old = os.getcwd()
  img = disk.image(power) if disk else None
  if disk: disk.dead = True
  new = old.rstrip("x") + "x" if not old.endswith("x") else old + "x"
  shutil.copytree(old, new)
  os.chdir(new)
  if img is not None:
    with _open(os.path.basename(disk.path), "wb") as f: f.write(img)
  if power:       # the other files are only a cache and a lock
    for n in os.listdir("."):
      if n.endswith(".tmp") or n.endswith(".lock"): os.unlink(n)
