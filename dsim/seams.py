"""Seams: every source of nondeterminism of jax_sgmc goes through here.

All hooks sit at the libraries jax_sgmc uses (threading, host_callback,
io_callback, files, h5py, time, uuid), never in jax_sgmc itself, so that
reorganising the package does not move them.  Outside a simulation every hook is
a pass-through.  `install()` must run before jax_sgmc is imported.
"""
import builtins
import errno
import io
import os
import random
import sys
import threading
import time
import uuid

from dsim import kernel
from dsim.kernel import SimAbort

PREFIX = os.environ.get("DSIM_SUT", "/repo") + "/jax_sgmc"
kernel.LINE_PREFIX = PREFIX

_real_lock = threading.Lock
_real_rlock = threading.RLock
_real_open = io.open
_real_start = threading.Thread.start
_real_join = threading.Thread.join

SCRATCH = None            # only files below this directory are simulated


_STDLIB = os.path.dirname(os.__file__) + "/"


def _from_sut(depth, levels=8):
  """Is the caller jax_sgmc, directly or through the standard library?"""
  try:
    f = sys._getframe(depth)
  except ValueError:
    return False
  for _ in range(levels):
    if f is None:
      return False
    name = f.f_code.co_filename
    if name.startswith(PREFIX):
      return True
    if not name.startswith(_STDLIB) or "site-packages" in name:
      return False
    f = f.f_back
  return False


def sim():
  s = kernel.CURRENT
  if s is None or not s.on_task():
    return None
  return s


# -- threading ---------------------------------------------------------------

class SimLock:
  """threading.Lock with its waits decided by the simulator."""
  _reentrant = False

  def __init__(self):
    self._held = False
    self._owner = None
    self._count = 0
    self._real = threading.Condition(_real_lock())

  def _me(self):
    s = sim()
    return ("task", s.cur.id) if s else ("thread", threading.get_ident())

  def acquire(self, blocking=True, timeout=-1):
    s = sim()
    me = self._me()
    if self._reentrant and self._held and self._owner == me:
      self._count += 1
      return True
    if s is None:
      with self._real:
        if not blocking:
          if self._held:
            return False
        else:
          self._real.wait_for(lambda: not self._held,
                              None if timeout is None or timeout < 0 else timeout)
          if self._held:
            return False
        self._held, self._owner, self._count = True, me, 1
        return True
    s.point("lock")
    if self._held:
      if not blocking:
        return False
      s.probe("lock_waits")
      if not s.block(lambda: not self._held, "a lock",
                     None if timeout is None or timeout < 0 else timeout):
        return False
    self._held, self._owner, self._count = True, me, 1
    return True

  def release(self):
    if not self._held:
      raise RuntimeError("release unlocked lock")
    if self._reentrant:
      if self._owner != self._me():
        raise RuntimeError("cannot release un-acquired lock")
      self._count -= 1
      if self._count:
        return
    s = sim()
    with self._real:
      self._held, self._owner, self._count = False, None, 0
      self._real.notify_all()
    if s is not None and s.aborting is None:
      s.point("unlock")

  def locked(self):
    return self._held

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *unused):
    try:
      self.release()
    except RuntimeError:
      s = kernel.CURRENT
      if s is None or s.aborting is None:
        raise

  # used by threading.Condition
  def _is_owned(self):
    return self._held and self._owner == self._me()


class SimRLock(SimLock):
  _reentrant = True

  def _release_save(self):
    state = self._count
    self._count = 1
    self.release()
    return state

  def _acquire_restore(self, state):
    self.acquire()
    self._count = state


class SimCondition:
  """threading.Condition on top of SimLock."""

  def __init__(self, lock=None):
    self._lock = lock if lock is not None else SimRLock()
    self._tickets = []
    self._real = threading.Condition(_real_lock())
    self.acquire, self.release = self._lock.acquire, self._lock.release

  def __enter__(self):
    return self._lock.__enter__()

  def __exit__(self, *a):
    return self._lock.__exit__(*a)

  def wait(self, timeout=None):
    ticket = [False]
    self._tickets.append(ticket)
    s = sim()
    saved = self._lock._release_save() if hasattr(self._lock, "_release_save") \
        else self._lock.release()
    try:
      if s is None:
        with self._real:
          ok = self._real.wait_for(lambda: ticket[0], timeout)
      else:
        ok = s.block(lambda: ticket[0], "a condition", timeout)
    finally:
      if s is None or s.aborting is None:
        if hasattr(self._lock, "_acquire_restore"):
          self._lock._acquire_restore(saved)
        else:
          self._lock.acquire()
    if not ok and ticket in self._tickets:
      self._tickets.remove(ticket)
    return ok

  def wait_for(self, predicate, timeout=None):
    result = predicate()
    while not result:
      if not self.wait(timeout):
        return predicate()
      result = predicate()
    return result

  def notify(self, n=1):
    hit, self._tickets = self._tickets[:n], self._tickets[n:]
    for t in hit:
      t[0] = True
    with self._real:
      self._real.notify_all()

  def notify_all(self):
    self.notify(len(self._tickets))

  notifyAll = notify_all


class SimEvent:
  def __init__(self):
    self._flag = False
    self._real = threading.Condition(_real_lock())

  def is_set(self):
    return self._flag

  isSet = is_set

  def set(self):
    with self._real:
      self._flag = True
      self._real.notify_all()
    s = sim()
    if s is not None and s.aborting is None:
      s.point("event-set")

  def clear(self):
    self._flag = False

  def wait(self, timeout=None):
    s = sim()
    if s is None:
      with self._real:
        return self._real.wait_for(lambda: self._flag, timeout)
    s.point("event-wait")
    return s.block(lambda: self._flag, "an event", timeout)


class SimSemaphore:
  def __init__(self, value=1):
    self._value = value
    self._real = threading.Condition(_real_lock())

  def acquire(self, blocking=True, timeout=None):
    s = sim()
    if s is None:
      with self._real:
        if not blocking and self._value <= 0:
          return False
        if not self._real.wait_for(lambda: self._value > 0, timeout):
          return False
        self._value -= 1
        return True
    s.point("semaphore")
    if self._value <= 0:
      if not blocking or not s.block(lambda: self._value > 0, "a semaphore", timeout):
        return False
    self._value -= 1
    return True

  __enter__ = acquire

  def release(self, n=1):
    with self._real:
      self._value += n
      self._real.notify_all()
    s = sim()
    if s is not None and s.aborting is None:
      s.point("semaphore-release")

  def __exit__(self, *a):
    self.release()


def _factory(real, fake):
  def make(*args, **kwargs):
    if _from_sut(2):
      return fake(*args, **kwargs)
    return real(*args, **kwargs)
  make._dsim = True
  return make


def _thread_start(self):
  s = sim()
  if s is None or not _from_sut(2):
    return _real_start(self)
  self._dsim_task = s.spawn("bg-%s" % len(s.tasks), self.run, daemon=bool(self.daemon))
  s.point("thread-start")


def _thread_join(self, timeout=None):
  t = getattr(self, "_dsim_task", None)
  s = sim()
  if t is None or s is None:
    return _real_join(self, timeout)
  s.block(lambda: t.state == kernel.DONE, "thread %s" % t.name, timeout)


def _install_threading():
  threading.Lock = _factory(_real_lock, SimLock)
  threading.RLock = _factory(_real_rlock, SimRLock)
  threading.Condition = _subclassable(threading.Condition, SimCondition)
  threading.Event = _subclassable(threading.Event, SimEvent)
  threading.Semaphore = _subclassable(threading.Semaphore, SimSemaphore)
  threading.BoundedSemaphore = _subclassable(threading.BoundedSemaphore, SimSemaphore)
  threading.Thread.start = _thread_start
  threading.Thread.join = _thread_join


def _subclassable(real, fake):
  class Meta(type):
    def __call__(cls, *args, **kwargs):
      if cls is Switch:
        return (fake if _from_sut(2) else real)(*args, **kwargs)
      return type.__call__(cls, *args, **kwargs)

    def __instancecheck__(cls, obj):
      return isinstance(obj, (real, fake))
  Switch = Meta(real.__name__, (real,), {})
  return Switch


# -- time and identifiers ------------------------------------------------------

def _install_time():
  real_sleep, real_time = time.sleep, time.time
  real_mono, real_perf = time.monotonic, time.perf_counter
  def sleep(dt):
    s = sim()
    if s is not None and _from_sut(2, 3):
      return s.sleep(dt)
    return real_sleep(dt)
  def clock(real):
    def now():
      s = sim()
      if s is not None and _from_sut(2, 2):
        return 1.7e9 + s.now
      return real()
    return now
  time.sleep, time.time = sleep, clock(real_time)
  time.monotonic, time.perf_counter = clock(real_mono), clock(real_perf)


_uuid_rng = random.Random(0)

_uuid_run = [0]

def reseed_uuids(seed):
  # identifiers only matter by equality: they stay unique in the process, so
  # that runs which share compiled programs never meet each other's tokens
  _uuid_run[0] += 1
  _uuid_rng.seed("uuid:%s:%d" % (seed, _uuid_run[0]))


def _install_uuid():
  def uuid4():
    return uuid.UUID(int=_uuid_rng.getrandbits(128), version=4)
  uuid.uuid4 = uuid4


# -- files -----------------------------------------------------------------------

_sim_fds = set()

def _simulated_path(path):
  if SCRATCH is None:
    return False
  if isinstance(path, int):
    return path in _sim_fds
  try:
    return os.path.abspath(os.fspath(path)).startswith(SCRATCH)
  except (TypeError, ValueError):
    return False


def _oserror(kind, path=""):
  if kind == "ENOMEM":
    return MemoryError("Cannot allocate memory (%s)" % path)
  if kind == "DATA":
    return ValueError("Damaged record (%s)" % path)
  code = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES,
          "EMFILE": errno.EMFILE, "EINTR": errno.EIO}.get(kind, errno.EIO)
  return OSError(code, os.strerror(code), str(path))


class SimRaw(io.FileIO):
  """A raw file whose writes are scheduling and fault points."""

  owner = None

  def write(self, b):
    s = self.owner
    if s is not None and s.crashed:
      return len(b)              # the process is gone, its buffers with it
    if s is None or kernel.CURRENT is not s or not s.on_task():
      return super().write(b)
    s.point("fs.write", len(b))
    f = s.fault("fs.write")
    if f is not None:
      kind = f["kind"]
      n = int(len(b) * f.get("frac", 0.5))
      if kind == "crash":
        if n:
          super().write(memoryview(b)[:n])
        s.crash()
      if kind == "short":          # a legal short write, the caller must go on
        return super().write(memoryview(b)[:max(1, n)])
      if kind == "torn":           # part of the data is written, then an error
        if n:
          super().write(memoryview(b)[:n])
        raise _oserror("ENOSPC", self.name)
      if kind == "slow":
        for _ in range(3):
          s.point("fs.slow")
      else:
        raise _oserror(kind, self.name)
    if s.aborting is not None:
      raise SimAbort()
    return super().write(b)

  def truncate(self, *a):
    if self.owner is not None and self.owner.crashed:
      return 0
    return super().truncate(*a)


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
  s = sim()
  writing = any(c in mode for c in "wax+")
  if s is None or not writing or not _simulated_path(file):
    return _real_open(file, mode, buffering, encoding, errors, newline, closefd,
                      opener)
  if s.crashed:
    raise SimAbort()
  _fs_point(s, "fs.open", file)
  raw = SimRaw(file, mode.replace("b", "").replace("t", ""), closefd, opener)
  raw.owner = s
  _after(s, "fs.open")
  binary = "b" in mode
  if buffering == 0:
    return raw
  size = int(s.sched.get("bufsize", io.DEFAULT_BUFFER_SIZE))
  if "+" in mode:
    buf = io.BufferedRandom(raw, size)
  else:
    buf = io.BufferedWriter(raw, size)
  if binary:
    return buf
  text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline,
                          line_buffering=(buffering == 1))
  text.mode = mode
  return text


def _fs_point(s, site, *detail):
  """Scheduling point and the faults that strike before the operation."""
  s.point(site)
  f = s.fault(site)
  if f is None:
    return
  if f["kind"] == "crash":
    s.crash()
  if f["kind"] == "crash_after":
    s.crash_after = True
    return
  if f["kind"] == "slow":
    for _ in range(3):
      s.point("fs.slow")
    return
  raise _oserror(f["kind"], detail[0] if detail else "")


def _after(s, site):
  if s.crash_after:
    s.crash_after = False
    s.crash()


def _wrap_os(name, site):
  real = getattr(os, name)
  def call(*args, **kwargs):
    s = sim()
    if s is None or not args or not _simulated_path(args[0]):
      return real(*args, **kwargs)
    if s.crashed:
      raise SimAbort()
    _fs_point(s, site, args[0])
    out = real(*args, **kwargs)
    if name == "open":
      _sim_fds.add(out)
    _after(s, site)
    return out
  call.__name__ = name
  setattr(os, name, call)


def _install_files():
  io.open = _sim_open
  builtins.open = _sim_open
  for name, site in (("replace", "fs.rename"), ("rename", "fs.rename"),
                     ("mkdir", "fs.mkdir"), ("unlink", "fs.unlink"),
                     ("remove", "fs.unlink"), ("open", "fs.oscall")):
    _wrap_os(name, site)
  real_close = os.close
  def close(fd):
    _sim_fds.discard(fd)
    return real_close(fd)
  os.close = close
  real_fsync = os.fsync
  def fsync(fd):
    s = sim()
    if s is None or not _from_sut(2):
      return real_fsync(fd)
    _fs_point(s, "fs.fsync")
    return None if s.crashed else real_fsync(fd)
  os.fsync = fsync


# -- h5py ------------------------------------------------------------------------

def _install_h5py():
  import h5py
  real = h5py.Dataset.__setitem__
  def setitem(self, key, value):
    s = sim()
    if s is None or getattr(s, "h5_depth", 0):
      return real(self, key, value)
    s.point("h5.write")
    f = s.fault("h5.write")
    if f is not None:
      if f["kind"] == "crash":
        s.crash()
      elif f["kind"] == "slow":
        for _ in range(3):
          s.point("h5.slow")
      else:
        raise _oserror(f["kind"], "hdf5")
    return real(self, key, value)
  h5py.Dataset.__setitem__ = setitem
  global h5_real_get
  real_get = h5_real_get = h5py.Dataset.__getitem__
  def getitem(self, *args, **kwargs):
    s = sim()
    if s is not None:
      s.point("h5.read")
      f = s.fault("h5.read")
      if f is not None:
        raise _oserror(f["kind"], "hdf5")
    return real_get(self, *args, **kwargs)
  h5py.Dataset.__getitem__ = getitem
  for cls, name, site in ((h5py.Dataset, "write_direct", "h5.write"),
                          (h5py.Dataset, "read_direct", "h5.read"),
                          (h5py.Dataset, "flush", "h5.flush"), (h5py.File, "flush", "h5.flush")):
    _wrap_h5(cls, name, site)


def _wrap_h5(cls, name, site):
  real = getattr(cls, name)
  def call(self, *args, **kwargs):
    s = sim()
    if s is None or not _from_sut(2):
      return real(self, *args, **kwargs)
    _fs_point(s, site, "hdf5")
    out = real(self, *args, **kwargs)
    _after(s, site)
    return out
  call.__name__ = name
  setattr(cls, name, call)


# -- jax host callbacks ------------------------------------------------------------

def _copy(tree):
  import jax
  import numpy as np
  return jax.tree_util.tree_map(
    lambda x: np.array(x) if hasattr(x, "shape") else x, tree)


def _local(tree):
  import jax
  import numpy as np
  return jax.block_until_ready(jax.tree_util.tree_map(
    lambda x: jax.numpy.array(np.asarray(x)) if isinstance(x, jax.Array) else x, tree))


def _install_jax():
  import jax
  import numpy as np
  from jax.experimental import host_callback as hcb
  import jax.experimental as jxp
  import jax._src.callback as jcb

  real_tap = hcb.id_tap
  def id_tap(tap_func, arg, *, result=None, **kw):
    def tapped(value, transforms, **tkw):
      s = kernel.CURRENT
      if s is None:
        return tap_func(value, transforms, **tkw)
      if not s.on_task():            # a replica thread of pmap
        if not s.replicas:
          s.stray = True
          return None
        return s.foreign_tap(_copy(value),
                             lambda v: tap_func(v, transforms, **tkw))
      if s.tap_mode == "sync":
        s.point("tap")
        return tap_func(value, transforms, **tkw)
      value = _copy(value)
      s.deliver(s.cur.channel, lambda: tap_func(value, transforms, **tkw))
    if sim() is not None and jax.core.trace_state_clean():
      arg = _local(arg)              # see lib.local
    if result is not None:
      return real_tap(tapped, arg, result=result, **kw)
    return real_tap(tapped, arg, **kw)
  hcb.id_tap = id_tap

  real_barrier = hcb.barrier_wait
  def barrier_wait(*args, **kwargs):
    s = sim()
    if s is not None:
      s.flush_taps()
      return None
    return real_barrier(*args, **kwargs)
  hcb.barrier_wait = barrier_wait

  real_io = jcb.io_callback
  real_pure = jcb.pure_callback
  def observed(callback):
    def called(*cargs, **ckw):
      s = sim()
      if s is None:
        if kernel.CURRENT is not None and not kernel.CURRENT.replicas:
          kernel.CURRENT.stray = True
        return callback(*cargs, **ckw)
      s.point("io_callback")
      f = s.fault("io_callback")
      if f is not None and f["kind"] == "slow":
        for _ in range(4):
          s.point("io_callback.slow")
      out = callback(*cargs, **ckw)
      s.point("io_callback.done")
      return out
    return called
  def io_callback(callback, result_shape_dtypes, *args, **kwargs):
    return real_io(observed(callback), result_shape_dtypes, *args, **kwargs)
  jcb.io_callback = io_callback
  jxp.io_callback = io_callback
  def pure_callback(callback, result_shape_dtypes, *args, **kwargs):
    return real_pure(observed(callback), result_shape_dtypes, *args, **kwargs)
  jcb.pure_callback = pure_callback
  jax.pure_callback = pure_callback


  # one program at a time on its caller's thread: asynchronous dispatch would
  # run the callbacks on threads that the simulator does not know
  from jax._src import xla_bridge
  from jaxlib import xla_client
  import dataclasses
  def sync_client():
    xla_client.register_custom_call_handler("cpu", xla_client._xla.register_custom_call_target)
    return xla_client._xla.get_tfrt_cpu_client(asynchronous=False)
  reg = xla_bridge._backend_factories["cpu"]
  xla_bridge._backend_factories["cpu"] = dataclasses.replace(reg, factory=sync_client)

  real_pmap = jax.pmap
  def arrive(index):
    s = kernel.CURRENT
    if s is not None:
      s.arrive(int(index))
    return np.int32(0)
  def pmap(fun, axis_name=None, *args, **kwargs):
    name = axis_name or "dsim_replica"
    def numbered(*fargs, **fkw):
      # tells which replica the taps of this thread belong to; the arguments
      # depend on it, so that it comes before everything else
      zero = real_io(arrive, jax.ShapeDtypeStruct((), np.int32), jax.lax.axis_index(name))
      held = lambda x: jax.lax.select(
        jax.numpy.broadcast_to(zero == 0, x.shape), x, jax.numpy.zeros_like(x))
      fargs, fkw = jax.tree_util.tree_map(
        lambda x: held(x) if isinstance(x, jax.core.Tracer)
        and not jax.dtypes.issubdtype(x.dtype, jax.dtypes.extended) else x, (fargs, fkw))
      return fun(*fargs, **fkw)
    mapped = real_pmap(numbered, name, *args, **kwargs)
    def call(*cargs, **ckw):
      s = sim()
      if s is None or not jax.core.trace_state_clean():
        return mapped(*cargs, **ckw)
      s.replicas += 1
      try:
        out = jax.block_until_ready(mapped(*cargs, **ckw))
      finally:
        s.replicas -= 1
      s.adopt_foreign()
      return out
    return call
  jax.pmap = pmap


_installed = False

def install():
  global _installed
  if _installed:
    return
  _installed = True
  # the libraries come first so that only jax_sgmc itself uses the seams
  import jax, jax.numpy, h5py, numpy, ujson   # noqa: F401
  import jax.experimental.host_callback       # noqa: F401
  _install_threading()
  _install_time()
  _install_uuid()
  _install_files()
  _install_h5py()
  _install_jax()
