"""Simulation kernel.

Tasks are real threads, but exactly one of them may run at any moment: every
other one is parked on its own semaphore.  The running task hands the baton over
only at *points* (seams, simulated locks, line preemption), and who runs next is
decided by the seeded scheduler.  A run is a pure function of (plan, choices).

Choices are numbered; number k decides the k-th point at which more than one
task could run.  Choice 0 always means "continue the running task, or the lowest
numbered ready task".  Only non-zero choices are recorded, which makes a trace
short and minimisable (it lists exactly the pre-emptions).
"""
import _thread
import hashlib
import random
import sys
import threading

_RealThread = threading.Thread
_real_join = threading.Thread.join
_real_start = threading.Thread.start

READY, BLOCKED, DONE = 0, 1, 2

CURRENT = None            # the active simulation of this process


class SimAbort(BaseException):
  """Unwinds a task when the run ends early (crash, deadlock, step limit)."""


class Task:
  __slots__ = ("id", "name", "fn", "sem", "state", "pred", "what", "wake_at",
               "exc", "result", "thread", "daemon", "aborted", "prio",
               "timed_out", "channel", "ident")

  def __init__(self, id, name, fn, daemon):
    self.id, self.name, self.fn, self.daemon = id, name, fn, daemon
    self.sem = _thread.allocate_lock()
    self.sem.acquire()
    self.state = READY
    self.pred = self.what = self.wake_at = None
    self.exc = self.result = self.thread = None
    self.aborted = False
    self.timed_out = False
    self.prio = 0
    self.channel = name
    self.ident = None


class Sim:
  """One simulated execution.

  sched: {"seed", "kind": uniform|sticky|pct|starve|eager|serial, "p", "target",
          "line_p": probability of offering a pre-emption at a source line}
  choices: None to draw them from the seed, or {point number: index} to replay.
  """

  def __init__(self, sched, choices=None, faults=(), max_steps=400000):
    self.sched = dict(sched)
    self.rng = random.Random("sched:%s" % sched.get("seed", 0))
    self.line_rng = random.Random("line:%s" % sched.get("seed", 0))
    self.replay = choices
    self.recorded = {}
    self.npoint = 0
    self.steps = 0
    self.max_steps = max_steps
    self.now = 0.0
    self.tasks = []
    self.cur = None
    self.main_sem = _thread.allocate_lock()
    self.main_sem.acquire()
    self.aborting = None
    self.deadlock = None
    self.crashed = False
    self.log = []
    self.hash = hashlib.blake2b(digest_size=12)
    self.switches = 0
    self.preempt_line = float(sched.get("line_p", 0.0))
    self.faults = {}
    for f in faults:
      self.faults.setdefault(f["site"], []).append(dict(f))
    self.site_count = {}
    self.fired = []
    self.tap_errors = []
    self.channels = {}
    self.tap_mode = sched.get("tap", "sync")
    self.tap_cap = int(sched.get("tap_cap", 0))
    self.closing = False
    self.probes = {}
    self.crash_after = False
    self.crash_at = sched.get("crash_at")
    self.foreign = {}
    self._replica_of = {}
    self.replicas = 0            # pmap calls under way
    self.stray = False           # a callback ran on an unknown thread
    self._foreign_lock = _thread.allocate_lock()
    self._foreign_rng = random.Random("foreign:%s" % sched.get("seed", 0))
    self._pct_setup()

  # -- log -----------------------------------------------------------------
  def event(self, kind, *detail):
    """Records an event.  Never influences the schedule."""
    name = self.cur.name if self.cur else "-"
    line = "%s|%s|%s" % (name, kind, "|".join(map(str, detail)))
    self.hash.update(line.encode())
    self.hash.update(b"\n")
    if len(self.log) < 4000:
      self.log.append(line)

  def probe(self, name, n=1):
    self.probes[name] = self.probes.get(name, 0) + n

  def on_task(self):
    """True in the thread of the running task (not in a foreign library thread)."""
    cur = self.cur
    return cur is not None and cur.ident == threading.get_ident()

  # -- scheduling ------------------------------------------------------------
  def _pct_setup(self):
    k = int(self.sched.get("depth", 3))
    n = int(self.sched.get("horizon", 200))
    self.pct_points = set(self.rng.randrange(1, n) for _ in range(k)) \
        if self.sched.get("kind") == "pct" else set()

  def spawn(self, name, fn, daemon=False):
    t = Task(len(self.tasks), name, fn, daemon)
    t.prio = self.rng.random()
    self.tasks.append(t)
    t.thread = _RealThread(target=self._thread_main, args=(t,), daemon=True,
                           name="sim-" + name)
    _real_start(t.thread)
    return t

  def _thread_main(self, t):
    t.ident = threading.get_ident()
    t.sem.acquire()
    tracer = self._tracer if self.preempt_line > 0 else None
    try:
      if self.aborting is None:
        if tracer:
          sys.settrace(tracer)
        t.result = t.fn()
    except SimAbort:
      t.aborted = True
    except BaseException as e:  # pylint: disable=broad-except
      if self.aborting is not None:
        t.aborted = True
      else:
        t.exc = e
    finally:
      sys.settrace(None)
      t.state = DONE
      self._handover(None)

  def _ready(self):
    out = []
    for t in self.tasks:
      if t.state == READY:
        out.append(t)
      elif t.state == BLOCKED and (self.aborting is not None or t.pred()):
        out.append(t)
    return out

  def _pick(self, me, ready):
    """Chooses the next task among the ready ones."""
    if me is not None and me in ready:
      order = [me] + [t for t in ready if t is not me]
    else:
      order = ready
    if len(order) == 1 or self.aborting is not None:
      return order[0]
    n = self.npoint
    self.npoint += 1
    if self.replay is not None:
      idx = self.replay.get(n, 0)
      idx = idx if idx < len(order) else 0
    else:
      idx = self._draw(me, order)
    if idx:
      self.recorded[n] = idx
    return order[idx]

  def _draw(self, me, order):
    kind = self.sched.get("kind", "uniform")
    r = self.rng
    here = order[0] is me
    if kind == "serial":
      return 0
    if kind == "uniform":
      return r.randrange(len(order))
    if kind == "sticky":
      if here and r.random() >= self.sched.get("p", 0.2):
        return 0
      return r.randrange(len(order))
    if kind == "pct":
      if self.npoint in self.pct_points and me is not None:
        me.prio = -r.random()
      return max(range(len(order)), key=lambda i: order[i].prio)
    if kind in ("starve", "eager"):
      target = self.sched.get("target", "")
      hit = [i for i, t in enumerate(order) if t.name.startswith(target)]
      if kind == "starve":
        hit = [i for i in range(len(order)) if i not in hit]
      if hit and r.random() >= self.sched.get("p", 0.05):
        return hit[r.randrange(len(hit))]
      return r.randrange(len(order))
    raise ValueError(kind)

  def _handover(self, me):
    """Passes the baton on; returns when `me` may continue."""
    while True:
      ready = self._ready()
      if ready:
        break
      sleepers = [t for t in self.tasks
                  if t.state == BLOCKED and t.wake_at is not None]
      if sleepers:
        t = min(sleepers, key=lambda t: (t.wake_at, t.id))
        self.now = max(self.now, t.wake_at)
        t.wake_at = None
        t.timed_out = True
        t.state = READY
        continue
      waiting = [t for t in self.tasks if t.state == BLOCKED]
      if not waiting:              # everything finished
        self.main_sem.release()
        return
      # receivers idle at the end of a run are not a deadlock
      if not self.closing and all(t.daemon for t in waiting):
        self.closing = True
        continue
      stuck = ["%s waits for %s" % (t.name, t.what) for t in waiting
               if not t.daemon]
      if stuck:
        self.deadlock = stuck
      self.aborting = "deadlock" if stuck else "end"
    nxt = self._pick(me, ready)
    nxt.state = READY
    if nxt is me:
      return
    self.switches += 1
    self.hash.update(b"->%d\n" % nxt.id)
    self.cur = nxt
    nxt.sem.release()
    if me is not None:
      me.sem.acquire()
      self.cur = me

  def point(self, kind, *detail):
    """A scheduling point of the running task."""
    if self.aborting is not None:
      raise SimAbort()
    self.steps += 1
    if self.steps > self.max_steps:
      self.aborting = "steps"
      raise SimAbort()
    self.event(kind, *detail)
    if self.steps == self.crash_at:
      self.fired.append(("step", self.steps, "crash"))
      self.crash()
    me = self.cur
    self._handover(me)
    if self.aborting is not None:
      raise SimAbort()

  def block(self, pred, what, timeout=None):
    """Parks the running task until pred() holds.  False after a timeout."""
    if self.aborting is not None:
      raise SimAbort()
    me = self.cur
    me.timed_out = False
    while not pred():
      me.state, me.pred, me.what = BLOCKED, pred, what
      if timeout is not None:
        me.wake_at = self.now + timeout
      self._handover(me)
      me.state, me.wake_at = READY, None
      if self.aborting is not None:
        raise SimAbort()
      if me.timed_out:
        return bool(pred())
    return True

  def sleep(self, dt):
    self.block(lambda: False, "sleep", timeout=max(float(dt), 0.0))

  def crash(self):
    """The simulated process dies here: nothing of it runs any further."""
    self.crashed = True
    self.aborting = "crash"
    self.event("crash")
    raise SimAbort()

  def _tracer(self, frame, event, arg):
    fn = frame.f_code.co_filename
    if not fn.startswith(LINE_PREFIX):
      return None
    return self._local_tracer

  def _local_tracer(self, frame, event, arg):
    if (event == "line" and CURRENT is self and self.aborting is None
        and TRACE_CLEAN()):
      if self.line_rng.random() < self.preempt_line:
        self.point("line", frame.f_code.co_name)
    return self._local_tracer

  # -- faults ------------------------------------------------------------------
  def fault(self, site):
    """The n-th visit of a site: returns the fault planned for it, or None."""
    n = self.site_count.get(site, 0)
    self.site_count[site] = n + 1
    for f in self.faults.get(site, ()):
      if f["n"] == n:
        self.fired.append((site, n, f["kind"]))
        self.event("fault", site, n, f["kind"])
        return f
    return None

  # -- callback channels (host_callback outfeed model) ------------------------
  def deliver(self, channel, fn):
    """A tap arrives from the device: run it now or queue it for the receiver."""
    if self.tap_mode == "sync":
      self.point("tap")
      return fn()
    if channel not in self.channels:
      self.channels[channel] = []
      self.spawn("recv%s" % channel, lambda: self._receiver(channel), daemon=True)
    q = self.channels[channel]
    if self.tap_cap:
      self.block(lambda: len(q) < self.tap_cap, "outfeed capacity")
    q.append(fn)
    self.probe("queued_taps")
    self.point("tap-queued", len(q))

  def foreign_tap(self, value, fn):
    """A tap on a replica thread of pmap: kept until the program has finished."""
    with self._foreign_lock:
      replica = self._replica_of.get(threading.get_ident(), -1)
      self.foreign.setdefault(replica, []).append((value, fn))

  def arrive(self, replica):
    """The calling thread starts to run this replica."""
    with self._foreign_lock:
      self._replica_of[threading.get_ident()] = replica

  def adopt_foreign(self):
    """Queues the taps of all replicas in a seeded interleaving.

    Every replica delivers in its own order; which replica is served next is the
    scheduler's choice."""
    with self._foreign_lock:
      queues, self.foreign = [q for _, q in sorted(self.foreign.items())], {}
      self._replica_of = {}
    if not queues:
      return
    self.probe("replica_taps", sum(map(len, queues)))
    failed = None
    while queues:
      i = self._foreign_rng.randrange(len(queues))
      if self.sched.get("kind") == "serial":
        i = 0
      queue = queues[i]
      value, fn = queue.pop(0)
      if not queue:
        del queues[i]
      if self.tap_mode == "sync":
        self.point("tap")
        try:
          fn(value)
        except Exception as e:      # this replica stops, the others go on
          failed = failed or e
          queues[:] = [q for q in queues if q is not queue]
      else:
        self.deliver(self.cur.channel, lambda v=value, f=fn: f(v))
    if failed is not None:
      raise failed

  def _receiver(self, channel):
    q = self.channels[channel]
    while True:
      self.block(lambda: q or self.closing, "taps of device %s" % channel)
      if not q:
        return
      self.point("tap-received", len(q))
      fn = q[0]
      try:
        fn()
      except SimAbort:
        raise
      except Exception as e:  # jax logs the error and continues with the next tap
        self.tap_errors.append(e)
        self.event("tap-error", type(e).__name__)
      q.pop(0)

  def flush_taps(self):
    self.block(lambda: all(not q for q in self.channels.values()), "barrier_wait")

  # -- driver ------------------------------------------------------------------
  def run(self):
    global CURRENT
    assert CURRENT is None
    CURRENT = self
    try:
      if self.tasks:
        first = self._pick(None, self._ready())
        self.cur = first
        first.sem.release()
        self.main_sem.acquire()
    finally:
      CURRENT = None
    self.hung = []
    for t in self.tasks:
      _real_join(t.thread, 20)
      if t.thread.is_alive():
        self.hung.append(t.name)
    return self

  def digest(self):
    return self.hash.hexdigest()


LINE_PREFIX = "/repo/jax_sgmc"
TRACE_CLEAN = lambda: True      # false while jax traces (set by the worker)
