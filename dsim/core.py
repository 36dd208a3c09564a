"""Runs one plan inside this process and classifies the outcome."""
import os
import re
import shutil
import sys
import tempfile
import traceback
import warnings

from dsim import kernel, seams
from dsim.kernel import Sim, SimAbort

HERE = os.path.dirname(os.path.abspath(__file__))


class Violation(Exception):
  def __init__(self, kind, msg):
    super().__init__("%s: %s" % (kind, msg))
    self.kind, self.msg = kind, msg


class Known(Exception):
  """The run shows a listed defect of the unchanged tree."""
  def __init__(self, finding):
    super().__init__(finding)
    self.finding = finding


class HarnessError(Exception):
  pass


class Skip(Exception):
  """The plan is outside of what the property covers (counted, never silent)."""


def require(cond, kind, msg, *args):
  if not cond:
    raise Violation(kind, msg % args if args else msg)


class Sink:
  """Replaces sys.stdout: the program's output becomes part of the history."""
  def __init__(self):
    self.text = []
  def write(self, s):
    self.text.append(s)
    return len(s)
  def flush(self):
    pass
  def take(self):
    out, self.text = "".join(self.text), []
    return out


RIGS = {}

def rig(key, build):
  """Compiled programs are built once per process and shared by the runs."""
  if key not in RIGS:
    assert kernel.CURRENT is None, "rigs are built outside of simulations"
    RIGS[key] = build()
  return RIGS[key]


class Ctx:
  def __init__(self, plan):
    self.plan = plan
    self.sims = []
    self.notes = {}
    self.warnings = []
    self._dirs = []
    self.nontrivial = None

  def scratch(self):
    base = seams.SCRATCH
    d = tempfile.mkdtemp(prefix="run", dir=base)
    self._dirs.append(d)
    return d

  def note(self, name, n=1):
    self.notes[name] = self.notes.get(name, 0) + n

  def simulate(self, tasks, sched=None, faults=None, max_steps=400000,
               expect=()):
    """Runs the tasks [(name, fn)] to completion under the plan's schedule.

    Uncaught exceptions of tasks, deadlocks and livelocks are violations unless
    the name of the task is listed in `expect`."""
    plan = self.plan
    i = len(self.sims)
    sched = dict(plan["sched"] if sched is None else sched)
    if i:
      sched["seed"] = "%s/%d" % (sched.get("seed", 0), i)
    choices = plan.get("choices")
    if choices is not None:
      mine = choices[i] if i < len(choices) else {}
      choices = {int(k): v for k, v in mine.items()}
    s = Sim(sched, choices, plan.get("faults", ()) if faults is None else faults,
            max_steps)
    self.sims.append(s)
    import jax
    devices = jax.devices()
    for k, (name, fn) in enumerate(tasks):
      def body(fn=fn, dev=devices[k % len(devices)]):
        with jax.default_device(dev):
          return fn()
      s.spawn(name, body)
    s.run()
    if s.hung:
      raise HarnessError("tasks did not stop: %s" % s.hung)
    if s.deadlock:
      raise Violation("hang", "deadlock: " + "; ".join(s.deadlock))
    if s.aborting == "steps":
      raise Violation("hang", "no progress within %d steps" % max_steps)
    for t in s.tasks:
      if t.exc is not None and t.name not in expect:
        raise t.exc
    return s


def execute(check, plan):
  """Runs a plan; returns a JSON-able result."""
  ctx = Ctx(plan)
  seams.reseed_uuids(plan.get("seed", 0))
  out = sys.stdout
  sink = Sink()
  ctx.sink = sink
  res = {"status": "ok"}
  old_show = warnings.showwarning
  warnings.showwarning = lambda m, c, *a, **k: ctx.warnings.append((c.__name__, str(m)))
  warnings.simplefilter("always")
  sys.stdout = sink
  try:
    try:
      info = check.run(plan, ctx)
      if info:
        res["info"] = info
    except Violation as e:
      res.update(status="violation", kind=e.kind, msg=e.msg)
    except Known as e:
      res.update(status="known", finding=e.finding)
    except Skip as e:
      res.update(status="skip", msg=str(e))
    except HarnessError as e:
      res.update(status="error", msg=str(e))
    except (MemoryError, SimAbort, KeyboardInterrupt) as e:
      res.update(status="error", msg="%s: %s" % (type(e).__name__, e))
    except Exception as e:   # pylint: disable=broad-except
      tb = "".join(traceback.format_exception(e))
      if _infrastructure(e):
        res.update(status="error", msg=tb[-3000:])
      else:
        res.update(status="violation", kind="exception",
                   msg=short_exc(e), traceback=tb[-3000:])
  finally:
    sys.stdout = out
    warnings.showwarning = old_show
    for d in ctx._dirs:
      shutil.rmtree(d, ignore_errors=True)
  if any(s.stray for s in ctx.sims):
    res = {"status": "skip", "msg": "a callback ran outside of the simulation"}
  res["digest"] = [s.digest() for s in ctx.sims]
  res["choices"] = [{str(k): v for k, v in s.recorded.items()} for s in ctx.sims]
  res["steps"] = sum(s.steps for s in ctx.sims)
  res["switches"] = sum(s.switches for s in ctx.sims)
  res["points"] = sum(s.npoint for s in ctx.sims)
  res["simtime"] = sum(s.now for s in ctx.sims)
  res["fired"] = [list(f) for s in ctx.sims for f in s.fired]
  probes = dict(ctx.notes)
  for s in ctx.sims:
    for k, v in s.probes.items():
      probes[k] = probes.get(k, 0) + v
  res["probes"] = probes
  res["sites"] = {k: v for s in ctx.sims for k, v in s.site_count.items()}
  res["nontrivial"] = bool(res["switches"] or res["fired"]) \
      if ctx.nontrivial is None else bool(ctx.nontrivial)
  if res["status"] in ("violation", "error"):
    res["log"] = [l for s in ctx.sims for l in s.log][-400:]
  return res


def short_exc(e):
  text = "%s: %s" % (type(e).__name__, e)
  lines = [l for l in text.splitlines() if l.strip()]
  return " | ".join(lines)[:600]


def _infrastructure(e):
  """Did the simulator itself fail (rather than the program under test)?"""
  tb = e.__traceback__
  last = None
  while tb is not None:
    last = tb.tb_frame.f_code.co_filename
    tb = tb.tb_next
  if isinstance(e, (ImportError,)) and last and "jax_sgmc" not in last:
    return True
  return bool(last) and last in (os.path.join(HERE, "kernel.py"),
                                 os.path.join(HERE, "core.py"))
