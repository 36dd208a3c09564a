"""Drives the workers: search, minimisation, replay, evidence."""
import copy
import hashlib
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("DSIM_PYTHON", "/opt/venv/bin/python")
SUT = os.environ.get("DSIM_SUT", "/repo")


def worker_env(hashseed="0"):
  env = dict(os.environ)
  env.update(JAX_PLATFORMS="cpu", PYTHONPATH=VERIF, PYTHONHASHSEED=hashseed,
             XLA_FLAGS="--xla_force_host_platform_device_count=8 "
                       "--xla_cpu_multi_thread_eigen=false",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             TF_CPP_MIN_LOG_LEVEL="3", PYTHONDONTWRITEBYTECODE="1",
             JAX_TRACEBACK_FILTERING="off", DSIM_SUT=SUT)
  env.pop("JAX_HOST_CALLBACK_OUTFEED", None)
  return env


class Worker:
  """A child process with line based requests and hard timeouts."""

  def __init__(self, check, scratch, log=None, hashseed="0"):
    self.check, self.scratch = check, scratch
    self.proc = subprocess.Popen(
      [PY, "-X", "faulthandler", "-m", "dsim.worker", check, scratch],
      stdin=subprocess.PIPE, stdout=subprocess.PIPE,
      stderr=open(log or os.devnull, "ab"), env=worker_env(hashseed), cwd=VERIF,
      text=True)
    self.lines = queue.Queue()
    threading.Thread(target=self._read, daemon=True).start()

  def _read(self):
    for line in self.proc.stdout:
      self.lines.put(line)
    self.lines.put(None)

  def recv(self, timeout):
    try:
      line = self.lines.get(timeout=timeout)
    except queue.Empty:
      return {"status": "timeout"}
    if line is None:
      return {"status": "died", "rc": self.proc.wait()}
    return json.loads(line)

  def start(self, timeout=180):
    r = self.recv(timeout)
    if not r.get("ready"):
      self.kill()
      return r
    return None

  def ask(self, req, timeout):
    """Returns (plan, result)."""
    plan = req.get("plan")
    try:
      self.proc.stdin.write(json.dumps(req) + "\n")
      self.proc.stdin.flush()
    except (BrokenPipeError, ValueError):
      return plan, {"status": "died", "rc": self.proc.poll()}
    first = self.recv(timeout)
    if "plan" not in first:
      return plan, first
    plan = first["plan"]
    return plan, self.recv(timeout)

  def kill(self):
    try:
      self.proc.kill()
      self.proc.wait(10)
    except Exception:   # pylint: disable=broad-except
      pass


class Session:
  """Everything one check run needs: scratch space, workers, counters."""

  def __init__(self, check, tier, seed, params):
    self.check, self.tier, self.seed, self.params = check, tier, seed, params
    self.scratch = tempfile.mkdtemp(prefix="dsim-")
    self.log = os.path.join(self.scratch, "workers.log")
    self.t0 = time.time()

  def new_worker(self, hashseed="0"):
    d = tempfile.mkdtemp(prefix="w", dir=self.scratch)
    return Worker(self.check, d, self.log, hashseed)

  def close(self):
    shutil.rmtree(self.scratch, ignore_errors=True)

  def log_tail(self, n=3000):
    try:
      with open(self.log, errors="replace") as f:
        return f.read()[-n:]
    except OSError:
      return ""


def search(session, nworkers):
  """Runs plans 0..runs-1 over the workers until done, a violation or time up."""
  P = session.params
  runs, budget, hard = P["runs"], P["seconds"], P["run_timeout"]
  chunk = P.get("chunk", 30)
  results, lock = [], threading.Lock()
  state = {"next": 0, "stop": False, "errors": [], "bad": [], "start_fail": None,
           "history": {}}
  deadline = session.t0 + budget

  def next_chunk():
    with lock:
      if state["stop"] or state["next"] >= runs or time.time() > deadline:
        return []
      a = state["next"]
      state["next"] = min(runs, a + chunk)
      return list(range(a, state["next"]))

  def loop(k):
    w, history = None, []
    while True:
      todo = next_chunk()
      if not todo:
        break
      for i in todo:
        if state["stop"] or time.time() > deadline:
          break
        if w is None:
          w = session.new_worker()
          history = []
          bad = w.start()
          if bad is not None:
            with lock:
              state["start_fail"] = bad
              state["stop"] = True
            return
        plan, res = w.ask({"seed": session.seed, "i": i, "tier": session.tier,
                           "repeat": i % 16 == 3}, hard)
        res["i"] = i
        with lock:
          if plan is None:           # no plan, no verdict: a fault of the machinery
            w.kill()
            state["errors"].append((i, plan, dict(res, status="error", msg="no plan")))
            state["stop"] = True
            w = None
          elif res["status"] in ("timeout", "died"):
            w.kill()
            state["bad"].append((i, plan, res, list(history)))
            w = None
            if len(state["bad"]) >= 2:
              state["stop"] = True
          elif res["status"] == "error":
            state["errors"].append((i, plan, res))
            if len(state["errors"]) >= 3:
              state["stop"] = True
          elif res["status"] == "violation":
            state["bad"].append((i, plan, res, list(history)))
            state["stop"] = True
          results.append((i, plan, res))
        history.append(plan)
    if w is not None:
      w.kill()

  threads = [threading.Thread(target=loop, args=(k,)) for k in range(nworkers)]
  for t in threads:
    t.start()
  for t in threads:
    t.join()
  results.sort(key=lambda r: r[0])
  return results, state


# -- minimisation ----------------------------------------------------------------

class Prober:
  """Answers "does this plan sequence still fail the same way?"."""

  def __init__(self, session, kind, deadline, timeout):
    self.session, self.kind, self.deadline = session, kind, deadline
    self.timeout = timeout
    self.w = None
    self.tries = 0

  def run(self, plans, fresh=False):
    if fresh or self.w is None or len(plans) > 1:
      if self.w:
        self.w.kill()
      self.w = self.session.new_worker()
      if self.w.start() is not None:
        self.w = None
        return {"status": "error", "msg": "worker did not start"}
    self.tries += 1
    res = None
    for p in plans:
      _, res = self.w.ask({"plan": p}, self.timeout)
      if res["status"] in ("timeout", "died"):
        self.w.kill()
        self.w = None
        break
    return res

  def fails(self, plans, fresh=False):
    if time.time() > self.deadline:
      return None
    res = self.run(plans, fresh)
    return res if same(res, self.kind) else None

  def close(self):
    if self.w:
      self.w.kill()


def same(res, kind):
  if res is None:
    return False
  if res["status"] in ("timeout", "died"):
    return kind in ("hang", "crashed", "timeout", "died")
  return res["status"] == "violation" and (
    kind is None or res["kind"] == kind or {res["kind"], kind} <= {"hang", "timeout"})


def candidates(plan):
  """Smaller plans, most aggressive first."""
  for key in ("ops", "faults"):
    items = plan.get(key)
    if not isinstance(items, list) or not items:
      continue
    n = len(items)
    size = n
    while size >= 1:
      for a in range(0, n, size):
        c = copy.deepcopy(plan)
        del c[key][a:a + size]
        yield c
      size //= 2
  for key in plan.get("shrink_ints", ()):
    lo, v = plan["shrink_ints"][key], plan[key]
    for nv in sorted({lo, (lo + v) // 2, v - 1}):
      if lo <= nv < v:
        c = copy.deepcopy(plan)
        c[key] = nv
        yield c
  if isinstance(plan.get("tasks"), list) and len(plan["tasks"]) > 1:
    for i in range(len(plan["tasks"])):
      c = copy.deepcopy(plan)
      del c["tasks"][i]
      yield c
  for i, t in enumerate(plan.get("tasks") or ()):
    ops = t.get("ops") if isinstance(t, dict) else None
    if not isinstance(ops, list):
      continue
    size = len(ops)
    while size >= 1:
      for a in range(0, len(ops), size):
        c = copy.deepcopy(plan)
        del c["tasks"][i]["ops"][a:a + size]
        yield c
      size //= 2
  s = plan.get("sched", {})
  if s.get("line_p"):
    c = copy.deepcopy(plan)
    c["sched"]["line_p"] = 0.0
    yield c
  if s.get("kind") not in (None, "serial"):
    c = copy.deepcopy(plan)
    c["sched"] = {"seed": s.get("seed", 0), "kind": "serial",
                  "tap": s.get("tap", "sync"), "tap_cap": s.get("tap_cap", 0)}
    yield c
  if s.get("tap") == "async":
    c = copy.deepcopy(plan)
    c["sched"]["tap"] = "sync"
    yield c


def minimise(prober, plan, res, seconds):
  """Greedy delta debugging over operations, faults, then pre-emptions."""
  end = time.time() + seconds
  best, best_res = plan, res
  improved = True
  while improved and time.time() < end:
    improved = False
    for c in candidates(best):
      if time.time() > end:
        break
      c.pop("choices", None)
      r = prober.fails([c])
      if r is not None:
        best, best_res, improved = c, r, True
        break
  # fix the schedule: replay the recorded choices and remove pre-emptions
  ch = best_res.get("choices")
  if ch is not None and time.time() < end:
    c = copy.deepcopy(best)
    c["choices"] = ch
    r = prober.fails([c])
    if r is not None:
      best, best_res = c, r
      for i in range(len(ch)):
        keys = sorted(ch[i], key=int)
        size = len(keys)
        while size >= 1 and time.time() < end:
          a = 0
          while a < len(keys) and time.time() < end:
            c = copy.deepcopy(best)
            for k in keys[a:a + size]:
              c["choices"][i].pop(k, None)
            r = prober.fails([c])
            if r is not None:
              best, best_res = c, r
              del keys[a:a + size]
            else:
              a += size
          size //= 2
  return best, best_res


def report(session, i, plan, res, history, out=sys.stdout):
  """Confirms, minimises and writes the replay file.  Returns (path, confirmed)."""
  P = session.params
  hard = P["run_timeout"]
  kind = res.get("kind") or res["status"]
  t_end = time.time() + P.get("minimise", 60)
  prober = Prober(session, kind, t_end + 120, hard)
  try:
    prefix = []
    r = prober.fails([plan], fresh=True)
    if r is None and res["status"] in ("timeout", "died"):
      return None, False
    if r is None and history:
      for n in (1, 4, 16, len(history)):
        r = prober.fails(history[-n:] + [plan], fresh=True)
        if r is not None:
          prefix = history[-n:]
          break
      while r is not None and len(prefix) > 1 and time.time() < t_end:
        half = len(prefix) // 2
        for part in (prefix[half:], prefix[:half]):
          r2 = prober.fails(part + [plan], fresh=True)
          if r2 is not None:
            prefix, r = part, r2
            break
        else:
          break
    if r is not None:
      res = r
      if not prefix:
        plan, res = minimise(prober, plan, res, max(5, t_end - time.time()))
        final = prober.run([plan], fresh=True)
      else:
        final = prober.run(prefix + [plan], fresh=True)
    else:
      final = None
  finally:
    prober.close()
  os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
  name = "%s-%s.json" % (session.check, hashlib.blake2b(
    json.dumps(plan, sort_keys=True, default=str).encode(), digest_size=5).hexdigest())
  path = os.path.join("replays", name)
  with open(os.path.join(VERIF, path), "w") as f:
    json.dump({"property": session.params["property"], "check": session.check,
               "kind": res.get("kind") or res["status"], "message": res.get("msg", ""),
               "seed": session.seed, "run": i, "prefix": prefix, "plan": plan,
               "digest": res.get("digest"), "faults": res.get("fired"),
               "preemptions": res.get("choices"),
               "reproduced_in_fresh_process": bool(final) and same(final, None),
               "exact": bool(final) and final.get("digest") == res.get("digest"),
               "history": res.get("log", [])}, f, indent=1, default=str)
  return path, (res, final)
