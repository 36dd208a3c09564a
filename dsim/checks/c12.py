"""C12: the schedule announces what the run delivers; steps, burn in and progress are true."""
import json
import math
import re
from collections import Counter

import numpy as np

from dsim import lib, saving, wiring
from dsim.core import require, rig
from dsim.lib import jx

GROUP = 24


# the step size schedules take turns over the programs of all groups
TURNS = ["firstlast", "adaptive", "poly", "steep", None, "adaptive", "firstlast", "poly", "adaptive"]


def gen_config(g, turn):
  N = g.choice([1, 2, 5, 8, 12, 20, 30]) if g.random() < 0.85 else g.choice([260, 300, 1000])
  n = min(g.choice([0, 0, 1, N // 3, N // 2, N - 1]), N - 1)
  p = {"N": N, "n": n if g.random() < 0.8 else None,
       "strategy": g.choice(["map", "map", "vmap", "pmap"]), "C": g.choice([1, 1, 2, 3]),
       "storage": g.choice(["none", "memory", "memory"]), "progress": g.random() < 0.75,
       "steps": g.choice([1, 2, 3, 5, 20]), "tau": g.choice([None, 1.0, 0.25, 3.0]),
       "stats": g.random() < 0.5}
  p["step"] = gen_step(g, N, TURNS[turn % len(TURNS)])
  free = N - (p["n"] or 0)
  p["select"] = [g.randint(1, free), g.choice([None, g.randrange(5)])] if g.random() < 0.55 else None
  p["helper"] = None
  if g.random() < 0.3:
    h = {"temperature": {"tau": g.choice([2.0, 7.5])}}
    s = p["step"]
    if s and s[0] == "poly" and g.random() < 0.7:
      h["step_size"] = {"a": g.choice([0.02, 2.0]), "gamma": g.choice([0.0, 0.7])}
    if s and s[0] == "adaptive" and g.random() < 0.7:
      h["step_size"] = {"target_acceptance_rate": 0.6, "initial_step_size": 0.3}
    if p["n"] is not None and p["select"] is None and g.random() < 0.5:
      h["burn_in"] = {"n": g.randint(0, N)}
    if p["tau"] is None:
      h["temperature"] = {}
    p["helper"] = h
  return p


# the arguments documented by the signatures
DEFAULTS = {"poly": {"a": 1.0, "b": 1.0, "gamma": 0.33},
            "firstlast": {"first": 1.0, "last": 1.0, "gamma": 0.33},
            "adaptive": {"burn_in": 0, "initial_step_size": 0.05, "stabilization_constant": 100,
                         "decay_constant": 0.75, "speed_constant": 0.05,
                         "target_acceptance_rate": 0.02}}


def full(step):
  return step and [step[0], dict(DEFAULTS[step[0]], **step[1])]


def gen_step(g, N, kind):
  step = all_arguments(g, N, kind)
  if step and kind != "steep" and g.random() < 0.25:      # leave some arguments at their defaults
    for k in sorted(step[1]):
      # (the last step must not be larger than the first)
      if g.random() < 0.4 and k not in ("first", "burn_in"):
        del step[1][k]
    if step[0] == "firstlast" and "last" not in step[1]:
      step[1].pop("first")
  return step


def all_arguments(g, N, kind):
  if kind == "steep":
    # a small rate of decay: powers of the step sizes themselves would leave
    # the range of single precision
    first = g.choice([1e-2, 1e-3, 1e-4])
    return ["firstlast", {"first": first, "last": first / g.choice([10.0, 100.0]),
                          "gamma": g.choice([0.1, 0.12])}]
  if kind == "poly":
    return ["poly", {"a": g.choice([1.0, 0.05, 1e-4]), "b": g.choice([1.0, 0.5, 10.0]),
                     "gamma": g.choice([0.0, 0.33, 0.55, 1.0])}]
  if kind == "firstlast":
    first = g.choice([1.0, 0.1, 1e-3])
    return ["firstlast", {"first": first, "last": first / g.choice([1.0, 1.5, 10.0, 100.0]),
                          "gamma": g.choice([0.2, 0.25, 0.33, 0.55, 1.0])}]
  if kind == "adaptive":
    return ["adaptive", {"burn_in": g.choice([0, 1, N // 2, N, N + 5]),
                         "initial_step_size": g.choice([0.05, 0.5, 1e-3]),
                         "stabilization_constant": g.choice([10, 100]),
                         "decay_constant": g.choice([0.75, 0.5, 1.0]),
                         "speed_constant": g.choice([0.5, 1.0]),
                         "target_acceptance_rate": g.choice([0.02, 0.25, 0.8])}]
  return None


def gen(rng, tier, i):
  if i // GROUP % 3 == 2:
    return wiring.gen(rng, wiring.SOLVERS, i, GROUP, i // GROUP // 3)
  g = rng.group
  pal = [gen_config(g, 4 * (i // GROUP) + j) for j in range(4)]
  tasks = []
  for _ in range(rng.choice([1, 1, 2, 3])):
    j = rng.randrange(len(pal))
    tasks.append({"cfg": j, "seed": rng.getrandbits(30)})
  return {"pal": pal, "tasks": tasks, "faults": [],
          "sched": lib.sched(rng, targets=["run0", "run1", "recvrun0"], line=0.3, async_p=0.5)}


# -- the documented schedules, in double precision ----------------------------------

def documented_steps(step, N, acc):
  n = np.arange(N, dtype=float)
  kind, kw = full(step) or ["poly", {"a": 1.0, "b": 1.0, "gamma": 0.0}]
  if kind == "poly":
    return kw["a"] * (kw["b"] + n) ** -kw["gamma"]
  if kind == "firstlast":
    f, l, gm = kw["first"], kw["last"], kw["gamma"]
    if f == l or N == 1:
      return np.full(N, f)
    lo, hi = f ** (-1 / gm), l ** (-1 / gm)
    a = ((hi - lo) / (N - 1)) ** -gm
    return a * ((f / a) ** (-1 / gm) + n) ** -gm
  # dual averaging
  x_bar, h = math.log(kw["initial_step_size"]), 0.0
  mu = math.log(10 * kw["initial_step_size"])
  out = []
  for i in range(N):
    out.append(math.exp(x_bar))
    m = i + 1
    w = 1 / (m + kw["stabilization_constant"])
    h = (1 - w) * h + w * (kw["target_acceptance_rate"] - acc[i])
    x = mu - math.sqrt(m) / kw["speed_constant"] * h
    lr = m ** -kw["decay_constant"]
    if i < kw["burn_in"]:
      x_bar = lr * x + (1 - lr) * x_bar
  return np.array(out)


def scheduler_of(p):
  from jax_sgmc import scheduler
  jax = jx()
  kw = {}
  static = None
  if p["step"]:
    kind, args = p["step"]
    make = {"poly": scheduler.polynomial_step_size,
            "firstlast": scheduler.polynomial_step_size_first_last,
            "adaptive": scheduler.adaptive_step_size}[kind]
    kw["step_size"] = make(**args)
    static = kw["step_size"] if kind != "adaptive" else None
  if p["tau"] is not None:
    kw["temperature"] = scheduler.constant_temperature(p["tau"])
  burn = scheduler.initial_burn_in(p["n"] or 0)
  if p["n"] is not None:
    kw["burn_in"] = burn
  if p["select"]:
    k, seed = p["select"]
    kw["thinning"] = scheduler.random_thinning(
      static or scheduler.polynomial_step_size(), burn, k,
      **({} if seed is None else {"key": jax.random.PRNGKey(seed)}))
  return scheduler.init_scheduler(progress_bar=p["progress"], progress_bar_steps=p["steps"], **kw)


def program(p, slot):
  def build():
    from jax_sgmc import io, solver
    jax = jx()
    jnp = jax.numpy
    forward = saving.collector_class()
    real_init, real_save, real_post = io.no_save() if p["storage"] == "none" else io.save(forward)
    statics = []
    def init(sample, checkpoint, static):
      statics.append(static.samples_collected)
      return real_init(sample, checkpoint, static)
    def save(st, keep, sample, **kw):
      st, _ = real_save(st, keep, sample, **kw)
      return st, (keep, sample)
    def post(st, saved):
      return dict(real_post(st, None), trace=saved)
    def update(state, schedule, helper=None):
      it = state["it"]
      new = dict(state, it=it + 1, s=_row(jnp, schedule))
      if helper is not None:
        new["h"] = _row(jnp, helper)
      return new, {"acceptance_ratio": state["acc"][it]} if p["stats"] else None
    def get(state):
      out = {"it": state["it"] - 1, "tag": state["tag"], "s": state["s"]}
      if p["helper"] is not None:
        out["h"] = state["h"]
      return out
    run = solver.mcmc((None, update, get), scheduler_of(p), strategy=p["strategy"],
                      saving=(init, save, post))
    def go(accs):
      states = []
      for c, acc in enumerate(accs):
        st = {"it": jnp.int32(0), "tag": jnp.int32(c), "acc": jnp.array(acc, jnp.float32),
              "s": jnp.zeros(4)}
        if p["helper"] is not None:
          st["h"] = jnp.zeros(4)
        states.append(st)
      kw = {} if p["helper"] is None else {"schedulers": (p["helper"],)}
      return run(*states, iterations=p["N"], **kw)
    return {"forward": forward, "go": go, "statics": statics, "warm": []}
  return rig(("c12", slot, json.dumps(p, sort_keys=True)), build)


def _row(jnp, s):
  return jnp.stack([jnp.asarray(x, jnp.float32)
                    for x in (s.step_size, s.temperature, s.burn_in, s.accept)])


def run(plan, ctx):
  if plan.get("wiring"):
    return wiring.run(plan, ctx)
  jax = jx()
  devs = jax.devices()
  progs, accs = [], []
  for k, t in enumerate(plan["tasks"]):
    p = plan["pal"][t["cfg"]]
    with jax.default_device(devs[k]):
      prog = program(p, k)
    rng = np.random.default_rng(t["seed"])
    acc = rng.random((p["C"], p["N"])).astype(np.float32)
    acc[rng.random(acc.shape) < 0.2] = 0.0
    acc[rng.random(acc.shape) < 0.2] = 1.0
    progs.append(prog)
    accs.append(acc)
    if not prog["warm"]:
      prog["warm"].append(1)
      prog["forward"].bind(saving.Store({"type": "memory"}, ctx).collector)
      with jax.default_device(devs[k]):
        lib.settle(prog["go"](acc))
    prog["forward"].bind(saving.Store({"type": "memory"}, ctx).collector)
    del prog["statics"][:]
  ctx.sink.take()
  results = [None] * len(progs)

  def body(k):
    def go():
      results[k] = jax.tree_util.tree_map(np.asarray, progs[k]["go"](accs[k]))
    return go
  sim = ctx.simulate([("run%d" % k, body(k)) for k in range(len(progs))])
  require(not sim.tap_errors, "tap-error", "a callback failed: %s", sim.tap_errors[:1])
  text = ctx.sink.take()

  allowed = Counter()
  for k, t in enumerate(plan["tasks"]):
    p = plan["pal"][t["cfg"]]
    N = p["N"]
    require(len(results[k]) == p["C"], "chains", "%d results for %d chains", len(results[k]), p["C"])
    for c, res in enumerate(results[k]):
      what = "run %d chain %d (%s)" % (k, c, json.dumps(p))
      keep, tr = res["trace"]
      keep = keep.astype(bool)
      require(keep.shape == (N,), "iterations", "%s: %s iterations", what, keep.shape)
      require(np.array_equal(tr["it"], np.arange(N)), "iterations", "%s", what)
      check_schedule(p, p["step"], p["tau"], p["n"], tr["s"], accs[k][c], what)
      burn, accept = tr["s"][:, 2] != 0, tr["s"][:, 3] != 0
      require(np.array_equal(keep, burn & accept), "keep", "%s: kept %s", what, keep.astype(int).tolist())
      if p["select"]:
        sel = p["select"][0]
        require(int(accept.sum()) == sel, "thinning", "%s: %d distinct iterations selected "
                "instead of %d", what, int(accept.sum()), sel)
        require(not (accept & ~burn).any(), "thinning", "%s: selected during burn in: %s", what,
                np.nonzero(accept & ~burn)[0].tolist())
      else:
        require(accept.all(), "thinning", "%s: no thinning, but accepted %s", what,
                accept.astype(int).tolist())
      want = np.nonzero(keep)[0]
      require(len(progs[k]["statics"]) == p["C"], "announcements", "%s", what)
      announced = int(progs[k]["statics"][c])
      require(announced == len(want), "announced", "%s: %d samples were announced, %d iterations "
              "are kept", what, announced, len(want))
      require(int(res["sample_count"]) == len(want), "count", "%s: count %s", what, res["sample_count"])
      s = res["samples"]
      require(s["it"].shape == want.shape and np.array_equal(s["it"], want) and
              (s["tag"] == c).all(), "delivered", "%s: samples of iterations %s (chains %s) instead "
              "of %s", what, s["it"].tolist(), s["tag"].tolist(), want.tolist())
      if p["helper"] is not None:
        h = p["helper"]
        step, tau, n = p["step"], p["tau"], p["n"]
        if "step_size" in h:
          step = [step[0], dict(step[1], **h["step_size"])]
        tau = h.get("temperature", {}).get("tau", tau)
        n = h.get("burn_in", {}).get("n", n)
        check_schedule(p, step, tau, n, tr["h"], accs[k][c], what + " helper")
      if p["progress"]:
        for it, got in enumerate(np.cumsum(keep)):
          allowed["%d/%d/%d/%d" % (it, N, got, announced)] += 1
        if p["helper"] is not None:          # the second schedule reports, too
          hk = (tr["h"][:, 2] != 0) & (tr["h"][:, 3] != 0)
          # what it announces: the samples of its own burn in and thinning
          for it, got in enumerate(np.cumsum(hk)):
            allowed["%d/%d/%d/%d" % (it, N, got, int(hk.sum()))] += 1
      ctx.note("iterations", N)
  lines = [l for l in text.split("\n") if l.strip()]
  seen = Counter()
  for l in lines:
    num = [int(x) for x in re.findall(r"\d+", l)]
    require(len(num) == 5, "progress", "line %r", l)
    it, N, pct, got, total = num
    require(abs(pct - 100.0 * it / N) <= 0.51, "progress-percentage", "line %r", l)
    key = "%d/%d/%d/%d" % (it, N, got, total)
    require(key in allowed, "progress", "the line %r is not true for any chain", l)
    seen[key] += 1
    require(seen[key] <= allowed[key], "progress-repeated", "the line %r came %d times, %d chains "
            "pass this iteration", l, seen[key], allowed[key])
  ctx.note("progress_lines", len(lines))
  ctx.nontrivial = any(plan["pal"][t["cfg"]]["N"] > 1 for t in plan["tasks"])


def check_schedule(p, step, tau, n, rows, acc, what):
  N = p["N"]
  steps = rows[:, 0].astype(float)
  require(np.isfinite(steps).all() and (steps > 0).all(), "step-size", "%s: step sizes %s", what,
          steps.tolist())
  want = documented_steps(step, N, acc if p["stats"] else np.zeros(N))
  bad = ~np.isclose(steps, want, rtol=3e-3, atol=0)
  require(not bad.any(), "step-size", "%s: step size of iteration %s is %s instead of %s", what,
          np.nonzero(bad)[0][:1].tolist(), steps[bad][:1].tolist(), want[bad][:1].tolist())
  if step and step[0] == "adaptive":
    late = rows[min(full(step)[1]["burn_in"], N):, 0]
    require(len(late) == 0 or (late == late[0]).all(), "adaption", "%s: step sizes after burn in "
            "%s", what, late.tolist())
  t = 1.0 if tau is None else tau
  require((rows[:, 1] == np.float32(t)).all(), "temperature", "%s: temperatures %s", what,
          rows[:, 1].tolist())
  burn = np.arange(N) >= (n or 0)
  require(np.array_equal(rows[:, 2] != 0, burn), "burn-in", "%s: burn in %s", what,
          rows[:, 2].tolist())
