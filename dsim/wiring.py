"""The ready-made samplers of jax_sgmc.alias against their parts.

alias.X(...) promises a documented combination of integrator, solver, schedules and
saving.  A run of it inside the simulation (several chains and calls, other runs at
the same time, late callbacks, slow reads) is compared with the trajectory of the
parts put together by hand, without burn-in and thinning: the samples it returns must
be the announced number of rows of this trajectory after burn-in, in order.
"""
import json

import numpy as np

from dsim import lib
from dsim.core import require, rig
from dsim.lib import jx

SOLVERS = ["sgld", "rms", "re_sgld", "amagold", "sggmc", "sghmc", "noise", "obabo"]
EXACT = ("amagold", "sggmc")
MASS = {"w": np.array([1.0, 2.0], np.float32), "s": np.float32(0.7)}


def gen_problem(g, name, j):
  N = g.choice([3, 6, 10, 14])
  B = min(g.choice([0, 1, 2, N // 2]), N - 1)
  free = N - B
  p = {"solver": name, "n": g.choice([5, 8, 13]), "mb": g.choice([1, 2, 3, 5]), "N": N, "B": B,
       "cache": g.choice([1, 3, 8]), "steps": g.choice([1, 2, 3]), "state": g.random() < 0.4,
       "first": g.choice([0.06, 0.02]), "ratio": g.choice([1.0, 2.0, 3.0, 5.0]),
       "numpy": g.random() < 0.5, "bar": g.random() < 0.4, "mass": g.random() < 0.7,
       "friction": g.choice([0.25, 0.5, 0.8]), "temp": g.choice([1.5, 4.0, 100.0]),
       "alpha": g.choice([0.9, 0.5]), "lmbd": g.choice([1e-5, 0.1]),
       "adaptive": None, "default": []}
  p["last"] = p["first"] / p["ratio"]
  if name == "noise":
    p["mb"] = max(2, p["mb"])       # one observation has no variance
  if name in EXACT:
    # in turn: thinning, adaptive step size, neither
    p["sel"] = g.randint(1, free) if j % 3 == 0 else None
    if j % 3 == 1:
      p["adaptive"] = {"stabilization_constant": g.choice([10, 30]), "decay_constant": g.choice([0.75, 0.5]),
                       "speed_constant": g.choice([0.5, 1.0]), "target_acceptance_rate": g.choice([0.2, 0.7])}
  else:
    p["sel"] = g.choice([free, g.randint(1, free), g.randint(1, free)])
  return p


# the documented defaults
STEPS = {"first": 0.05, "last": 0.001, "B": 0}
ADAPTIVE = {"stabilization_constant": 10, "decay_constant": 0.75, "speed_constant": 0.05,
            "target_acceptance_rate": 0.25}
DEFAULTS = {"sgld": STEPS, "rms": dict(STEPS, alpha=0.9, lmbd=1e-5), "re_sgld": dict(STEPS, temp=1000.0),
            "amagold": {"first": 0.001, "last": 0.001, "B": 0, "steps": 10, "friction": 0.25, "mass": False},
            "sggmc": {"first": 0.001, "last": 0.001, "B": 0, "steps": 10, "friction": 1.0, "mass": False},
            "sghmc": dict(STEPS, steps=10, friction=1.0, mass=False),
            "noise": dict(STEPS, steps=10, friction=1.0, mass=False),
            "obabo": dict(STEPS, steps=10, friction=1.0, mass=False)}


def leave_out(g, p):
  """Some arguments are left at their defaults."""
  have = DEFAULTS[p["solver"]]
  out = [k for k in sorted(have) if g.random() < 0.5]
  if "first" in out and "last" not in out:
    p["first"] = have["first"]
    p["last"] = have["first"] / p["ratio"]
  for k in out:
    p[k] = have[k]
  if "last" in out and "first" not in out:
    p["first"] = max(p["first"], have["last"])
  if p["adaptive"]:
    for k in sorted(p["adaptive"]):
      if g.random() < 0.5:
        out.append(k)
        p["adaptive"][k] = ADAPTIVE[k]
  if p["sel"] is not None:
    p["sel"] = min(p["sel"], p["N"] - p["B"])
  p["default"] = out


def gen(rng, solvers, i, group, turn):
  """The runs of a group share some problems, 4 runs each; solvers, and for each
  of them the kinds of schedules, take turns over the groups."""
  g = rng.group
  probs = []
  for j in range(group // 4):
    a, b = divmod(turn * (group // 4) + j, len(solvers))
    probs.append(gen_problem(g, solvers[b], a + b))
    if (a + b) % 2:
      leave_out(g, probs[-1])
  k = i % group // 4
  # programs with an adaption are compiled again for every chain
  many = probs[k]["solver"] not in ("rms", "noise")
  calls = [[rng.getrandbits(20) for _ in range(rng.choice([1, 2, 2]) if many else 1)]
           for _ in range(rng.choice([1, 1, 2]) if many else 1)]
  faults = [{"site": "loader:%d" % rng.randrange(6), "n": rng.randint(0, 8), "kind": "slow"}
            for _ in range(rng.choice([0, 0, 1, 3]))]
  return {"wiring": True, "problem": probs[k], "calls": calls, "faults": faults,
          "sched": lib.sched(rng, targets=["run0", "recvrun0"], line=0.1, async_p=0.6)}


def potentials(p):
  from jax_sgmc import potential
  jnp = jx().numpy
  n = p["n"]
  def loglik(sample, obs):
    z = obs["x"] / n - 0.5
    pred = sample["w"][0] + sample["w"][1] * z
    return -0.5 * (jnp.sin(3.0 * obs["x"]) - pred) ** 2 * jnp.exp(-sample["s"]) - 0.5 * sample["s"]
  def prior(sample):
    return -0.5 * jnp.sum(sample["w"] ** 2) - 0.5 * sample["s"] ** 2
  if p["state"]:
    likelihood = lambda state, sample, obs: (loglik(sample, obs) + 0.01 * jnp.cos(state), state + 1.0)
  else:
    likelihood = loglik
  kw = {"strategy": "map", "has_state": p["state"]}
  return (potential.minibatch_potential(prior, likelihood, **kw),
          potential.full_potential(prior, likelihood, **kw))


def start(seed):
  jnp = jx().numpy
  x = np.asarray(np.random.default_rng(seed).normal(size=3), np.float32) * 0.5
  return {"w": jnp.asarray(x[:2]), "s": jnp.asarray(x[2])}


def ready(p, seeds, nudge=0.0):
  out = []
  for s in seeds:
    x = start(s)
    if nudge:
      x = {"w": x["w"] + np.float32(nudge), "s": x["s"] * np.float32(1 + nudge)}
    out.append((x, start(s + 1)) if p["solver"] == "re_sgld" else x)
  return out


def model_state(p):
  return jx().numpy.array(0.0) if p["state"] else None


def alias_run(p, loader):
  from jax_sgmc import alias
  pot, full = potentials(p)
  name = p["solver"]
  kw = {"cache_size": p["cache"], "batch_size": p["mb"], "first_step_size": p["first"],
        "last_step_size": p["last"], "burn_in": p["B"], "accepted_samples": p["sel"],
        "save_to_numpy": p["numpy"], "progress_bar": p["bar"]}
  if name in ("sgld", "rms"):
    kw.update(rms_prop=name == "rms", alpha=p["alpha"], lmbd=p["lmbd"])
  elif name == "re_sgld":
    kw["temperature"] = p["temp"]
  else:
    kw["integration_steps"] = p["steps"]
    kw["friction_coefficient" if name == "sggmc" else "friction"] = p["friction"]
    if p["mass"]:
      kw["mass"] = MASS
  if name == "noise":
    kw.update(adapt_noise_model=True, diagonal_noise=True)
  pots = (pot,)
  if name in EXACT:
    pots = (pot, full)
    kw["adaptive_step_size"] = p["adaptive"] is not None
    kw.update(p["adaptive"] or {})
  names = {"first": "first_step_size", "last": "last_step_size", "B": "burn_in", "steps": "integration_steps",
           "temp": "temperature",
           "friction": "friction_coefficient" if name == "sggmc" else "friction"}
  for k in p["default"]:
    kw.pop(names.get(k, k), None)
  run = getattr(alias, {"rms": "sgld", "noise": "sghmc"}.get(name, name))(*pots, loader, **kw)
  def go(init):
    return run(*init, init_model_state=model_state(p), iterations=p["N"])
  return go


def by_hand(p, loader):
  """The documented combination, keeping every iteration."""
  from jax_sgmc import adaption, data, integrator, scheduler, solver
  pot, full = potentials(p)
  name = p["solver"]
  batch = data.random_reference_data(loader, p["cache"], p["mb"])
  mass = MASS if p["mass"] else None
  init_kw = {"init_model_state": model_state(p)}
  run_kw, sch_kw = {}, {}
  if name in ("sgld", "rms", "re_sgld"):
    lang = integrator.langevin_diffusion(
      pot, batch, adaption=adaption.rms_prop() if name == "rms" else None)
    if name == "re_sgld":
      sampler = solver.parallel_tempering(lang)
      sch_kw["temperature"] = scheduler.constant_temperature(1.0)
      run_kw["schedulers"] = [{"temperature": {"tau": p["temp"]}}]
    else:
      sampler = solver.sgmc(lang)
    if name == "rms":
      init_kw["adaption_kwargs"] = {"alpha": p["alpha"], "lmbd": p["lmbd"]}
  elif name in ("sghmc", "noise"):
    noise = None
    if name == "noise":
      noise = adaption.fisher_information(minibatch_potential=pot, diagonal=True)
    sampler = solver.sgmc(integrator.friction_leapfrog(
      pot, batch, steps=p["steps"], friction=p["friction"], const_mass=mass, noise_model=noise))
  elif name == "obabo":
    sampler = solver.sgmc(integrator.obabo(pot, batch, steps=p["steps"], friction=p["friction"],
                                           const_mass=mass))
  else:
    fmap = data.full_reference_data(loader, p["cache"], p["mb"])
    if name == "sggmc":
      sampler = solver.sggmc(integrator.obabo(
        pot, batch, steps=p["steps"], friction=p["friction"], const_mass=mass), full, fmap)
    else:
      sampler = solver.amagold(integrator.reversible_leapfrog(
        pot, batch, steps=p["steps"], friction=p["friction"], const_mass=mass), full, fmap)
  if p["adaptive"] is not None:
    step = scheduler.adaptive_step_size(burn_in=p["B"], initial_step_size=p["first"], **p["adaptive"])
  else:
    step = scheduler.polynomial_step_size_first_last(first=p["first"], last=p["last"])
  sch = scheduler.init_scheduler(step_size=step, progress_bar=False, **sch_kw)
  run = solver.mcmc(sampler, sch, strategy="map", saving=None)
  def go(init):
    states = [sampler[0](*(x if isinstance(x, tuple) else (x,)), **init_kw) for x in init]
    return run(*states, iterations=p["N"], **run_kw)
  return go


def program(p, kind, dev):
  def build():
    loader = lib.proxy_class()(lib.np_loader(p["n"], 0))
    return {"loader": loader, "go": (alias_run if kind == "alias" else by_hand)(p, loader), "warm": False}
  prog = rig(("wiring", kind, str(dev), json.dumps(p, sort_keys=True)), build)
  if not prog["warm"]:
    prog["warm"] = True
    alone(prog, p, [0], dev)
  return prog


def host(out):
  return jx().tree_util.tree_map(np.asarray, out)


def alone(prog, p, seeds, dev, nudge=0.0):
  with jx().default_device(dev):
    prog["loader"].bind(lib.np_loader(p["n"], 0))
    out = host(prog["go"](lib.local(ready(p, seeds, nudge), dev)))
    lib.settle()
  return out


def rows(out):
  v = out["samples"]["variables"]
  return np.concatenate([np.asarray(v["w"], float).reshape(len(v["w"]), -1),
                         np.asarray(v["s"], float).reshape(len(v["s"]), -1)], axis=1)


def apart(a, b):
  with np.errstate(all="ignore"):
    d = np.abs(a - b) / (1 + np.minimum(np.abs(a), np.abs(b)))
  same = (a == b) | (np.isnan(a) & np.isnan(b))
  d = np.where(same, 0.0, np.where(np.isnan(d), np.inf, d))
  return d.max(axis=-1)


def run(plan, ctx):
  dev = jx().devices()[0]
  p, calls = plan["problem"], plan["calls"]
  prog, hand = program(p, "alias", dev), program(p, "hand", dev)
  # chains of all calls share one loader, whose default seeds number them
  seeds = [s for call in calls for s in call]
  path = [rows(o) for o in alone(hand, p, seeds, dev)]
  prog["loader"].bind(lib.np_loader(p["n"], 0))
  with jx().default_device(dev):
    init = [lib.local(ready(p, call), dev) for call in calls]
  got = []
  def go():
    for x in init:
      got.append(host(prog["go"](x)))
  sim = ctx.simulate([("run0", go)])
  require(not sim.tap_errors, "tap-error", "a callback failed: %s", sim.tap_errors[:1])
  flat = []
  for call, out in zip(calls, got):
    require(len(out) == len(call), "chains", "%s returned %d results for %d chains",
            p["solver"], len(out), len(call))
    flat.extend(out)
  want = p["sel"] if p["sel"] is not None else p["N"] - p["B"]
  tol = None
  for c, out in enumerate(flat):
    ctx.note("alias_chains")
    who = "alias %s %s, chain %d" % (p["solver"], json.dumps(p, sort_keys=True), c)
    have = rows(out)
    require(len(have) == want, "count", "%s: %d samples, announced %d", who, len(have), want)
    kept = path[c][p["B"]:]
    if follows(have, kept, np.zeros(len(kept))) is None:
      ctx.note("alias_bitwise")
      continue
    if tol is None:
      # how far apart do rounding differences bring the trajectories?
      near = [[rows(o) for o in alone(hand, p, seeds, dev, x)] for x in (3e-6, -3e-6, 1e-6)]
      tol = [np.maximum(1e-4, 30 * np.max([apart(path[j], s[j]) for s in near], axis=0))
             for j in range(len(flat))]
    bad = follows(have, kept, tol[c][p["B"]:])
    require(bad is None, "wiring", "%s: sample %s (%s) is not in the trajectory of the documented "
            "parts after burn-in: %s", who, bad, have[bad].tolist() if bad is not None else None,
            np.round(kept, 5).tolist()[:14])
  ctx.nontrivial = True


def follows(have, path, tol):
  """The first row which is not a later row of the path, or None."""
  at = 0
  for i, row in enumerate(have):
    while at < len(path) and not apart(row, path[at]) <= tol[at]:
      at += 1
    if at == len(path):
      return i
    at += 1
  return None
