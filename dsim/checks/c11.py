"""C11: results depend only on the chain's own inputs and seeds.

The same chain is run alone on a plain set-up and, inside the simulation, by other
set-ups of the same solver (saving back end, cache size, progress bar, execution
strategy), together with other chains before, after and concurrently, while callbacks
are late and reads are slow.  Its samples must be the same.
"""
import json

import numpy as np

from dsim import lib, saving
from dsim.core import require, rig
from dsim.lib import jx

GROUP = 4
EXACT = ("amagold", "sggmc")


# every sampler comes up in a quick run: one group each, in turn
ROTA = [("alias", "sgld"), ("mcmc", "langevin"), ("alias", "amagold"), ("mcmc", "sggmc"),
        ("alias", "re_sgld"), ("mcmc", "obabo"), ("alias", "sghmc"), ("mcmc", "friction"),
        ("alias", "rms"), ("mcmc", "amagold"), ("alias", "sggmc"), ("mcmc", "langevin"),
        ("alias", "obabo"), ("alias", "noise")]


def gen_problem(g, turn):
  fam, solver = ROTA[turn % len(ROTA)]
  p = {"fam": fam, "n": g.choice([5, 8, 13]), "mb": g.choice([1, 2, 3, 5]),
       "N": g.choice([3, 5, 9, 14]), "B": g.choice([0, 1, 2]), "steps": g.choice([1, 2, 3]),
       "sel": g.choice([None, 1, 3]), "pot": g.choice(["vmap", "map"]),
       "adaptive": False, "mass": g.random() < 0.3, "solver": solver}
  if fam == "alias":
    p["host"] = True
  else:
    p["host"] = g.random() < 0.6
  if p["solver"] == "noise":
    p["mb"] = max(2, p["mb"])       # one observation has no variance
  if p["solver"] in EXACT and g.random() < 0.4:
    p["adaptive"] = True
    p["sel"] = None
  if p["sel"] is None and fam == "alias" and p["solver"] not in EXACT:
    p["sel"] = p["N"] - p["B"]
  if p["sel"] is not None:
    p["sel"] = min(p["sel"], p["N"] - p["B"])
  return p


def gen_variant(g, p):
  v = {"cache": g.choice([1, 2, 3, 7, 40]), "bar": g.random() < 0.5, "slots": [1, 1, 1],
       "saving": g.choice(["none", "memory"]) if p["fam"] == "alias" else
                 g.choice(["none", "memory", "json", "hdf5"]), "strategy": "map"}
  if p["fam"] == "mcmc":
    v["strategy"] = g.choice(["map", "map", "pmap"] if p["host"] else ["map", "vmap", "pmap"])
  v.pop("slots")
  return v


PLAIN = {"cache": 5, "bar": False, "saving": "none", "strategy": "map"}


def gen(rng, tier, i):
  g = rng.group
  p = gen_problem(g, i // GROUP)
  pal = [PLAIN, gen_variant(g, p), gen_variant(g, p)]
  pool = [{"x": rng.getrandbits(20), "key": rng.getrandbits(20), "seed": rng.randrange(1000),
           "shuffle": rng.random() < 0.3} for _ in range(rng.randint(1, 4))]
  tasks = []
  left = 2 if p["solver"] == "rms" else 4       # its programs are compiled for every chain
  for k in rng.sample(range(3), rng.choice([1, 2, 2, 3])):
    strategy = pal[k]["strategy"]
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3]) if strategy == "map" else 1):
      # mapped programs are compiled for every number of chains
      m = min(rng.choice([1, 2, 2, 3]), left) if strategy == "map" else 2
      left = max(left - m, 1)
      calls.append([rng.randrange(len(pool)) for _ in range(m)])
    tasks.append({"var": k, "calls": calls})
  mapped = [t for t in tasks if pal[t["var"]]["strategy"] == "pmap"]
  if p["host"] and mapped:
    # its replicas run outside of the simulator and must not wait for a task
    tasks = mapped[:1]
  faults = []
  if p["host"] and rng.random() < 0.5:
    for _ in range(rng.randint(1, 3)):
      faults.append({"site": "loader:%d" % rng.randrange(6), "n": rng.randint(0, 8),
                     "kind": "slow"})
  # the same problem with other data, set up again after everything else has been dropped
  renew = rng.getrandbits(10) if p["host"] and p["solver"] != "rms" and i % GROUP == 3 else None
  return {"problem": p, "renew": renew, "again": rng.random() < 0.3, "pal": pal, "pool": pool, "tasks": tasks, "faults": faults,
          "sched": lib.sched(rng, targets=["run0", "run1", "recvrun0", "recvrun1"], line=0.1,
                             async_p=0.6)}


# -- the programs -------------------------------------------------------------------

def potentials(p):
  from jax_sgmc import potential
  jnp = jx().numpy
  n = p["n"]
  def likelihood(sample, obs):
    z = jnp.mod(obs["x"], n) / n - 0.5
    pred = sample["w"][0] + sample["w"][1] * z
    return -0.5 * (jnp.sin(3.0 * obs["x"]) - pred) ** 2 * jnp.exp(-sample["s"]) - 0.5 * sample["s"]
  def prior(sample):
    return -0.5 * jnp.sum(sample["w"] ** 2) - 0.5 * sample["s"] ** 2
  return (potential.minibatch_potential(prior, likelihood, strategy=p["pot"]),
          potential.full_potential(prior, likelihood, strategy=p["pot"]))


def start(c):
  jnp = jx().numpy
  x = np.asarray(np.random.default_rng(c["x"]).normal(size=3), np.float32) * 0.5
  return {"w": jnp.asarray(x[:2]), "s": jnp.asarray(x[2])}


MASS = {"w": np.array([1.0, 2.0], np.float32), "s": np.float32(0.7)}
FIRST, LAST = 0.05, 0.02


def alias_program(p, v, loader):
  from jax_sgmc import alias
  pot, full = potentials(p)
  name = p["solver"]
  kw = {"cache_size": v["cache"], "batch_size": p["mb"], "first_step_size": FIRST,
        "last_step_size": LAST, "burn_in": p["B"], "accepted_samples": p["sel"],
        "save_to_numpy": v["saving"] == "memory", "progress_bar": v["bar"]}
  make = {"rms": "sgld", "noise": "sghmc"}.get(name, name)
  if name == "rms":
    kw["rms_prop"] = True
  if name == "noise":
    kw["adapt_noise_model"] = True
  if name == "re_sgld":
    kw["temperature"] = 4.0
  if name not in ("sgld", "rms", "re_sgld"):
    kw["integration_steps"] = p["steps"]
    if p["mass"]:
      kw["mass"] = MASS
  pots = (pot, full) if name in EXACT else (pot,)
  if name in EXACT:
    kw["adaptive_step_size"] = p["adaptive"]
  run = getattr(alias, make)(*pots, loader, **kw)
  def ready(chains):
    return [(start(c), start(dict(c, x=c["x"] + 1))) if name == "re_sgld" else start(c)
            for c in chains]
  def go(init):
    out = run(*init, init_model_state=None, iterations=p["N"])
    return [o["samples"]["variables"] for o in out]
  return ready, go


def mcmc_program(p, v, loader, forward):
  from jax_sgmc import data, integrator, io, scheduler, solver
  jax = jx()
  pot, full = potentials(p)
  cache = v["cache"] if p["host"] else 1
  batch = data.random_reference_data(loader, cache, p["mb"])
  kw = {"const_mass": MASS if p["mass"] else None}
  name = p["solver"]
  if name == "langevin":
    sampler = solver.sgmc(integrator.langevin_diffusion(pot, batch))
  elif name == "friction":
    sampler = solver.sgmc(integrator.friction_leapfrog(pot, batch, steps=p["steps"], friction=0.5, **kw))
  elif name == "obabo":
    sampler = solver.sgmc(integrator.obabo(pot, batch, p["steps"], 0.5, **kw))
  else:
    fmap = data.full_reference_data(loader, cache, p["mb"])
    if name == "sggmc":
      sampler = solver.sggmc(integrator.obabo(pot, batch, p["steps"], 0.5, **kw), full, fmap)
    else:
      sampler = solver.amagold(
        integrator.reversible_leapfrog(pot, batch, p["steps"], 0.5, **kw), full, fmap)
  burn = scheduler.initial_burn_in(p["B"])
  if p["adaptive"]:
    step, thin = scheduler.adaptive_step_size(burn_in=p["B"], initial_step_size=FIRST), None
  else:
    step = scheduler.polynomial_step_size_first_last(first=FIRST, last=LAST)
    thin = None if p["sel"] is None else scheduler.random_thinning(step, burn, p["sel"])
  sch = scheduler.init_scheduler(step_size=step, burn_in=burn, thinning=thin, progress_bar=v["bar"])
  run = solver.mcmc(sampler, sch, strategy=v["strategy"],
                    saving=None if v["saving"] == "none" else io.save(forward))
  def ready(chains):
    states = []
    for c in chains:
      bk = {"seed": c["seed"]}
      if p["host"]:
        bk["shuffle"] = c["shuffle"]
      states.append(sampler[0](start(c), key=jax.random.PRNGKey(c["key"]), batch_kwargs=bk,
                               init_model_state=None))
    return states
  def go(states):
    first = len(forward.calls or [])
    out = run(*states, iterations=p["N"])
    if v["saving"] in ("none", "memory"):
      got = [o["samples"]["variables"] for o in out]
    else:
      ids = [x[1] for x in forward.calls[first:] if x[0] == "register"]
      got = []
      for i in ids:
        rows = [x[2] for x in forward.calls if x[0] == "save" and x[1] == i]
        # leaves in the order of the tree: likelihood, variables (s, w)
        got.append({"s": np.array([r[-2] for r in rows]).reshape((len(rows),)),
                    "w": np.array([r[-1] for r in rows]).reshape((len(rows), 2))})
    return got
  return ready, go


def program(p, v, slot, data=None):
  def build():
    from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
    if data is not None:
      loader = data
    elif p["host"]:
      loader = lib.proxy_class()(lib.np_loader(p["n"], 0))
    else:
      loader = DeviceNumpyDataLoader(**lib.dataset(p["n"], 0))
    forward = saving.collector_class()
    if p["fam"] == "alias":
      ready, go = alias_program(p, v, loader)
    else:
      ready, go = mcmc_program(p, v, loader, forward)
    return {"loader": loader, "ready": ready, "go": go, "forward": forward, "warm": []}
  if data is not None:
    return build()
  return rig(("c11", slot, json.dumps([p, v], sort_keys=True)), build)


def host(tree):
  jax = jx()
  return jax.tree_util.tree_map(np.asarray, tree)


def renewed(plan, ctx, plain, dev):
  """New set-ups, one after the other, with other data than before."""
  import gc
  p, v = plan["problem"], plan["pal"][1]
  if v["strategy"] != "map":
    v = PLAIN
  chains = plan["pool"][:1]
  for k in range(2):
    offset = 1 + plan["renew"] + 50 * k
    want = alone(plain, p, chains, dev, offset=offset)[0]
    with jx().default_device(dev):
      prog = program(p, v, 0, data=lib.np_loader(p["n"], 0, offset))
      if p["fam"] == "mcmc":
        prog["forward"].bind(saving.Store({"type": v["saving"]}, ctx).collector)
      have = host(prog["go"](lib.local(prog["ready"](chains), dev)))[0]
      lib.settle()
    del prog
    gc.collect()
    require(same_shapes(want, have), "differs", "new set-up %s: samples %s, alone %s",
            json.dumps(v), show(have), show(want))
    err = distance(want, have)
    if err > 1e-4:
      spread = [alone(plain, p, chains, dev, x, offset)[0] for x in (3e-6, -3e-6, 1e-6, -1e-6)]
      near = max(distance(want, s) if same_shapes(want, s) else np.inf for s in spread)
      require(err <= 30 * near, "differs", "new set-up %s: samples %s, alone %s (%g apart)",
              json.dumps(v), show(have), show(want), err)
    ctx.note("renewed")


def alone(prog, p, chains, dev, nudge=0.0, offset=0):
  """Samples of these chains, run by this program, outside of the simulation."""
  jax = jx()
  with jax.default_device(dev):
    if p["host"]:
      prog["loader"].bind(lib.np_loader(p["n"], 0, offset))
    states = prog["ready"](chains)
    if nudge:
      bump = lambda s: {"w": s["w"] + np.float32(nudge), "s": s["s"] * np.float32(1 + nudge)}
      if p["fam"] == "alias":
        states = [tuple(bump(x) for x in s) if isinstance(s, tuple) else bump(s) for s in states]
      else:
        states = [_moved(s, bump) for s in states]
    out = host(prog["go"](lib.local(states, dev)))
    lib.settle()
  return out


def _moved(state, bump):
  if hasattr(state, "_fields"):
    for name in ("latent_variables", "positions"):
      if name in state._fields:
        return state._replace(**{name: bump(getattr(state, name))})
    return type(state)(*[_moved(x, bump) for x in state])
  if isinstance(state, tuple):
    return tuple(_moved(x, bump) for x in state)
  return state


def run(plan, ctx):
  jax = jx()
  devs = jax.devices()
  p, pool = plan["problem"], plan["pool"]
  host_data = p["host"]
  plain = program_on(p, PLAIN, 0, devs[0], ctx)
  progs = [program_on(p, plan["pal"][t["var"]], t["var"], devs[k], ctx)
           for k, t in enumerate(plan["tasks"])]

  # what every chain returns if nothing else happens
  def reference(nudge=0.0):
    ref = {}
    if p["fam"] == "mcmc":
      for i in sorted({i for t in plan["tasks"] for call in t["calls"] for i in call}):
        ref[i] = alone(plain, p, [pool[i]], devs[0], nudge)[0]
    else:
      # the default seeds number the chains of a loader: run the chains of all calls
      for k, t in enumerate(plan["tasks"]):
        out = iter(alone(plain, p, [pool[i] for call in t["calls"] for i in call], devs[0], nudge))
        for c, call in enumerate(t["calls"]):
          for j in range(len(call)):
            ref[k, c, j] = next(out)
    return ref
  ref = reference()

  shared = lib.np_loader(p["n"], 0) if host_data else None
  states = []
  for k, t in enumerate(plan["tasks"]):
    prog, v = progs[k], plan["pal"][t["var"]]
    if host_data:
      prog["loader"].bind(shared if p["fam"] == "mcmc" else lib.np_loader(p["n"], 0))
    if p["fam"] == "mcmc":
      prog["forward"].bind(saving.Store({"type": v["saving"]}, ctx).collector)
    mine = []
    with jax.default_device(devs[k]):
      for call in t["calls"]:
        mine.append(lib.local(prog["ready"]([pool[i] for i in call]), devs[k]))
    states.append(mine)
  got = [[] for _ in states]

  def body(k):
    def go():
      for st in states[k]:
        got[k].append(host(progs[k]["go"](st)))
    return go
  sim = ctx.simulate([("run%d" % k, body(k)) for k in range(len(progs))])
  require(not sim.tap_errors, "tap-error", "a callback failed: %s", sim.tap_errors[:1])
  again = reference() if plan["again"] else ref
  for key, r in ref.items():
    require(lib.same_tree(r, again[key]), "repetition", "the plain run of chain %s returned other "
            "samples when it was repeated after the other runs: %s, before: %s", key,
            show(again[key]), show(r))
  spread = []
  unstable = 0
  for k, t in enumerate(plan["tasks"]):
    v = plan["pal"][t["var"]]
    for c, call in enumerate(t["calls"]):
      require(len(got[k][c]) == len(call), "chains", "%d results for %d chains", len(got[k][c]),
              len(call))
      for j, i in enumerate(call):
        key = i if p["fam"] == "mcmc" else (k, c, j)
        want, have = ref[key], got[k][c][j]
        what = "chain %s, run as %s in call %d of run %d" % (json.dumps(pool[i]), json.dumps(v), c, k)
        ctx.note("chains")
        if t["var"] == 0:
          require(lib.same_tree(want, have), "differs", "%s: samples %s, alone %s", what, show(have),
                  show(want))
          continue
        if lib.same_tree(want, have):
          ctx.note("bitwise")
          continue
        require(same_shapes(want, have), "differs", "%s: samples %s, alone %s", what, show(have),
                show(want))
        err = distance(want, have)
        if err <= 1e-4:
          ctx.note("rounding")
          continue
        # decided differently by rounding?  The plain run shows how sensitive it is
        if not spread:
          spread.extend(reference(x) for x in (3e-6, -3e-6, 1e-6, -1e-6))
        near = max(distance(want, s[key]) if same_shapes(want, s[key]) else np.inf for s in spread)
        if err <= 30 * near:
          unstable += 1
          continue
        require(False, "differs", "%s: samples %s, alone %s (%g apart)", what, show(have), show(want),
                err)
  if plan.get("renew") is not None:
    renewed(plan, ctx, plain, devs[0])
  if unstable:
    ctx.note("undecided_by_rounding", unstable)
  ctx.nontrivial = len(plan["tasks"]) > 1 or sum(len(c) for t in plan["tasks"] for c in t["calls"]) > 1


def program_on(p, v, slot, dev, ctx):
  jax = jx()
  with jax.default_device(dev):
    prog = program(p, v, "%d/%s" % (slot, dev))
  if not prog["warm"]:
    prog["warm"].append(1)
    if p["fam"] == "mcmc":
      prog["forward"].bind(saving.Store({"type": v["saving"]}, ctx).collector)
    c = {"x": 0, "key": 0, "seed": 0, "shuffle": False}
    alone(prog, p, [c] * (1 if v["strategy"] == "map" else 2), dev)
  return prog


def same_shapes(a, b):
  la, lb = jx().tree_util.tree_leaves(a), jx().tree_util.tree_leaves(b)
  return len(la) == len(lb) and all(np.shape(x) == np.shape(y) for x, y in zip(la, lb))


def distance(a, b):
  """Largest deviation relative to the size of the values."""
  worst = 0.0
  for x, y in zip(jx().tree_util.tree_leaves(a), jx().tree_util.tree_leaves(b)):
    x, y = np.asarray(x, float), np.asarray(y, float)
    if not x.size:
      continue
    ok = (x == y) | (np.isnan(x) & np.isnan(y))
    d = np.where(ok, 0.0, np.abs(x - y) / (1 + np.minimum(np.abs(x), np.abs(y))))
    d = np.where(np.isnan(d), np.inf, d)
    worst = max(worst, float(d.max()))
  return worst


def show(t):
  return {k: np.asarray(v).reshape(-1)[:6].tolist() for k, v in t.items()}
