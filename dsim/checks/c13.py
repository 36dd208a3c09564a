"""C13: Metropolis-Hastings steps accept and reject consistently.

Two kinds of chains: "script" chains run the real solver on an integrator whose
proposals and energies are dictated by the plan (ties, overflow, infinite and undefined
energies at any step), so every decision and every part of the state can be decided;
"real" chains run the shipped integrators, potentials and host loaders with trajectories
that diverge at random steps.
"""
import json
import math

import numpy as np

from dsim import lib, wiring
from dsim.core import require, rig
from dsim.lib import jx

GROUP = 40


def gen_prog(g, j):
  """The first two programs are scripts that adapt a mass, one for each solver."""
  solver = ("amagold", "sggmc")[j] if j < 2 else g.choice(["amagold", "sggmc"])
  if j < 3:
    return {"kind": "script", "solver": solver, "T": g.choice([40, 120, 250]),
            "K": g.choice([1, 1, 8, 16]), "mass": j < 2, "scan": g.random() < 0.7}
  return {"kind": "real", "solver": solver, "n": g.choice([5, 8, 13]), "mb": g.choice([1, 2, 3]),
          "cache": g.choice([1, 2, 5]), "steps": g.choice([1, 3, 5]), "mass": g.random() < 0.3,
          "strategy": g.choice(["map", "vmap"])}


def gen_census(solver):
  """Many decisions at once, to measure the acceptance probability."""
  return {"kind": "script", "solver": solver, "T": 2000, "K": 96, "mass": False, "scan": True,
          "census": True}


def gen(rng, tier, i):
  if i // GROUP % 6 in (2, 4):
    return wiring.gen(rng, wiring.EXACT, i, GROUP, i // GROUP // 3)
  g = rng.group
  census = i // GROUP % 6 == 1
  pal = [gen_census(s) for s in ("amagold", "sggmc")] if census else [gen_prog(g, j) for j in range(4)]
  tasks = []
  for k in range(2 if census else rng.choice([1, 2, 2, 3])):
    j = k if census else rng.randrange(len(pal))
    t = {"prog": j, "key": rng.getrandbits(30), "temp": rng.choice([1.0, 1.0, 0.5, 4.0])}
    if pal[j]["kind"] == "script":
      t["script"] = rng.getrandbits(30)
      t["wild"] = rng.choice([0.0, 0.05, 0.3])
      t["spread"] = rng.choice([0.3, 1.0, 3.0, 30.0])
    else:
      t["calls"] = [rng.choice([0.01, 0.05, 0.1, 0.1, 0.3, 3.0, 1e3, 1e12, 1e25])
                    for _ in range(rng.randint(4, 12))]
      t["far"] = rng.random() < 0.1
    tasks.append(t)
  faults = []
  if rng.random() < 0.4:
    for _ in range(rng.randint(1, 3)):
      faults.append({"site": "loader:%d" % rng.randrange(2 * len(tasks)), "n": rng.randint(0, 12),
                     "kind": "slow"})
  return {"pal": pal, "tasks": tasks, "faults": faults,
          "sched": lib.sched(rng, targets=["c0", "c1"], line=0.15)}


# -- scripted proposals --------------------------------------------------------------

def script_of(p, t):
  """Energies of all proposals, [K, T(+1)]."""
  rng = np.random.default_rng(t["script"])
  K, T = p["K"], p["T"]
  s = t["spread"]
  U = rng.normal(size=(K, T + 1)) * s
  drift = rng.choice([0.0, 0.0, 0.02])
  U = U + drift * np.arange(T + 1)
  P = rng.normal(size=(K, T)) * 0.3 * s
  ks = rng.gamma(2.0, 0.5, size=(K, T)) * s
  ke = rng.gamma(2.0, 0.5, size=(K, T)) * s
  wild = rng.random((K, T)) < t["wild"]
  kind = rng.integers(0, 8, size=(K, T))
  for k in range(K):
    for i in range(T):
      if not wild[k, i]:
        continue
      w = kind[k, i]
      if w == 0:
        U[k, i + 1] = np.nan
      elif w == 1:
        U[k, i + 1] = np.inf
      elif w == 2:
        P[k, i] = np.nan
        ke[k, i] = np.nan
      elif w == 3:
        ke[k, i] = np.inf
        P[k, i] = -np.inf
      elif w == 4:
        U[k, i + 1] = 3e38
      elif w == 5:                      # the same energy as the last proposal
        U[k, i + 1] = U[k, i] if np.isfinite(U[k, i]) else 0.0
        P[k, i] = 0.0
        ke[k, i] = ks[k, i]
      elif w == 6:
        U[k, i + 1] = -1e30
      else:
        U[k, i + 1] = 1e4
  if rng.random() < 0.15:
    U[:, 0] = np.inf
  f = lambda x: x.astype(np.float32)
  return f(U), f(P), f(ks), f(ke)


def script_program(p, slot):
  def build():
    from jax_sgmc import integrator, scheduler, solver
    jax = jx()
    jnp = jax.numpy
    ama = p["solver"] == "amagold"
    def make(tables):
      U, P, ks, ke = tables
      def init(sample, key=None, mass=None, init_model_state=None, **kw):
        m = jnp.float32(7.0) if mass is None else mass
        state = {"positions": sample, "momentum": {"q": jnp.float32(5.0), "in": m},
                 "key": key, "model_state": init_model_state, "potential": jnp.float32(0.0),
                 "data_state": {"i": jnp.int32(0), "z": jnp.float32(0.0)}}
        if ama:
          return integrator.LeapfrogState(**state)
        return integrator.ObaboState(kinetic_energy_start=jnp.float32(0.0),
                                     kinetic_energy_end=jnp.float32(0.0), **state)
      def update(state, schedule, mass=None):
        i = state.data_state["i"]
        key, split = jax.random.split(state.key)
        z = jax.random.normal(split)
        m = jnp.float32(-1.0) if mass is None else mass
        new = {"positions": {"id": (i + 1).astype(jnp.float32), "par": state.positions["id"],
                             "mass": jnp.stack([m, m])},
               "momentum": {"q": 1000.0 + i + 1, "in": state.momentum["q"]},
               "key": key, "potential": P[i],
               "model_state": {"n": state.model_state["n"] + 1, "src": i + 1},
               "data_state": {"i": i + 1, "z": z}}
        if ama:
          return integrator.LeapfrogState(**new)
        return integrator.ObaboState(kinetic_energy_start=ks[i], kinetic_energy_end=ke[i], **new)
      def get(state):
        return {"variables": state.positions, "model_state": state.model_state}
      def full(sample, data_state, data_map, state=None):
        new = {"n": state["n"] + 1000, "src": state["src"]}
        return U[sample["id"].astype(jnp.int32)], (data_state + 1, new)
      mass = None
      if p["mass"]:
        mass = (lambda sample, initial: {"n": jnp.int32(0), "seen": initial},
                lambda st, sample: {"n": st["n"] + 1, "seen": sample["id"]},
                lambda st: st["n"] * 10000.0 + st["seen"])
      data_map = (lambda **kw: jnp.int32(0), lambda *a, **k: None, lambda: None)
      return getattr(solver, p["solver"])((init, update, get), full, data_map, mass_adaption=mass)

    def start(tables, key):
      sample = {"id": jnp.float32(0.0), "par": jnp.float32(-1.0), "mass": jnp.full((2,), -5.0)}
      kw = {"initial_mass": jnp.float32(-9.0)} if p["mass"] else {}
      return make(tables)[0](sample, key=key, **kw,
                             init_model_state={"n": jnp.int32(0), "src": jnp.int32(0)})
    def show(state, stats, got):
      s = state.integrator_state
      return {"pos": s.positions, "mom": s.momentum, "key": s.key, "ms": s.model_state,
              "ds": s.data_state, "pot": state.potential, "fds": state.full_data_state,
              "mass": state.mass_state if p["mass"] else None, "get": got,
              "ratio": stats["acceptance_ratio"] if stats else jnp.float32(0.0)}
    def step(tables, state, eps, tau):
      _, update, get = make(tables)
      sched = scheduler.schedule(eps, tau, jnp.float32(1.0), jnp.array(True))
      state, stats = update(state, sched)
      return state, show(state, stats, get(state))
    def go(tables, key, eps, tau):
      state = start(tables, key)
      first = show(state, None, make(tables)[2](state))
      if not p["scan"]:
        return first, state
      def body(state, e):
        return step(tables, state, e, tau)
      _, out = jax.lax.scan(body, state, eps)
      return first, out
    if p["K"] > 1:
      go_v = jax.vmap(go, in_axes=(0, 0, None, None))
      step_v = jax.vmap(step, in_axes=(0, 0, None, None))
    else:
      go_v, step_v = go, step
    return {"go": jax.jit(go_v), "step": jax.jit(step_v), "warm": []}
  return rig(("c13", slot, json.dumps(p, sort_keys=True)), build)


def script_task(p, t, prog):
  jax = jx()
  tables = script_of(p, t)
  K, T = p["K"], p["T"]
  eps = np.linspace(0.5, 0.1, T).astype(np.float32)
  keys = np.asarray(jax.random.split(jax.random.PRNGKey(t["key"]), K))
  if K == 1:
    tab, key = tuple(x[0] for x in tables), keys[0]
  else:
    tab, key = tables, keys
  tau = np.float32(t["temp"])
  steps = T if p["scan"] else min(T, 40)
  def call():
    first, out = prog["go"](tab, key, eps, tau)
    if not p["scan"]:
      state, rows = out, []
      for i in range(steps):
        state, row = jax.block_until_ready(prog["step"](tab, state, eps[i], tau))
        rows.append(jax.tree_util.tree_map(np.asarray, row))
      out = jax.tree_util.tree_map(lambda *x: np.stack(x, axis=1 if K > 1 else 0), *rows)
    first, out = jax.tree_util.tree_map(np.asarray, (first, out))
    if K == 1:
      first, out = jax.tree_util.tree_map(lambda x: x[None], (first, out))
    return first, out
  return call, tables, eps, steps


def decide_script(p, t, tables, eps, steps, first, out, what):
  U, P, ks, ke = tables
  ama = p["solver"] == "amagold"
  tau = t["temp"]
  err, var = [], []
  lucky = 0
  chains = range(p["K"])
  if p.get("census"):
    chains = [t["script"] % p["K"]]
  for k in chains:
    w = "%s, chain %d" % (what, k)
    pick = lambda tree, i=None: {a: (pick(b, i) if isinstance(b, dict) else
                                     (b[k] if i is None else b[k][i])) for a, b in tree.items()
                                 if b is not None}
    prev = pick(first)
    require(prev["pot"] == U[k][0] and int(prev["fds"]) == 1, "initial", "%s: %s", w, prev)
    require(prev["mom"]["in"] == (-9.0 if ama and p["mass"] else 7.0), "mass", "%s: the first momentum "
            "was drawn for the mass %s", w, prev["mom"]["in"])
    require(int(prev["ms"]["n"]) == 1000, "model-state", "%s: the integrator starts with the model "
            "state %s", w, prev["ms"])
    e_k, v_k = [], []
    n_acc = 0
    for i in range(steps):
      now = pick(out, i)
      ws = "%s, step %d" % (w, i)
      with np.errstate(all="ignore"):
        if ama:
          terms = np.array([prev["pot"], -U[k][i + 1], P[k][i]], float)
        else:
          terms = -np.array([U[k][i + 1], -prev["pot"], ke[k][i], -ks[k][i]], float) / tau
        la = terms.sum()
        fin = np.abs(terms[np.isfinite(terms)])
        tol = 1e-5 * (fin.max() if fin.size else 0.0) + 1e-6
        wide = not np.isfinite(terms.astype(np.float32).sum(dtype=np.float32)) and np.isfinite(la)
      acc = now["pos"]["id"] == i + 1
      ratio = float(now["ratio"])
      require(0.0 <= ratio <= 1.0, "ratio", "%s: acceptance ratio %s", ws, ratio)
      require(float(now["get"]["acceptance_ratio"]) == ratio, "ratio", "%s", ws)
      require(now["get"]["step_size"] == eps[i], "get", "%s: step size %s", ws, now["get"]["step_size"])
      if not wide:       # (else: the sum leaves the range of the numbers)
        want = 0.0 if math.isnan(la) else math.exp(min(0.0, la))
        require(abs(ratio - want) <= want * min(1.0, 3 * tol) + 1e-6 + (tol if tol < 1 else 1),
                "ratio", "%s: acceptance ratio %s instead of %s (energies %s)", ws, ratio, want,
                terms.tolist())
        if la - tol > 0 or (la == 0 and (terms[0] == -terms[1] or tol < 1e-6)):
          require(acc, "must-accept", "%s: rejected, energies %s", ws, terms.tolist())
        elif math.isnan(la) or la + tol < -100:
          # (a uniform number is exactly zero once in 2**23 draws)
          lucky += bool(acc and np.isfinite(la))
          require(not acc or (np.isfinite(la) and lucky == 1), "must-reject", "%s: accepted, energies %s",
                  ws, terms.tolist())
        elif tol < 1e-2 and la < -tol:
          e_k.append((i, float(acc) - want))
          v_k.append((i, want * (1 - want)))
      n_acc += acc
      require(int(now["ds"]["i"]) == i + 1, "data", "%s: data state %s", ws, now["ds"]["i"])
      require(int(now["fds"]) == i + 2, "data", "%s: state of the full data %s", ws, now["fds"])
      require(not np.array_equal(now["key"], prev["key"]), "noise", "%s: the key of the integrator "
              "was not advanced", ws)
      if p["mass"]:
        require(int(now["mass"]["n"]) == i + 1 and now["mass"]["seen"] == now["pos"]["id"], "mass",
                "%s: mass adaption %s, position %s", ws, now["mass"], now["pos"]["id"])
      if acc:
        mass = prev["mass"]["n"] * 10000.0 + prev["mass"]["seen"] if p["mass"] else -1.0
        require(np.all(now["pos"]["mass"] == np.float32(mass)), "mass", "%s: proposed with mass %s, not %s",
                ws, now["pos"]["mass"], mass)
        require(now["pos"]["par"] == prev["pos"]["id"], "position", "%s: the proposal started at %s, the "
                "chain is at %s", ws, now["pos"]["par"], prev["pos"]["id"])
        require(now["mom"]["q"] == 1001.0 + i and now["mom"]["in"] == prev["mom"]["q"], "momentum",
                "%s: accepted, momentum %s, before %s", ws, now["mom"], prev["mom"])
        require(int(now["ms"]["n"]) == int(prev["ms"]["n"]) + 1001 and int(now["ms"]["src"]) == i + 1,
                "model-state", "%s: accepted, model state %s, before %s", ws, now["ms"], prev["ms"])
        require(now["pot"] == U[k][i + 1], "potential", "%s: accepted, potential %s is not the one of "
                "the position (%s)", ws, now["pot"], U[k][i + 1])
      else:
        require(_same(now["pos"], prev["pos"]), "position", "%s: rejected, position %s, before %s", ws,
                now["pos"], prev["pos"])
        sign = -1.0
        require(all(now["mom"][f] == sign * prev["mom"][f] for f in ("q", "in")), "momentum",
                "%s: rejected, momentum %s, before %s", ws, now["mom"], prev["mom"])
        require(_same(now["ms"], prev["ms"]), "model-state", "%s: rejected, model state %s, before %s",
                ws, now["ms"], prev["ms"])
        require(now["pot"] == prev["pot"], "potential", "%s: rejected, potential %s, before %s", ws,
                now["pot"], prev["pot"])
      require(_same(now["get"]["variables"], now["pos"]) and _same(now["get"]["model_state"], now["ms"]),
              "get", "%s", ws)
      if not ama:
        require(now["get"]["potential"] == now["pot"], "get", "%s", ws)
      prev = now
    e, v = np.full(steps, np.nan), np.full(steps, np.nan)
    for (i, x), (_, y) in zip(e_k, v_k):
      e[i], v[i] = x, y
    err.append(e)
    var.append(v)
  if p.get("census"):
    return count_all(p, t, tables, steps, first, out, what)
  return np.array(err), np.array(var), out["ds"]["z"][:, :steps]


def count_all(p, t, tables, steps, first, out, what):
  """The acceptance probability as a function of the energy difference, over all chains."""
  U, P, ks, ke = [np.asarray(x, float) for x in tables]
  pot = np.concatenate([first["pot"][:, None], out["pot"]], 1).astype(float)
  with np.errstate(all="ignore"):
    if p["solver"] == "amagold":
      terms = np.stack([pot[:, :-1], -U[:, 1:], P])
    else:
      terms = -np.stack([U[:, 1:], -pot[:, :-1], ke, -ks]) / t["temp"]
    la = terms.sum(0)
    size = np.abs(np.where(np.isfinite(terms), terms, 0)).max(0)
  tol = 1e-5 * size + 1e-6
  acc = out["pos"]["id"] == np.arange(1, steps + 1)
  mid = np.isfinite(la) & (tol < 1e-2) & (la < -tol) & (la > -100)
  pr = np.exp(np.where(mid, la, 0))
  e = np.where(mid, acc - pr, np.nan)
  v = np.where(mid, pr * (1 - pr), 0)
  edges = [0.0, -0.1, -0.25, -0.5, -1.0, -1.5, -2.0, -3.0, -5.0, -100.0]
  for hi, lo in zip(edges, edges[1:]):
    m = mid & (la <= hi) & (la > lo)
    if m.any():
      require(abs(e[m].sum()) < SIG * math.sqrt(v[m].sum()) + 6, "frequency", "%s: %.1f acceptances "
              "too many among %d decisions with log acceptance probabilities from %s to %s (sigma %.2f)",
              what, e[m].sum(), m.sum(), lo, hi, math.sqrt(v[m].sum()))
  return e, v, out["ds"]["z"][:, :steps]


def _same(a, b):
  return all(np.array_equal(a[k], b[k]) for k in a)


SIG = 6.5

def random_numbers(e, v, z, what):
  """Are the decisions those of fresh uniform numbers?"""
  ok = np.isfinite(e) & (v > 1e-4)
  n = int(ok.sum())
  var = v[ok].sum()
  if n:
    require(abs(e[ok].sum()) < SIG * math.sqrt(var) + 6, "frequency", "%s: %.1f acceptances too many "
            "among %d decisions (sigma %.2f)", what, e[ok].sum(), n, math.sqrt(var))
  good = ok & (v > 0.02)
  def corr(a, b, m, va, name):
    s = math.sqrt((va * m).sum())
    if m.sum() >= 50:
      require(abs((a * b * m).sum()) < SIG * s + 3, "dependent", "%s: decisions depend on %s: "
              "%.1f (sigma %.2f) over %d", what, name, (a * b * m).sum(), s, m.sum())
  e0, v0, z0 = np.where(good, e, 0), np.where(good, v, 0), z
  for lag in range(1, 6):
    m = good[:, lag:] & good[:, :-lag]
    corr(e0[:, lag:], e0[:, :-lag], m, v0[:, lag:] * v0[:, :-lag], "those %d steps before" % lag)
  corr(e0, z0, good, v0, "the noise of the integrator")
  corr(e0[:, 1:], z0[:, :-1], good[:, 1:], v0[:, 1:], "the noise of the step before")
  corr(e0[:, :-1], z0[:, 1:], good[:, :-1], v0[:, :-1], "the noise of the next step")
  for a in range(1, min(4, len(e))):
    m = good[a:] & good[:-a]
    corr(e0[a:], e0[:-a], m, v0[a:] * v0[:-a], "those of another chain")


# -- shipped integrators -------------------------------------------------------------

def real_program(p, slot):
  def build():
    from jax_sgmc import adaption, data, integrator, potential, scheduler, solver
    jax = jx()
    jnp = jax.numpy
    loader = lib.proxy_class()(lib.np_loader(p["n"], 1))
    random_fn = data.random_reference_data(loader, p["cache"], p["mb"])
    full_fn = data.full_reference_data(loader, p["cache"], p["mb"])
    def likelihood(sample, obs):
      return -0.5 * (sample["a"] - 0.1 * obs["x"]) ** 2 - jnp.sum(sample["b"] ** 2) * 0.3
    prior = lambda sample: -0.05 * jnp.sum(sample["b"] ** 2)
    pot = potential.minibatch_potential(prior, likelihood, strategy=p["strategy"])
    full = potential.full_potential(prior, likelihood, strategy=p["strategy"])
    make = integrator.reversible_leapfrog if p["solver"] == "amagold" else integrator.obabo
    ma = adaption.mass_matrix(burn_in=4) if p["mass"] else None
    init, update, get = getattr(solver, p["solver"])(
      make(pot, random_fn, steps=p["steps"]), full, full_fn, mass_adaption=ma)
    def step(state, eps, tau):
      state, stats = update(state, scheduler.schedule(eps, tau, jnp.float32(1.0), jnp.array(True)))
      return state, (stats["acceptance_ratio"], get(state))
    def start(key, far):
      sample = {"a": jnp.float32(1e30 if far else 0.3), "b": jnp.array([0.1, -0.4], jnp.float32)}
      kw = {"initial_mass": {"a": jnp.float32(1.0), "b": jnp.ones(2)}} if p["mass"] else {}
      return init(sample, key=jax.random.PRNGKey(key), **kw)
    return {"loader": loader, "start": start, "step": jax.jit(step), "warm": []}
  return rig(("c13r", slot, json.dumps(p, sort_keys=True)), build)


def full_energy(p, pos):
  a, b = float(pos["a"]), np.asarray(pos["b"], float)
  x = np.arange(p["n"])
  with np.errstate(all="ignore"):
    return float(np.sum(0.5 * (a - 0.1 * x) ** 2) + p["n"] * np.sum(b ** 2) * 0.3
                 + 0.05 * np.sum(b ** 2))


def snap(state):
  s = state.integrator_state
  jax = jx()
  return jax.tree_util.tree_map(np.asarray, {"pos": s.positions, "mom": s.momentum, "key": s.key,
                                             "skey": state.key, "pot": state.potential})


def decide_real(p, t, rows, what):
  ama = p["solver"] == "amagold"
  for c, ((before, now, ratio, got), eps) in enumerate(zip(rows, t["calls"])):
    ws = "%s, call %d (step size %s)" % (what, c, eps)
    require(0.0 <= float(ratio) <= 1.0, "ratio", "%s: acceptance ratio %s", ws, ratio)
    u = full_energy(p, now["pos"])
    mine = float(now["pot"])
    if abs(u) > 3e38 or not np.isfinite(u):
      require(not np.isfinite(mine) or mine > 1e38, "potential", "%s: %s instead of %s", ws, mine, u)
    else:
      require(abs(mine - u) <= 1e-3 * (1 + abs(u)), "potential", "%s: the potential %s is not the one of "
              "the position (%s)", ws, mine, u)
    require(not np.array_equal(now["key"], before["key"]) and
            not np.array_equal(now["skey"], before["skey"]), "noise", "%s: keys not advanced", ws)
    require(_same(got["variables"], now["pos"]), "get", "%s", ws)
    require(math.isfinite(mine) or not math.isfinite(float(before["pot"])), "must-reject",
            "%s: accepted a proposal of energy %s", ws, mine)
    if _same(now["pos"], before["pos"]) and float(ratio) < 1:
      sign = -1.0
      require(all(np.array_equal(now["mom"][k], sign * before["mom"][k]) for k in now["mom"]), "momentum",
              "%s: rejected, momentum %s, before %s", ws, now["mom"], before["mom"])
      require(np.array_equal(now["pot"], before["pot"], equal_nan=True), "potential", "%s", ws)
    elif not _same(now["pos"], before["pos"]):
      require(float(ratio) > 0, "must-reject", "%s: accepted with ratio %s", ws, ratio)
      require(all(np.isfinite(now["pos"][k]).all() for k in now["pos"]), "must-reject", "%s: accepted "
              "the position %s", ws, now["pos"])


def run(plan, ctx):
  if plan.get("wiring"):
    return wiring.run(plan, ctx)
  jax = jx()
  devs = jax.devices()
  calls, rows = [], []
  shared = {}
  progs = []
  for k, t in enumerate(plan["tasks"]):
    p = plan["pal"][t["prog"]]
    with jax.default_device(devs[k]):
      prog = (script_program if p["kind"] == "script" else real_program)(p, k)
      progs.append(prog)
      if p["kind"] == "real":
        prog["loader"].bind(lib.np_loader(p["n"], 1))
        if not prog["warm"]:
          st = prog["start"](0, False)
          for _ in range(p["cache"] + 2):
            st, _ = prog["step"](st, np.float32(0.1), np.float32(1.0))
          lib.settle(st)
      elif not prog["warm"]:
        lib.settle(script_task(p, t, prog)[0]())
      prog["warm"].append(1)
  for k, t in enumerate(plan["tasks"]):
    p = plan["pal"][t["prog"]]
    if p["kind"] == "real":
      target = shared.setdefault(p["n"], lib.np_loader(p["n"], 1))
      progs[k]["loader"].bind(target)
  results = [None] * len(plan["tasks"])
  info = [None] * len(plan["tasks"])
  starts = [None] * len(plan["tasks"])
  for k, t in enumerate(plan["tasks"]):
    p = plan["pal"][t["prog"]]
    if p["kind"] == "real":
      with jax.default_device(devs[k]):
        starts[k] = lib.local(progs[k]["start"](t["key"], t["far"]), devs[k])

  def body(k):
    t = plan["tasks"][k]
    p = plan["pal"][t["prog"]]
    def go():
      if p["kind"] == "script":
        call, tables, eps, steps = script_task(p, t, progs[k])
        info[k] = (tables, eps, steps)
        results[k] = call()
        return
      st, out = starts[k], []
      for eps in t["calls"]:
        before = snap(st)
        st, (ratio, got) = jax.block_until_ready(
          progs[k]["step"](st, np.float32(eps), np.float32(t["temp"])))
        out.append((before, snap(st), np.asarray(ratio), jax.tree_util.tree_map(np.asarray, got)))
      results[k] = out
    return go
  ctx.simulate([("c%d" % k, body(k)) for k in range(len(plan["tasks"]))])
  for k, t in enumerate(plan["tasks"]):
    p = plan["pal"][t["prog"]]
    what = "task %d (%s)" % (k, json.dumps(p))
    if p["kind"] == "script":
      first, out = results[k]
      e, v, z = decide_script(p, t, *info[k], first, out, what)
      random_numbers(e, v, z, what)
      ctx.note("decisions", e.size)
      ctx.note("undefined_energies", int(np.isnan(info[k][0][0]).sum()))
    else:
      decide_real(p, t, results[k], what)
      ctx.note("decisions", len(results[k]))
      ctx.note("divergent_trajectories", sum(x >= 1e3 for x in t["calls"]))
  ctx.nontrivial = True
