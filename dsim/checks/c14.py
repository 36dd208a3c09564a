"""C14: parallel tempering exchanges whole replicas by the documented rule.

"script" chains run the real solver on an integrator whose potentials and variances are
dictated by the plan; "real" chains run the shipped Langevin integrator on shared host
loaders.  Every part of a replica names the replica it belongs to.
"""
import json
import math

import numpy as np

from dsim import lib, wiring
from dsim.core import Known, Violation, require, rig
from dsim.checks import c15
from dsim.lib import jx

GROUP = 40
SIG = 6.5


def gen_prog(g, j):
  if j < 3:
    return {"kind": "script", "T": g.choice([40, 120, 250]), "K": g.choice([1, 1, 8, 16]),
            "sa": g.choice(["1/n", "1/n", "1/(n+5)", "0.1"]), "scan": g.random() < 0.7}
  return {"kind": "real", "n": g.choice([5, 8, 13]), "mb": g.choice([1, 2, 3]),
          "cache": g.choice([1, 2, 5]), "adapt": False, "sa": "1/n"}


def gen_census(sa):
  """Many decisions at once, to measure the probability of an exchange."""
  return {"kind": "script", "T": 2000, "K": 96, "sa": sa, "scan": True, "census": True}


def gen(rng, tier, i):
  if i // GROUP % 6 == 2:
    return wiring.gen(rng, ("re_sgld",), i, GROUP, i // GROUP // 6)
  g = rng.group
  census = i // GROUP % 6 == 1
  pal = [gen_census(sa) for sa in ("1/n", "0.1")] if census else [gen_prog(g, j) for j in range(4)]
  tasks = []
  for k in range(2 if census else rng.choice([1, 2, 2, 3])):
    j = k if census else rng.randrange(len(pal))
    t = {"prog": j, "key": rng.getrandbits(30), "F": rng.choice([1.0, 1.0, 0.5, 30.0, 1e6]),
         "ssq": rng.choice([0.0, 0.0, 2.0]),
         "temp": rng.choice([[1.0, 2.0], [1.0, 100.0], [0.5, 0.6], [1.0, 1.0], [2.0, 1.0]])}
    if pal[j]["kind"] == "script":
      t["script"] = rng.getrandbits(30)
      t["wild"] = rng.choice([0.0, 0.05, 0.3])
      t["spread"] = rng.choice([0.3, 1.0, 3.0, 30.0])
    else:
      t["calls"] = [[rng.choice([0.02, 0.1, 0.3]), rng.choice([0.02, 0.1, 0.3])]
                    for _ in range(rng.randint(6, 24))]
      t["seed"] = rng.choice([None, rng.randrange(50)])
    tasks.append(t)
  faults = []
  if rng.random() < 0.4:
    for _ in range(rng.randint(1, 3)):
      faults.append({"site": "loader:%d" % rng.randrange(2 * len(tasks)), "n": rng.randint(0, 12),
                     "kind": "slow"})
  return {"pal": pal, "tasks": tasks, "faults": faults,
          "sched": lib.sched(rng, targets=["c0", "c1"], line=0.15)}


SA = {"1/n": lambda n: 1 / n, "1/(n+5)": lambda n: 1 / (n + 5), "0.1": lambda n: 0.1}


def solver_kw(p):
  return {} if p["sa"] == "1/n" else {"sa_schedule": SA[p["sa"]]}


# -- scripted replicas ---------------------------------------------------------------

def script_of(p, t):
  """Potentials and variances [K, replica, T + 1]."""
  rng = np.random.default_rng(t["script"])
  K, T = p["K"], p["T"]
  U = rng.normal(size=(K, 2, T + 1)) * t["spread"]
  V = rng.gamma(2.0, 0.5, size=(K, 2, T + 1)) * rng.choice([0.0, 0.1, 1.0]) * t["spread"]
  wild = rng.random(U.shape) < t["wild"]
  kind = rng.integers(0, 5, size=U.shape)
  U = np.where(wild & (kind == 0), np.inf, U)
  U = np.where(wild & (kind == 1), 1e4, U)
  U = np.where(wild & (kind == 2), -1e4, U)
  tie = (wild & (kind == 3)).any(1)
  U = np.where(tie[:, None], 1.25, U)
  return U.astype(np.float32), V.astype(np.float32)


def script_program(p, slot):
  def build():
    from jax_sgmc import integrator, scheduler, solver
    jax = jx()
    jnp = jax.numpy
    def make(tables):
      U, V = tables
      def init(sample, key=None, init_model_state=None, **kw):
        r = sample["rep"]
        return integrator.LangevinState(
          latent_variables=sample, model_state={"rep": r, "n": init_model_state}, key=key,
          adapt_state={"rep": r}, data_state={"rep": r, "n": jnp.int32(0), "z": jnp.float32(0)},
          potential=jnp.float32(0.0), variance=jnp.float32(1.0))
      def update(st, schedule):
        key, split = jax.random.split(st.key)
        r, n = st.data_state["rep"], st.data_state["n"] + 1
        rn = r.astype(jnp.int32)
        return integrator.LangevinState(
          latent_variables={"rep": st.latent_variables["rep"], "n": st.latent_variables["n"] + 1,
                            "tau": schedule.temperature, "eps": schedule.step_size},
          model_state={"rep": st.model_state["rep"], "n": st.model_state["n"] + 1},
          key=key, adapt_state={"rep": st.adapt_state["rep"]},
          data_state={"rep": r, "n": n, "z": jax.random.normal(split)},
          potential=U[rn, n], variance=V[rn, n])
      def get(st):
        return {"variables": st.latent_variables, "likelihood": -st.potential,
                "model_state": st.model_state}
      return solver.parallel_tempering((init, update, get), **solver_kw(p))
    def sample(r):
      return {"rep": jnp.float32(r), "n": jnp.int32(0), "tau": jnp.float32(0), "eps": jnp.float32(0)}
    def start(tables, key, F, ssq):
      return make(tables)[0](sample(0), sample(1), key=key, F=F, ssq_init=ssq,
                             init_model_state=jnp.int32(0))
    def show(state, got):
      return {"a": state[0]._asdict(), "b": state[1]._asdict(), "ssq": state[2],
              "step": state[4], "key": state[5], "get": got}
    def step(tables, state, eps, tau):
      _, update, get = make(tables)
      s = lambda e, t: scheduler.schedule(e, t, jnp.float32(1.0), jnp.array(True))
      state, _ = update(state, s(eps, tau[0]), s(2 * eps, tau[1]))
      return state, show(state, get(state))
    def go(tables, key, F, ssq, eps, tau):
      state = start(tables, key, F, ssq)
      first = show(state, make(tables)[2](state))
      if not p["scan"]:
        return first, state
      # the state's types may settle in the first step only
      state0 = jax.tree_util.tree_map(
        lambda x, s: jnp.asarray(x, s.dtype), state,
        jax.eval_shape(lambda s: step(tables, s, eps[0], tau)[0], state))
      return first, jax.lax.scan(lambda st, e: step(tables, st, e, tau), state0, eps)[1]
    if p["K"] > 1:
      go_v = jax.vmap(go, in_axes=(0, 0, None, None, None, None))
      step_v = jax.vmap(step, in_axes=(0, 0, None, None))
    else:
      go_v, step_v = go, step
    return {"go": jax.jit(go_v), "step": jax.jit(step_v), "warm": []}
  return rig(("c14", slot, json.dumps(p, sort_keys=True)), build)


def script_task(p, t, prog):
  jax = jx()
  tables = script_of(p, t)
  K, T = p["K"], p["T"]
  eps = np.linspace(0.5, 0.1, T).astype(np.float32)
  keys = np.asarray(jax.random.split(jax.random.PRNGKey(t["key"]), K))
  tab, key = (tuple(x[0] for x in tables), keys[0]) if K == 1 else (tables, keys)
  tau = np.array(t["temp"], np.float32)
  steps = T if p["scan"] else min(T, 40)
  def call():
    first, out = prog["go"](tab, key, np.float32(t["F"]), np.float32(t["ssq"]), eps, tau)
    if not p["scan"]:
      state, rows = out, []
      for i in range(steps):
        state, row = jax.block_until_ready(prog["step"](tab, state, eps[i], tau))
        rows.append(jax.tree_util.tree_map(np.asarray, row))
      out = jax.tree_util.tree_map(lambda *x: np.stack(x, axis=1 if K > 1 else 0), *rows)
    first, out = jax.tree_util.tree_map(np.asarray, (first, out))
    if K == 1:
      first, out = jax.tree_util.tree_map(lambda x: x[None], (first, out))
    return first, out
  return call, tables, eps, steps


def log_rate(temp, ua, ub, ssq, F):
  """log of the documented swap rate and its rounding error."""
  d = 1.0 / temp[0] - 1.0 / temp[1]
  with np.errstate(all="ignore"):
    terms = np.array([d * ua, -d * ub, -d * d * ssq / F], float)
    s = terms.sum()
    fin = np.abs(terms[np.isfinite(terms)])
  return s, 1e-5 * (fin.max() if fin.size else 0.0) + 1e-6


class Decisions:
  """Exchanges and what the rule says about them."""

  def __init__(self, shape):
    self.log_s = np.full(shape, np.nan)
    self.tol = np.zeros(shape)
    self.swap = np.zeros(shape, bool)

  def judge(self, z, what):
    """True: documented rule, False: its exact opposite; else a violation."""
    err = {}
    for rule in (True, False):
      try:
        self.check(rule, z, what)
        return rule
      except Violation as e:
        err[rule] = e
    # a rule fits the frequencies but not the randomness: report that one
    for rule in (True, False):
      if err[rule].kind == "dependent":
        raise err[rule]
    raise Violation(err[True].kind, err[True].msg + " (and not the opposite rule either: %s)"
                    % err[False].msg)

  def check(self, rule, z, what):
    known = np.isfinite(self.log_s) | np.isinf(self.log_s)
    did = self.swap if rule else ~self.swap
    sure = known & (self.log_s > self.tol)
    tie = known & (self.log_s == 0) & (self.tol <= 1e-6)
    never = known & (self.log_s < -100 - self.tol)
    for m, name, want in ((sure | tie, "must-swap", True), (never, "must-not-swap", False)):
      bad = m & (did != want)
      # (a uniform number is exactly zero once in 2**23 draws)
      lucky = not want and bad.sum() <= (2 if bad.size > 50000 else 1) and np.isfinite(self.log_s[bad]).all()
      if bad.any() and not lucky:
        k, i = np.argwhere(bad)[0]
        raise Violation(name, "%s, chain %d, step %d: %s although the log of the swap rate is %s" % (
          what, k, i, "exchanged" if self.swap[k, i] else "not exchanged", self.log_s[k, i]))
    mid = known & ~sure & ~tie & ~never & (self.tol < 1e-2) & (self.log_s < -self.tol)
    pr = np.where(mid, np.exp(np.minimum(np.where(mid, self.log_s, 0), 0)), 0.5)
    e = np.where(mid, did - pr, 0.0)
    v = np.where(mid, pr * (1 - pr), 0.0)
    require(abs(e.sum()) < SIG * math.sqrt(v.sum()) + 6, "frequency", "%s: %.1f exchanges too many "
            "among %d (sigma %.2f)", what, e.sum(), mid.sum(), math.sqrt(v.sum()))
    edges = [0.0, -0.1, -0.25, -0.5, -1.0, -1.5, -2.0, -3.0, -5.0, -100.0]
    for hi, lo in zip(edges, edges[1:]):
      m = mid & (self.log_s <= hi) & (self.log_s > lo)
      require(abs(e[m].sum()) < SIG * math.sqrt(v[m].sum()) + 6, "frequency", "%s: %.1f exchanges too many "
              "among %d with log rates from %s to %s (sigma %.2f)", what, e[m].sum(), m.sum(), lo, hi,
              math.sqrt(v[m].sum()))
    good = mid & (v > 0.02)
    e, v = np.where(good, e, 0), np.where(good, v, 0)
    def corr(a, m, va, name):
      if m.sum() >= 50:
        s = math.sqrt((va * m).sum())
        require(abs((a * m).sum()) < SIG * s + 3, "dependent", "%s: exchanges depend on %s: %.1f "
                "(sigma %.2f) over %d", what, name, (a * m).sum(), s, m.sum())
    for lag in range(1, 6):
      corr(e[:, lag:] * e[:, :-lag], good[:, lag:] & good[:, :-lag], v[:, lag:] * v[:, :-lag],
           "those %d steps before" % lag)
    for r in range(2):
      corr(e * z[r], good, v, "the noise of a replica")
    for a in range(1, min(4, len(e))):
      corr(e[a:] * e[:-a], good[a:] & good[:-a], v[a:] * v[:-a], "those of another chain")


def decide_script(p, t, tables, eps, steps, first, out, what):
  U, V = tables
  K = p["K"]
  D = Decisions((K, steps))
  z = np.zeros((2, K, steps))
  at = lambda tree, *i: jx().tree_util.tree_map(lambda x: x[i], tree)
  for k in ([t["script"] % K] if p.get("census") else range(K)):
    w = "%s, chain %d" % (what, k)
    f = at(first, k)
    require(f["a"]["data_state"]["rep"] == 0 and f["b"]["data_state"]["rep"] == 1, "initial", "%s: %s", w, f)
    require(not np.array_equal(f["a"]["key"], f["b"]["key"]), "noise", "%s: the replicas start with the "
            "same key", w)
    who = 0                       # the replica at the normal temperature
    keys = {0: f["a"]["key"], 1: f["b"]["key"]}
    ssq, key = float(f["ssq"]), f["key"]
    require(ssq == t["ssq"], "initial", "%s: variance estimate %s", w, ssq)
    for i in range(steps):
      now = at(out, k, i)
      ws = "%s, step %d" % (w, i)
      n = i + 1
      reps = [check_replica(now[s], n, ws) for s in ("a", "b")]
      require(sorted(reps) == [0, 1], "replicas", "%s: the replicas are %s", ws, reps)
      for s, r in zip(("a", "b"), reps):
        x = now[s]
        slot = 0 if r == who else 1
        lat = x["latent_variables"]
        require(lat["tau"] == np.float32(t["temp"][slot]) and
                lat["eps"] == eps[i] * (1 + slot), "schedule",
                "%s: replica %d was advanced with temperature %s and step size %s, it was at %s", ws, r,
                lat["tau"], lat["eps"], ("the normal temperature", "the high temperature")[slot])
        require(x["potential"] == U[k][r][n] and x["variance"] == V[k][r][n], "replica-mixed",
                "%s: potential %s and variance %s of replica %d", ws, x["potential"], x["variance"], r)
        require(not np.array_equal(x["key"], keys[r]), "noise", "%s: key of replica %d not advanced", ws, r)
        keys[r] = x["key"]
        z[r, k, i] = x["data_state"]["z"]
      a = SA[p["sa"]](n)
      ssq = (1 - a) * ssq + a * float(V[k][who][n])
      require(abs(float(now["ssq"]) - ssq) <= 1e-4 * (1 + abs(ssq)), "variance", "%s: variance estimate %s "
              "instead of %s", ws, now["ssq"], ssq)
      ssq = float(now["ssq"])
      D.log_s[k, i], D.tol[k, i] = log_rate(t["temp"], float(U[k][who][n]), float(U[k][1 - who][n]),
                                            ssq, t["F"])
      D.swap[k, i] = reps[0] != who
      require(not np.array_equal(now["key"], key), "noise", "%s: the solver's key was not advanced", ws)
      key = now["key"]
      who = reps[0]
      require(now["get"]["variables"]["rep"] == who and now["get"]["variables"]["n"] == n and
              now["get"]["model_state"]["rep"] == who and now["get"]["likelihood"] == -now["a"]["potential"],
              "sample", "%s: the sample %s is not the replica at the normal temperature (%d)", ws,
              now["get"], who)
  if p.get("census"):
    count_all(D, t, tables, steps, out)
    z = np.stack([out[s]["data_state"]["z"] for s in ("a", "b")])
    swap = out["a"]["data_state"]["rep"] == 1
    z = np.where(swap, z[::-1], z)
  c15_like = z.reshape(2, -1)
  if c15_like.shape[1] >= 60:
    r = np.corrcoef(c15_like)[0, 1]
    require(abs(r) * math.sqrt(c15_like.shape[1]) < SIG, "noise", "%s: noise of the replicas correlates: %s",
            what, r)
  return D, z


def count_all(D, t, tables, steps, out):
  """All exchanges and the rule's rates for them."""
  U, _ = [np.asarray(x, float) for x in tables]
  after = out["a"]["data_state"]["rep"].astype(int)
  who = np.concatenate([np.zeros((len(after), 1), int), after[:, :-1]], 1)
  n = np.broadcast_to(np.arange(1, steps + 1), who.shape)
  k = np.broadcast_to(np.arange(len(after))[:, None], who.shape)
  d = 1.0 / t["temp"][0] - 1.0 / t["temp"][1]
  with np.errstate(all="ignore"):
    terms = np.stack([d * U[k, who, n], -d * U[k, 1 - who, n], -d * d * out["ssq"].astype(float) / t["F"]])
    D.log_s = terms.sum(0)
    D.tol = 1e-5 * np.abs(np.where(np.isfinite(terms), terms, 0)).max(0) + 1e-6
  D.swap = after != who


def check_replica(x, n, ws):
  r = int(x["data_state"]["rep"])
  names = {"latent_variables": int(x["latent_variables"]["rep"]), "model_state": int(x["model_state"]["rep"]),
           "adapt_state": int(x["adapt_state"]["rep"]), "data_state": r}
  require(len(set(names.values())) == 1, "replica-mixed", "%s: parts of different replicas: %s", ws, names)
  counts = {"latent_variables": int(x["latent_variables"]["n"]), "model_state": int(x["model_state"]["n"]),
            "data_state": int(x["data_state"]["n"])}
  require(all(c == n for c in counts.values()), "advanced", "%s: replica %d was advanced %s times instead "
          "of %d", ws, r, counts, n)
  return r


# -- shipped integrator --------------------------------------------------------------

CAP = 40

def real_program(p, slot):
  def build():
    from jax_sgmc import adaption, data, integrator, scheduler, solver
    jax = jx()
    jnp = jax.numpy
    loader = lib.proxy_class()(lib.np_loader(p["n"], 1))
    batch_fn = data.random_reference_data(loader, p["cache"], p["mb"])
    kw = {"adaption": adaption.rms_prop()} if p["adapt"] else {}
    init, update, get = solver.parallel_tempering(
      integrator.langevin_diffusion(c15.logging_potential(p["n"]), batch_fn, **kw), **solver_kw(p))
    def start(key, F, ssq, seed):
      rng = np.random.default_rng(key)
      cold, hot = [jax.tree_util.tree_map(jnp.asarray, c15.tree(np.asarray(rng.normal(size=c15.D), np.float32)))
                   for _ in range(2)]
      ikw = {"adaption_kwargs": {"alpha": 0.7, "lmbd": 0.1}} if p["adapt"] else {}
      if seed is not None:
        ikw["batch_kwargs"] = {"seed": seed}
      return init(cold, hot, key=jax.random.PRNGKey(key), F=jnp.float32(F), ssq_init=jnp.float32(ssq),
                  init_model_state=c15.blank_log(CAP, p["mb"], 0), **ikw)
    def step(state, eps, tau):
      s = lambda k: scheduler.schedule(eps[k], tau[k], jnp.float32(1.0), jnp.array(True))
      state, _ = update(state, s(0), s(1))
      return state, get(state)
    return {"loader": loader, "start": start, "step": jax.jit(step), "warm": []}
  return rig(("c14r", slot, json.dumps(p, sort_keys=True)), build)


def snap(state):
  jax = jx()
  host = lambda x: jax.tree_util.tree_map(np.asarray, x)
  return {"reps": [{"pos": c15.flat(s.latent_variables), "chain": int(s.data_state.chain_id),
                    "pot": float(s.potential), "var": float(s.variance), "ms": host(s.model_state)}
                   for s in state[:2]],
          "ssq": float(state[2]), "key": host(state[5])}


def decide_real(p, t, prog, rows, refs, what):
  D = Decisions((1, len(t["calls"])))
  z = np.zeros((2, 1, len(t["calls"])))
  chains = [r["chain"] for r in rows[0][0]["reps"]]
  require(len(set(chains)) == 2, "data", "%s: both replicas read the chain %s", what, chains)
  ssq = t["ssq"]
  v = {c: np.ones(c15.D) for c in chains}
  noises = {c: [] for c in chains}
  for i, ((before, now, got), eps) in enumerate(zip(rows, t["calls"])):
    ws = "%s, step %d" % (what, i)
    n = i + 1
    old = [r["chain"] for r in before["reps"]]
    new = [r["chain"] for r in now["reps"]]
    require(sorted(new) == sorted(chains), "replicas", "%s: the replicas read the chains %s", ws, new)
    pot, var = {}, {}
    for r in now["reps"]:
      c = r["chain"]
      slot = old.index(c)
      ms = r["ms"]
      require(int(ms["n"]) == n, "advanced", "%s: replica %d was advanced %d times", ws, c, ms["n"])
      for j in range(n):
        want, mask = refs[c][j]
        require(np.array_equal(ms["ids"][j][mask], np.asarray(want["x"])[mask]), "batch", "%s: replica %d "
                "saw the batch %s at step %d, its stream has %s", ws, c, ms["ids"][j], j, want["x"])
      pos = before["reps"][slot]["pos"]
      require(np.array_equal(np.asarray(ms["pos"][i], float), pos), "replica-mixed", "%s: replica %d "
              "continued at %s instead of %s", ws, c, ms["pos"][i], pos)
      ids = ms["ids"][i]
      u, like = c15.energy(p, pos, ids)
      pot[slot], var[slot] = float(r["pot"]), float(r["var"])
      require(c15.close(pot[slot], u), "potential", "%s: %s instead of %s", ws, pot[slot], u)
      require(c15.close(var[slot], like.var(), 1e-3), "variance", "%s: %s", ws, var[slot])
      g = c15.gradient(p, pos, ids)
      G = np.ones(c15.D)
      if p["adapt"]:
        v[c] = 0.7 * v[c] + 0.3 * g ** 2
        G = 1 / (0.1 + np.sqrt(v[c]))
      e, tau = float(np.float32(eps[slot])), t["temp"][slot]
      noise = (r["pos"] - pos + e * G * g) / np.sqrt(2 * tau * e * G)
      require(np.all(np.abs(noise) < 6.8), "schedule", "%s: replica %d at temperature %s would need the "
              "noise %s", ws, c, tau, noise.tolist())
      noises[c].append(noise)
      z[chains.index(c), 0, i] = noise.mean()
    a = SA[p["sa"]](n)
    ssq = (1 - a) * ssq + a * var[0]
    require(abs(float(now["ssq"]) - ssq) <= 1e-3 * (1 + abs(ssq)), "variance", "%s: variance estimate %s "
            "instead of %s", ws, now["ssq"], ssq)
    D.log_s[0, i], D.tol[0, i] = log_rate(t["temp"], pot[0], pot[1], ssq, t["F"])
    D.tol[0, i] += 1e-3 * (1 + abs(D.log_s[0, i]))
    D.swap[0, i] = new[0] != old[0]
    require(not np.array_equal(now["key"], before["key"]), "noise", "%s: the solver's key was not advanced", ws)
    require(np.array_equal(c15.flat(got["variables"]), now["reps"][0]["pos"]), "sample", "%s", ws)
  x = np.concatenate(list(noises.values()))
  c15.fresh(x, what)
  return D, z


def run(plan, ctx):
  if plan.get("wiring"):
    return wiring.run(plan, ctx)
  jax = jx()
  devs = jax.devices()
  progs = []
  for k, t in enumerate(plan["tasks"]):
    p = plan["pal"][t["prog"]]
    with jax.default_device(devs[k]):
      prog = (script_program if p["kind"] == "script" else real_program)(p, k)
      progs.append(prog)
      if p["kind"] == "real":
        prog["loader"].bind(lib.np_loader(p["n"], 1))
        if not prog["warm"]:
          st = prog["start"](0, 1.0, 0.0, None)
          for _ in range(p["cache"] + 2):
            st, _ = prog["step"](st, np.float32([0.1, 0.1]), np.float32([1.0, 2.0]))
          lib.settle(st)
      elif not prog["warm"]:
        lib.settle(script_task(p, t, prog)[0]())
      prog["warm"].append(1)
  shared = {}
  starts, refs = [None] * len(progs), [None] * len(progs)
  for k, t in enumerate(plan["tasks"]):
    p = plan["pal"][t["prog"]]
    if p["kind"] == "real":
      if p["n"] not in shared:
        shared[p["n"]] = (lib.np_loader(p["n"], 1), lib.np_loader(p["n"], 1))
      target, fresh = shared[p["n"]]
      progs[k]["loader"].bind(target)
      with jax.default_device(devs[k]):
        starts[k] = lib.local(progs[k]["start"](t["key"], t["F"], t["ssq"], t["seed"]), devs[k])
      kw = {} if t["seed"] is None else {"seed": t["seed"]}
      refs[k] = {int(s.data_state.chain_id): lib.RefStream(
        fresh, fresh.register_random_pipeline(1, mb_size=p["mb"], **kw)) for s in starts[k][:2]}
  results, info = [None] * len(progs), [None] * len(progs)

  def body(k):
    t = plan["tasks"][k]
    p = plan["pal"][t["prog"]]
    def go():
      if p["kind"] == "script":
        call, tables, eps, steps = script_task(p, t, progs[k])
        info[k] = (tables, eps, steps)
        results[k] = call()
        return
      st, out = starts[k], []
      for eps in t["calls"]:
        before = snap(st)
        st, got = jax.block_until_ready(
          progs[k]["step"](st, np.array(eps, np.float32), np.array(t["temp"], np.float32)))
        out.append((before, snap(st), jax.tree_util.tree_map(np.asarray, got)))
      results[k] = out
    return go
  ctx.simulate([("c%d" % k, body(k)) for k in range(len(progs))])
  known = False
  for k, t in enumerate(plan["tasks"]):
    p = plan["pal"][t["prog"]]
    what = "task %d (%s)" % (k, json.dumps(p))
    if p["kind"] == "script":
      D, z = decide_script(p, t, *info[k], *results[k], what)
    else:
      D, z = decide_real(p, t, progs[k], results[k], refs[k], what)
    ctx.note("exchanges", int(D.swap.sum()))
    ctx.note("steps", D.swap.size)
    if not D.judge(z, what):
      known = True
  ctx.nontrivial = True
  if known:
    raise Known("C14-inverted-swap")
