"""C21: samplers with Metropolis-Hastings correction leave the posterior invariant.

Many chains start from exact draws of a known posterior (and of the momentum that belongs
to it) and are advanced together. Whatever the step sizes, the number and size of the
mini-batches, friction, mass and temperature: positions and momenta of all chains must keep
their distribution in every iteration, and the chains must move as often as they report.
Small ensembles receive their data through the simulated host callbacks.
"""
import json
import math

import numpy as np

from dsim import lib, seams
from dsim.core import require, rig
from dsim.lib import jx

GROUP = 6
M_DEVICE, M_HOST = 8192, 24
SIG = 6.5
CALLS = 4             # of the compiled program, for one ensemble


def gen_prog(g, j, host):
  solver = ("amagold", "sggmc")[j] if j < 2 else g.choice(["amagold", "sggmc"])
  n = g.choice([6, 8, 12])
  p = {"solver": solver, "model": g.choice(["linear", "linear", "quartic"]), "n": n,
          "mb": g.choice([1, 2, 2, n]), "steps": g.choice([1, 2, 2, 4] if not host else [1, 2]),
          "friction": g.choice([0.0, 0.1, 0.3, 1.0, 1.0, 4.0]),
          "mass": g.choice([None, "const", "const", "diag", "full", "given", "given-full"]),
          "strategy": g.choice(["map", "vmap", "batched"]), "host": host, "cache": g.choice([1, 3, 8]),
          "K": 24 if host else 40, "data": g.getrandbits(30), "state": g.random() < 0.3,
          "cold": g.choice([1.0, 1.0, 0.5, 2.5]), "full": g.choice([n, n - 1, 4, 5, 1])}
  if p["solver"] == "sggmc" and p["friction"] == 0.0:
    p["friction"] = 0.03
  return p


def gen(rng, tier, i):
  g = rng.group
  host = i // GROUP % 6 == 3
  pal = [gen_prog(g, j, host) for j in range(2)]
  tasks = []
  for k in range(rng.choice([1, 2])):
    j = (i + k) % 2
    t = {"prog": j, "key": rng.getrandbits(30), "draw": rng.getrandbits(30), "eps": rng.getrandbits(30),
         "scale": rng.choice([0.15, 0.4, 0.6, 0.8, 1.1]), "vary": rng.random() < 0.3,
         "temp": rng.choice([1.0, 1.0, 0.5, 3.0]) if pal[j]["solver"] == "sggmc" else 1.0}
    tasks.append(t)
  faults = []
  if host and rng.random() < 0.5:
    for _ in range(rng.randint(1, 3)):
      faults.append({"site": "loader:%d" % rng.randrange(2 * M_HOST), "n": rng.randint(0, 20),
                     "kind": "slow"})
  return {"pal": pal, "tasks": tasks, "faults": faults,
          "sched": lib.sched(rng, targets=["c0", "c1"], line=0.1)}


# -- models with known posteriors -----------------------------------------------------

class Linear:
  """Linear regression: the posterior is a correlated normal distribution."""
  dim = 3

  def __init__(self, p):
    r = np.random.default_rng(p["data"])
    n = p["n"]
    self.s2 = 1.5
    z = r.normal(size=(n, 2)).astype(np.float32)
    self.data = {"x": (0.7 * z[:, 0] + r.normal(size=n)).astype(np.float32), "z": z}
    phi = np.concatenate([np.ones((n, 1)), z.astype(float)], 1)
    self.lam = np.diag([1.0, 0.5, 0.5]) + phi.T @ phi / self.s2
    self.mu = np.linalg.solve(self.lam, phi.T @ self.data["x"].astype(float) / self.s2)
    self.chol = np.linalg.cholesky(self.lam)

  def prior(self, s):
    return -0.5 * s["a"] ** 2 - 0.25 * jx().numpy.sum(s["v"] ** 2)

  def likelihood(self, s, obs):
    r = obs["x"] - s["a"] - jx().numpy.dot(s["v"], obs["z"])
    return -0.5 * r ** 2 / self.s2

  def draw(self, r, m, temp):
    e = r.normal(size=(m, 3))
    return self.mu + math.sqrt(temp) * np.linalg.solve(self.chol.T, e.T).T

  def uniform(self, w, temp):
    """Independent uniform numbers if w has the posterior distribution."""
    from scipy.special import ndtr
    return ndtr((w - self.mu) @ self.chol / math.sqrt(temp))

  def cov(self):
    return np.linalg.inv(self.lam)

  @staticmethod
  def tree(w):
    return {"a": w[..., 0], "v": w[..., 1:]}

  @staticmethod
  def flat(t):
    return np.concatenate([np.asarray(t["a"], float)[..., None], np.asarray(t["v"], float)], -1)


class Quartic:
  """A skewed posterior in one dimension, known from its integral."""
  dim = 1

  def __init__(self, p):
    r = np.random.default_rng(p["data"])
    n = p["n"]
    self.data = {"x": r.normal(size=n).astype(np.float32), "z": r.uniform(0.5, 1.5, size=n).astype(np.float32)}
    self.tables = {}

  def prior(self, s):
    return -0.3 * s["w"] ** 4 + 0.8 * s["w"]

  def likelihood(self, s, obs):
    return -0.1 * obs["z"] * (obs["x"] - s["w"]) ** 2

  def table(self, temp):
    if temp not in self.tables:
      w = np.linspace(-8, 8, 400001)
      x, z = self.data["x"].astype(float), self.data["z"].astype(float)
      u = 0.3 * w ** 4 - 0.8 * w + 0.1 * (z.sum() * w ** 2 - 2 * (z * x).sum() * w)
      d = np.exp(-(u - u.min()) / temp)
      c = np.concatenate([[0.0], np.cumsum((d[1:] + d[:-1]) / 2)])
      self.tables[temp] = (w, c / c[-1])
    return self.tables[temp]

  def draw(self, r, m, temp):
    w, c = self.table(temp)
    keep = np.concatenate([[True], np.diff(c) > 0])
    return np.interp(r.uniform(size=m), c[keep], w[keep])[:, None]

  def uniform(self, w, temp):
    return np.interp(w, *self.table(temp))

  def cov(self):
    w, c = self.table(1.0)
    d = np.diff(c)
    m = (w[1:] * d).sum()
    return np.array([[((w[1:] - m) ** 2 * d).sum()]])

  @staticmethod
  def tree(w):
    return {"w": w[..., 0]}

  @staticmethod
  def flat(t):
    return np.asarray(t["w"], float)[..., None]


def mass_of(p, model):
  """The inverse mass, and the samples an adaption learns it from."""
  d = model.dim
  r = np.random.default_rng(p["data"] + 1)
  if p["mass"] is None:
    return np.eye(d), None
  if p["mass"] in ("const", "given", "given-full"):
    return np.diag(1 / r.uniform(0.5, 3.0, size=d)), None
  y = model.draw(r, 30, 1.0).astype(np.float32)
  c = (y - y.mean(0)).T.astype(float) @ (y - y.mean(0)).astype(float) / len(y)
  return (np.diag(np.diag(c)) if p["mass"] == "diag" or d == 1 else c), y


# -- programs -------------------------------------------------------------------------

def program(p, slot):
  def build():
    from jax_sgmc import adaption, data, integrator, potential, scheduler, solver
    from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader, NumpyDataLoader
    jax = jx()
    jnp = jax.numpy
    model = {"linear": Linear, "quartic": Quartic}[p["model"]](p)
    out = {"model": model, "warm": []}
    if p["host"]:
      loader = lib.proxy_class()(NumpyDataLoader(**model.data))
      random_fn = data.random_reference_data(loader, p["cache"], p["mb"])
      full_fn = data.full_reference_data(loader, 1, p["full"])
    else:
      loader = DeviceNumpyDataLoader(**model.data)
      random_fn = data.random_reference_data(loader, 1, p["mb"])
      full_fn = data.full_reference_data(loader, 1, p["full"])
    likelihood = model.likelihood
    if p["strategy"] == "batched":
      likelihood = jax.vmap(likelihood, in_axes=(None, 0))
    stateless = likelihood
    if p["state"]:
      likelihood = lambda state, sample, obs: (stateless(sample, obs), {"n": state["n"] + 1})
    kinds = {"temperature": p["cold"], "has_state": p["state"], "is_batched": p["strategy"] == "batched"}
    if p["strategy"] != "batched":
      kinds["strategy"] = p["strategy"]
    pot = potential.minibatch_potential(model.prior, likelihood, **kinds)
    full = potential.full_potential(model.prior, likelihood, **kinds)
    inv, y = mass_of(p, model)
    kw, ma = {}, None
    if p["mass"] == "const":
      kw["const_mass"] = jax.tree_util.tree_map(lambda x: jnp.asarray(x, jnp.float32),
                                                model.tree(1 / np.diag(inv)))
    if p["mass"] in ("given", "given-full"):     # and not adapted before the end of the run
      ma = adaption.mass_matrix(diagonal=p["mass"] == "given", burn_in=10 ** 6)
    if y is not None:
      ma = adaption.mass_matrix(diagonal=p["mass"] == "diag", burn_in=len(y))
    make = integrator.reversible_leapfrog if p["solver"] == "amagold" else integrator.obabo
    init, update, _ = getattr(solver, p["solver"])(
      make(pot, random_fn, steps=p["steps"], friction=p["friction"], **kw), full, full_fn, mass_adaption=ma)
    tree = lambda w: jax.tree_util.tree_map(lambda x: jnp.asarray(x, jnp.float32), model.tree(w))
    mass_state = None
    if ma is not None and y is None:
      mass_state = ma[0](tree(np.zeros(model.dim)), tree(np.diag(inv)))
    if y is not None:
      mass_state = ma[0](tree(y[0]), None)
      learn = jax.jit(ma[1])
      for s in y:
        mass_state = learn(mass_state, tree(s))
    chol = np.linalg.cholesky(np.linalg.inv(inv))
    half = np.linalg.cholesky(inv)

    model_state = {"init_model_state": {"n": jnp.int32(0)}} if p["state"] else {}

    def start(key, w, e, temp, m):
      """All chains, with exact positions and momenta."""
      mom = math.sqrt(temp) * e @ chol.T
      keys = jax.random.split(jax.random.PRNGKey(key), 2 * m)
      if p["host"]:
        sts = [init(tree(w[c]), key=keys[c], batch_kwargs={"seed": (key + 17 * c) % 2 ** 31}, **model_state)
               for c in range(m)]
        # (the functions in the state of an adaption are new objects for every chain)
        state = jax.tree_util.tree_unflatten(
          jax.tree_util.tree_structure(sts[0]),
          [jnp.stack(x) for x in zip(*map(jax.tree_util.tree_leaves, sts))])
        state = state._replace(integrator_state=state.integrator_state._replace(
          positions=tree(w), momentum=tree(mom)))
        return state if mass_state is None else state._replace(
          mass_state=jax.tree_util.tree_unflatten(
            jax.tree_util.tree_structure(state.mass_state),
            [jnp.stack([x] * m) for x in jax.tree_util.tree_leaves(mass_state)]))
      def one(a, b, k, dk):
        st = init(a, key=k, batch_kwargs={"key": dk}, **model_state)
        new = st._replace(integrator_state=st.integrator_state._replace(momentum=b))
        return new if mass_state is None else new._replace(
          mass_state=jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(st.mass_state),
                                                  jax.tree_util.tree_leaves(mass_state)))
      return jax.vmap(one)(tree(w), tree(mom), keys[:m], keys[m:2 * m])

    def run(state, eps, temp):
      def step(st, e):
        sch = scheduler.schedule(e, temp, jnp.float32(1.0), jnp.array(True))
        if p["host"]:
          st, stats = jax.lax.map(lambda x: update(x, sch), st)
        else:
          st, stats = jax.vmap(update, in_axes=(0, None))(st, sch)
        return st, {"w": st.integrator_state.positions, "p": st.integrator_state.momentum,
                    "ratio": stats["acceptance_ratio"]}
      return jax.lax.scan(step, state, eps)
    def restart(*args):
      leaves, like = jax.tree_util.tree_flatten(start(*args))
      out.setdefault("like", like)
      assert len(leaves) == out["like"].num_leaves
      return jax.tree_util.tree_unflatten(out["like"], leaves)
    out.update(start=restart, run=jax.jit(run), loader=loader, half=half, inv=inv)
    return out
  return rig(("c21", slot, json.dumps(p, sort_keys=True)), build)


def steps_of(p, t, model, inv):
  """Step sizes relative to the fastest oscillation."""
  fast = math.sqrt(np.linalg.eigvalsh(np.linalg.inv(model.cov()) @ inv if model.dim == 1 else
                                      np.linalg.cholesky(inv).T @ np.linalg.inv(model.cov())
                                      @ np.linalg.cholesky(inv)).max())
  noise = 1.0 if p["mb"] == p["n"] else 0.6
  eps = np.full(p["K"], t["scale"] * noise * math.sqrt(p["cold"]) / fast)
  if t["vary"]:
    eps = eps * np.random.default_rng(t["eps"]).uniform(0.3, 1.2, size=p["K"])
  return eps.astype(np.float32)


# -- statistics -----------------------------------------------------------------------

def features(u):
  """Bounded functions of independent uniform numbers with mean zero, [..., F]."""
  f, names = [], []
  c1 = np.cos(math.pi * u.astype(np.float32))
  c2 = 2 * c1 * c1 - 1
  cos = {1: c1, 2: c2, 3: 2 * c1 * c2 - c1, 4: 2 * c2 * c2 - 1}
  c = lambda j, d: np.float32(math.sqrt(2)) * cos[j][..., d]
  D = u.shape[-1]
  for d in range(D):
    for j in (1, 2, 3, 4):
      f.append(c(j, d))
      names.append("%d:%d" % (d, j))
  for a in range(D):
    for b in range(a):
      for j, k in ((1, 1), (2, 2), (1, 2), (2, 1)):
        f.append(c(j, a) * c(k, b))
        names.append("%d:%d*%d:%d" % (a, j, b, k))
  return f, names


def decide(p, t, prog, w0, out, what):
  from scipy.special import ndtr
  model = prog["model"]
  w, mom = model.flat(out["w"]), model.flat(out["p"])          # [K, M, D]
  K, m = w.shape[:2]
  require(np.isfinite(w).all(), "diverged", "%s: positions are not finite", what)
  ratio = np.asarray(out["ratio"], float)
  require(np.all((ratio >= 0) & (ratio <= 1)), "ratio", "%s", what)
  before = np.concatenate([w0[None].astype(np.float32).astype(float), w[:-1]])
  moved = np.any(w != before, axis=-1)
  # moves are accepted with the reported probability
  e = (moved - ratio).sum()
  v = (ratio * (1 - ratio)).sum()
  require(abs(e) < SIG * math.sqrt(v) + 10 + 1e-3 * ratio.size, "moves", "%s: %d moves, the reported "
          "probabilities sum to %.1f (sigma %.1f)", what, moved.sum(), ratio.sum(), math.sqrt(v))
  u = np.concatenate([model.uniform(w, t["temp"] * p["cold"]),
                      ndtr(mom @ prog["half"] / math.sqrt(t["temp"]))], -1)
  f, names = features(u)
  names = [s.replace(":", ".cos") for s in names]
  worst = 0.0
  # of the ensemble in single iterations (unit variance, known)
  if m >= 4096:
    for k in (0, 1, K // 2, K - 1):
      z = np.array([x[k].sum(dtype=float) for x in f]) / math.sqrt(m)
      worst = max(worst, np.abs(z).max())
      b = np.abs(z).argmax()
      require(abs(z[b]) < SIG, "distribution", "%s: after %d iterations the chains do not have the "
              "posterior distribution any more: feature %s at %.1f sigma (mean acceptance ratio %.2f)",
              what, k + 1, names[b], z[b], ratio.mean())
  # and of all iterations, with the spread between the chains
  s = np.stack([x.sum(0, dtype=float) for x in f], -1)
  sd = s.std(0) + 1e-9 + (0.0 if m >= 4096 else 0.15 * math.sqrt(K))
  z = s.sum(0) / sd / math.sqrt(m)
  worst = max(worst, np.abs(z).max())
  b = np.abs(z).argmax()
  require(abs(z[b]) < (SIG if m >= 4096 else 9), "distribution", "%s: the chains do not keep the posterior distribution: "
          "feature %s at %.1f sigma over %d iterations (mean acceptance ratio %.2f)", what, names[b], z[b],
          K, ratio.mean())
  return worst, ratio.mean(), moved.mean()


def run(plan, ctx):
  jax = jx()
  devs = jax.devices()
  tasks = plan["tasks"]
  progs, first, w0s, steps, results = [], [], [], [], [None] * len(tasks)
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    m = M_HOST if p["host"] else M_DEVICE
    with jax.default_device(devs[k]):
      prog = program(p, k)
      if p["host"]:
        from jax_sgmc.data.numpy_loader import NumpyDataLoader
        prog["loader"].bind(NumpyDataLoader(**prog["model"].data))
      r = np.random.default_rng(t["draw"])
      w = prog["model"].draw(r, m, t["temp"] * p["cold"])
      e = r.normal(size=(m, prog["model"].dim))
      eps = steps_of(p, t, prog["model"], prog["inv"])
      if not prog["warm"]:
        prog["warm"].append(1)
        lib.settle(prog["run"](prog["start"](t["key"], w, e, t["temp"], m), eps[::CALLS], np.float32(t["temp"])))
        if p["host"]:
          prog["loader"].bind(NumpyDataLoader(**prog["model"].data))
      progs.append(prog)
      first.append(lib.local(prog["start"](t["key"], w, e, t["temp"], m), devs[k]))
      w0s.append(w)
      steps.append(eps)

  def body(k):
    def go():
      st, parts = first[k], []
      for c in range(CALLS):
        seams.sim().point("call", c)
        st, out = jax.block_until_ready(progs[k]["run"](st, steps[k][c::CALLS], np.float32(tasks[k]["temp"])))
        parts.append(jax.tree_util.tree_map(np.asarray, out))
      results[k] = jax.tree_util.tree_map(lambda *x: np.concatenate(x), *parts)
    return go
  ctx.simulate([("c%d" % k, body(k)) for k in range(len(tasks))])
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    what = "task %d (%s, step sizes around %.3g, temperature %s)" % (k, json.dumps(p), steps[k].mean(), t["temp"])
    worst, acc, moved = decide(p, t, progs[k], w0s[k], results[k], what)
    ctx.note("trajectories", steps[k].size * len(w0s[k]))
    ctx.note("rejections", int((1 - moved) * steps[k].size * len(w0s[k])))
    if acc < 0.95 and not p["host"]:
      ctx.note("ensembles_with_rejections")
  ctx.nontrivial = True
