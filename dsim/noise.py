"""The noise of the integrators in long runs (part of C15).

Most parameters of the model have no influence on the potential, the mini-batch is the
whole (shuffled) data set, so every step can be solved for its noise without knowing
more than positions and momenta.  Some ten thousand numbers per chain decide scale,
shape and independence of the noise, also for full mass matrices and noise models.
"""
import json
import math

import numpy as np

from dsim import lib
from dsim.core import require, rig
from dsim.lib import jx

S = 4                                    # parameters of the model, behind the free ones
K = 64                                   # steps per call
SCALE = np.array([1.0, 0.7, 1.6, 2.2])
# noise models: the covariance of the gradients has to change from step to step
WAVES = np.array([4.0, 7.0, 5.0, 9.0])
PHASE = np.array([0.3, 1.1, -0.8, 2.0])


def scale_of(p):
  return (WAVES, 5.0 / WAVES) if p["model"] else (SCALE, np.ones(S))


def free(p):
  return 12 if p["model"] == "full" else 60


def mass_of(p):
  return np.repeat([0.5, 4.0, 1.5, 1.0, 0.7, 2.0], [free(p) // 2] * 2 + [1] * S)


def friction_of(p):
  return np.repeat([0.3, 2.0, 0.8, 1.2, 1.0, 0.9], [free(p) // 2] * 2 + [1] * S)


def full_mass(p):
  a = np.array([[1.5, 0.4, -0.3, 0.2], [0.4, 1.0, 0.3, 0.1], [-0.3, 0.3, 2.0, -0.4], [0.2, 0.1, -0.4, 0.8]])
  m = np.diag(mass_of(p))
  m[-S:, -S:] = a
  return m


def gen_prog(g):
  kind = g.choice(["langevin", "friction", "friction", "friction", "reversible", "obabo"])
  p = {"kind": kind, "n": g.choice([3, 5]), "cache": g.choice([1, 7, 20]),
       "mass": "none" if kind == "langevin" else g.choice(["none", "const", "arg", "full"]),
       "friction": g.choice([0.25, 1.0, 3.0]) if kind != "friction" else g.choice(["tree", 0.25, 2.0]),
       "adapt": kind == "langevin" and g.random() < 0.5,
       "model": g.choice([None, "diag", "full", "full"]) if kind == "friction" else None}
  return p


def gen(rng, i):
  g = rng.group
  pal = [gen_prog(g) for _ in range(4)]
  for p, model in zip(pal, ("diag", "full")):      # always with noise models, too
    p.update(kind="friction", adapt=False, model=model,
             friction=g.choice(["tree", 0.25, 2.0]), mass=g.choice(["none", "const", "arg", "full"]))
  tasks = []
  for _ in range(rng.choice([1, 2, 2])):
    tasks.append({"prog": rng.randrange(4), "key": rng.getrandbits(30), "seed": rng.randrange(50),
                  "calls": [{"eps": rng.choice([0.02, 0.05, 0.1]), "tau": rng.choice([1.0, 1.0, 0.3, 4.0])}
                            for _ in range(4)]})
  faults = [{"site": "loader:%d" % rng.randrange(2), "n": rng.randint(0, 12), "kind": "slow"}
            for _ in range(rng.choice([0, 0, 2]))]
  return {"free": True, "pal": pal, "tasks": tasks, "faults": faults,
          "sched": lib.sched(rng, targets=["c0", "c1"], line=0)}


def tree(vec):
  return {"p": vec[:-S], "s": vec[-S:]}


def flat(t):
  return np.concatenate([np.asarray(t["p"], np.float64), np.asarray(t["s"], np.float64)], axis=-1)


def program(p, slot):
  def build():
    from jax_sgmc import adaption, data, integrator, potential, scheduler
    from jax_sgmc.util import Tensor
    jax = jx()
    jnp = jax.numpy
    loader = lib.proxy_class()(lib.np_loader(p["n"], 0, 1))
    batch_fn = data.random_reference_data(loader, p["cache"], p["n"])
    scale, amp = (jnp.asarray(q, jnp.float32) for q in scale_of(p))
    def like(sample, obs):
      return jnp.sum(amp * jnp.sin(scale * sample["s"] * obs["x"] / p["n"]
                                   + jnp.asarray(PHASE, jnp.float32)))
    prior = lambda sample: -0.5 * jnp.sum(jnp.square(sample["s"]))
    pot = potential.minibatch_potential(prior, like, strategy="vmap")
    kw = {}
    if p["kind"] != "langevin":
      kw = {"steps": 1, "friction": jax.tree_util.tree_map(jnp.asarray, tree(friction_of(p).astype(np.float32)))
            if p["friction"] == "tree" else p["friction"]}
    if p["mass"] == "const":
      kw["const_mass"] = jax.tree_util.tree_map(jnp.asarray, tree(mass_of(p).astype(np.float32)))
    if p["adapt"]:
      kw["adaption"] = adaption.rms_prop()
    if p["model"]:
      kw["noise_model"] = adaption.fisher_information(minibatch_potential=pot,
                                                      diagonal=p["model"] == "diag")
    make = {"langevin": integrator.langevin_diffusion, "friction": integrator.friction_leapfrog,
            "reversible": integrator.reversible_leapfrog, "obabo": integrator.obabo}[p["kind"]]
    init, update, _ = make(pot, batch_fn, **kw)
    mass = None
    if p["mass"] == "arg":
      mass = integrator.init_mass(tree(mass_of(p).astype(np.float32)))
    elif p["mass"] == "full":
      m = full_mass(p)
      mass = adaption.MassMatrix(
        inv=Tensor(ndim=2, tensor=jnp.asarray(np.linalg.inv(m), jnp.float32)),
        sqrt=Tensor(ndim=2, tensor=jnp.asarray(np.linalg.cholesky(m), jnp.float32)))
    def run(state, eps, tau):
      def body(st, _):
        s = scheduler.schedule(eps, tau, jnp.array(1.0), jnp.array(True))
        st = update(st, s) if p["kind"] == "langevin" else update(st, s, mass=mass)
        return st, show(st)
      return jax.lax.scan(body, state, None, length=K)
    def start(t):
      x0 = np.asarray(np.random.default_rng(t["key"]).normal(size=free(p) + S), np.float32)
      kw = {"adaption_kwargs": {"alpha": 0.7, "lmbd": 0.1}} if p["adapt"] and t["key"] % 2 else {}
      if p["kind"] == "reversible" and mass is not None:
        kw["mass"] = mass
      leaves, like = jax.tree_util.tree_flatten(
        init(jax.tree_util.tree_map(jnp.asarray, tree(x0)), key=jax.random.PRNGKey(t["key"]),
             batch_kwargs={"seed": t["seed"], "shuffle": True}, **kw))
      # the functions in the state of an adaption are new for every chain, take the first
      like = out.setdefault("like", like)
      return jax.tree_util.tree_unflatten(like, leaves)
    out = {"loader": loader, "run": jax.jit(run), "start": start, "warm": []}
    return out
  return rig(("free", slot, json.dumps(p, sort_keys=True)), build)


def show(state):
  out = {"pos": state.positions if hasattr(state, "positions") else state.latent_variables}
  if hasattr(state, "momentum"):
    out["mom"] = state.momentum
  return out


def run(plan, ctx):
  jax = jx()
  devs = jax.devices()
  tasks = plan["tasks"]
  progs, states, outs = [], [], [[] for _ in tasks]
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    with jax.default_device(devs[k]):
      prog = program(p, k)
      if not prog["warm"]:
        prog["warm"].append(1)
        prog["loader"].bind(lib.np_loader(p["n"], 0, 1))
        lib.settle(prog["run"](lib.local(prog["start"](t)), np.float32(0.1), np.float32(1.0)))
      progs.append(prog)
  shared = {}
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    progs[k]["loader"].bind(shared.setdefault(p["n"], lib.np_loader(p["n"], 0, 1)))
    with jax.default_device(devs[k]):
      states.append(lib.local(progs[k]["start"](t), devs[k]))
  first = [jax.tree_util.tree_map(np.asarray, show(s)) for s in states]

  def body(k):
    def go():
      st = states[k]
      for call in tasks[k]["calls"]:
        st, out = jax.block_until_ready(
          progs[k]["run"](st, np.float32(call["eps"]), np.float32(call["tau"])))
        outs[k].append(jax.tree_util.tree_map(np.asarray, out))
    return go
  ctx.simulate([("c%d" % k, body(k)) for k in range(len(tasks))])
  rows = []
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    what = "chain %d (%s)" % (k, json.dumps(p, sort_keys=True))
    rows.append(solve(p, t, first[k], outs[k], ctx))
    for r in rows[-1]:
      normal(r, what)
    if len(rows[-1]) > 1:
      correlate(*rows[-1], what + ", two noise terms of a step")
  for a in range(len(tasks)):
    for b in range(a):
      if tasks[a]["key"] != tasks[b]["key"]:
        correlate(rows[a][-1], rows[b][-1], "chains %d and %d" % (b, a))
  ctx.nontrivial = True


def scores(p, th):
  """Gradients of the log-likelihoods of all observations, and of the potential."""
  z = (np.arange(1, p["n"] + 1) / p["n"])[:, None]
  s = np.zeros((p["n"], free(p) + S))
  scale, amp = scale_of(p)
  s[:, -S:] = amp * scale * z * np.cos(scale * z * th[-S:] + PHASE)
  g = -s.sum(0)
  g[-S:] += th[-S:]
  return s, g


def white(cov, r):
  """r = root of cov times noise: the noise, up to a rotation."""
  if cov.ndim == 1:
    return r / np.sqrt(cov)
  out = r / np.sqrt(np.diag(cov))
  out[-S:] = np.linalg.solve(np.linalg.cholesky(cov[-S:, -S:]), r[-S:])
  return out


def solve(p, t, first, outs, ctx):
  D = free(p) + S
  mass = {"none": np.ones(D), "full": full_mass(p)}.get(p["mass"], mass_of(p))
  inv = (lambda v: np.linalg.solve(mass, v)) if mass.ndim == 2 else (lambda v: v / mass)
  mul = (lambda v: mass @ v) if mass.ndim == 2 else (lambda v: v * mass)
  fr = friction_of(p) if p["friction"] == "tree" else p["friction"] * np.ones(D)
  x = [flat(first["pos"])]
  m = [flat(first["mom"])] if "mom" in first else None
  eps, tau = [], []
  for call, out in zip(t["calls"], outs):
    x += list(flat(out["pos"]))
    if m is not None:
      m += list(flat(out["mom"]))
    eps += [float(np.float32(call["eps"]))] * K
    tau += [float(np.float32(call["tau"]))] * K
  a, b = [], []
  alpha, lmbd = (0.7, 0.1) if t["key"] % 2 else (0.9, 1e-5)
  v = np.ones(D)
  for i, (e, T) in enumerate(zip(eps, tau)):
    s, g = scores(p, x[i])
    if p["kind"] == "langevin":
      G = np.ones(D)
      if p["adapt"]:
        v = alpha * v + (1 - alpha) * g ** 2
        G = 1 / (lmbd + np.sqrt(v))
      row = (x[i + 1] - x[i] + e * G * g) / np.sqrt(2 * T * e * G)
      # a random walk that went too far hides the noise in rounding
      a.append(np.where(np.abs(x[i]) * 1e-4 < np.sqrt(2 * T * e * G), row, np.nan))
    elif p["kind"] == "friction":
      start = mul(x[i + 1] - x[i]) / e
      a.append(white(mass, start))
      s, g = scores(p, x[i + 1])
      res = m[i + 1] - start + e * fr * inv(start) + e * g
      left = fr.copy()
      if p["model"]:
        diff = s + g / p["n"]
        if p["model"] == "diag":
          left = fr - 0.5 * e * (diff ** 2).sum(0) / (p["n"] - 1)
          # the other terms are replaced by the smallest positive one
          left = np.where(left <= 0, left[left > 0].min(), left)
        else:
          left = np.diag(fr) - 0.5 * e * diff.T @ diff / (p["n"] - 1)
          if np.linalg.eigvalsh(left).min() < 0.02:
            ctx.note("noise_beyond_friction")
            b.append(np.full(D, np.nan))
            continue
      b.append(white(2 * e * left, res))
    elif p["kind"] == "reversible":
      s, g = scores(p, x[i] + 0.5 * e * inv(m[i]))
      res = m[i + 1] * (1 + e * fr) - (1 - e * fr) * m[i] + e * g
      a.append(white(mass, res / np.sqrt(4 * fr * e)))
    else:
      keep = math.exp(-p["friction"] * e)
      amp = math.sqrt((1 - keep) * T)
      p2 = mul(x[i + 1] - x[i]) / e
      p1 = p2 + 0.5 * e * g
      p3 = p2 - 0.5 * e * scores(p, x[i + 1])[1]
      a.append(white(mass, (p1 - math.sqrt(keep) * m[i]) / amp))
      b.append(white(mass, (m[i + 1] - math.sqrt(keep) * p3) / amp))
  ctx.note("long_noise_numbers", (len(a) + len(b)) * D)
  return [np.array(q) for q in (a, b) if q]


def normal(rows, what):
  """Independent standard normal numbers?"""
  P = rows.shape[1] - S
  HALF = P // 2
  for name, cols in (("first", slice(0, HALF)), ("second", slice(HALF, P)), ("model", slice(P, P + S))):
    x = rows[:, cols]
    x = x[np.isfinite(x).all(1)].reshape(-1)
    n = x.size
    if n < 200:
      continue
    who = "%s: %d noise terms of the %s parameters" % (what, n, name)
    require(np.abs(x).max() < 6.8, "noise", "%s: %s among them", who, np.abs(x).max())
    require(abs(x.mean()) < 6.5 / math.sqrt(n), "noise-mean", "%s: mean %s", who, x.mean())
    require(abs((x ** 2).mean() - 1) < 6.5 * math.sqrt(2 / n) + 20 / n + 1e-3, "noise-variance",
            "%s: variance %s", who, (x ** 2).mean())
    x = np.sort(x)
    cdf = 0.5 * (1 + np.array([math.erf(q) for q in x / math.sqrt(2)]))
    ks = np.abs(cdf - (np.arange(n) + 0.5) / n).max()
    require(ks < math.sqrt(13.5 / n) + 1e-3, "noise-shape", "%s: distance %s to the normal distribution",
            who, ks)
  for lag in (1, 2, 3, 4, 5, 8, 16, 63, 64, 65):
    correlate(rows[lag:], rows[:-lag], "%s lag %d" % (what, lag))
  for a in range(S):
    for b in range(a):
      correlate(rows[:, P + a:P + a + 1], rows[:, P + b:P + b + 1],
                "%s: parameters %d and %d" % (what, b, a))
  correlate(rows[:, :HALF], rows[:, HALF:P], what + ": halves")
  correlate(rows[:, :S], rows[:, P:], what + ": leaves")


def correlate(a, b, what):
  n = min(len(a), len(b))
  m = min(a.shape[1], b.shape[1])
  a, b = a[:n, :m], b[:n, :m]
  ok = np.isfinite(a).all(1) & np.isfinite(b).all(1)
  if m > 2:
    dup = (np.abs(a[ok] - b[ok]) < 2e-3).mean(1) > 0.5
    require(not dup.any(), "noise-reused", "%s: the same noise came twice (%d of %d)", what, dup.sum(), ok.sum())
  x, y = a[ok].reshape(-1), b[ok].reshape(-1)
  if x.size < 60:
    return
  r = (x * y).sum() / math.sqrt((x ** 2).sum() * (y ** 2).sum())
  require(abs(r) * math.sqrt(x.size) < 6.5, "noise-correlated", "%s: correlation %s over %d numbers",
          what, r, x.size)
