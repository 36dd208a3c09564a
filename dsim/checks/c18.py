"""C18: adaption estimates equal the documented function of the history they have seen.

Compiled programs draw mini-batches from a simulated loader (late callbacks, slow reads,
several chains at a time) and feed an adaption strategy with samples and gradients;
calls continue from any earlier state.  Solver runs adapt their mass on the samples
they accept.  The estimates are recomputed in double precision from the history.
"""
import json

import numpy as np

from dsim import lib
from dsim.core import require, rig
from dsim.lib import jx

GROUP = 30
D = 4
K = 12                                   # samples per call
SCALE = np.array([1.0, 0.7, 1.6, 2.2])
PHASE = np.array([0.3, 1.1, -0.8, 2.0])


# (kind, full matrix) of the two programs of consecutive groups of runs
KINDS = [("fisher", True), ("mass", True), ("solver", False), ("rms", False), ("solver", True), ("fisher", False),
         ("mass", False), ("fisher", True), ("solver", False), ("mass", True)]


def gen_prog(g, turn):
  kind, full = KINDS[turn % len(KINDS)]
  p = {"kind": kind, "n": g.choice([6, 11]), "mb": g.choice([2, 3, 5]), "cache": g.choice([1, 2, 5]),
       "pot": g.choice(["map", "vmap"]), "full": full, "state": g.random() < 0.3}
  if kind in ("mass", "solver"):
    p["burn"] = g.choice([11, 14, 20, 30]) if p["full"] else g.choice([3, 7, 14, 30])
    p["init"] = g.choice([None, "ones", "other"])
  if kind == "solver":
    p["solver"] = g.choice(["sggmc", "amagold"])
    p["steps"] = g.choice([1, 2])
  if kind == "rms":
    p["args"] = g.choice([None, [0.5, 0.1], [0.95, 1e-3]])
  if kind == "fisher":
    p["friction"] = g.choice([0.5, 2.0])
  return p


def gen(rng, tier, i):
  g = rng.group
  pal = [gen_prog(g, 2 * (i // GROUP) + j) for j in range(2)]
  tasks = []
  for _ in range(rng.choice([1, 2, 2, 3])):
    calls = []
    for c in range(rng.randint(2, 4)):
      calls.append({"from": c if rng.random() < 0.8 else rng.randint(0, c), "x": rng.getrandbits(20),
                    "spread": rng.choice([0.1, 1.0, 1.0, 3.0]), "eps": rng.choice([0.02, 0.1, 0.5])})
    tasks.append({"prog": rng.randrange(len(pal)), "calls": calls, "seed": rng.randrange(50),
                  "centre": rng.choice([0.0, 0.0, 2.0, -20.0]), "key": rng.getrandbits(20)})
  faults = [{"site": "loader:%d" % rng.randrange(3), "n": rng.randint(0, 12), "kind": "slow"}
            for _ in range(rng.choice([0, 0, 1, 3]))]
  return {"pal": pal, "tasks": tasks, "faults": faults,
          "sched": lib.sched(rng, targets=["c0", "c1"], line=0.15)}


def tree(vec):
  return {"s": vec[0], "v": vec[1:3], "w": vec[3:4].reshape((1, 1))}


def flat(t):
  return np.concatenate([np.asarray(t[k], np.float64).reshape(-1) for k in ("s", "v", "w")])


OTHER = np.array([2.0, 0.5, 1.5, 4.0], np.float32)


def program(p, slot):
  def build():
    from jax_sgmc import adaption, data, integrator, potential, scheduler, solver
    jax = jx()
    jnp = jax.numpy
    loader = lib.proxy_class()(lib.np_loader(p["n"], 0))
    batch_fn = data.random_reference_data(loader, p["cache"], p["mb"])
    init_data, get_data, _ = batch_fn

    def loglik(sample, obs):
      th = jnp.concatenate([jnp.reshape(sample[k], (-1,)) for k in ("s", "v", "w")])
      z = (obs["x"] + 1.0) / p["n"]
      return jnp.sum(jnp.sin(jnp.asarray(SCALE, jnp.float32) * th * z + jnp.asarray(PHASE, jnp.float32)))
    like = (lambda state, sample, obs: (loglik(sample, obs), state + 1.0)) if p["state"] else loglik
    prior = lambda sample: -0.5 * sum(jnp.sum(jnp.square(v)) for v in sample.values())
    make_args = dict(strategy=p["pot"], has_state=p["state"])
    pot = potential.minibatch_potential(prior, like, **make_args)
    ms = jnp.array(0.0) if p["state"] else None
    out = {"loader": loader, "warm": []}

    if p["kind"] == "solver":
      full = potential.full_potential(prior, like, **make_args)
      fmap = data.full_reference_data(loader, p["cache"], p["mb"])
      ma = adaption.mass_matrix(diagonal=not p["full"], burn_in=p["burn"])
      make = {"sggmc": integrator.obabo, "amagold": integrator.reversible_leapfrog}[p["solver"]]
      init, update, _ = getattr(solver, p["solver"])(
        make(pot, batch_fn, p["steps"], 0.5), full, fmap, mass_adaption=ma)
      def start(t):
        x = np.asarray(np.random.default_rng(t["key"]).normal(size=D), np.float32)
        kw = {}
        if p["init"] is not None:
          kw["initial_mass"] = jax.tree_util.tree_map(
            jnp.asarray, tree(np.ones(D, np.float32) if p["init"] == "ones" else OTHER))
        return init(jax.tree_util.tree_map(jnp.asarray, tree(x)), key=jax.random.PRNGKey(t["key"]),
                    batch_kwargs={"seed": t["seed"]}, init_model_state=ms, **kw)
      def run(state, xs, eps):
        def body(st, _):
          s = scheduler.schedule(eps, jnp.array(1.0), jnp.array(1.0), jnp.array(True))
          new, stats = update(st, s)
          m = ma[2](new.mass_state)
          return new, {"x": new.integrator_state.positions, "inv": m.inv.tensor, "sqrt": m.sqrt.tensor,
                       "acc": stats["acceptance_ratio"]}
        return jax.lax.scan(body, state, xs)
    else:
      if p["kind"] == "rms":
        strategy = adaption.rms_prop()
      elif p["kind"] == "fisher":
        strategy = adaption.fisher_information(minibatch_potential=pot, diagonal=not p["full"])
      else:
        strategy = adaption.mass_matrix(diagonal=not p["full"], burn_in=p["burn"])
      ainit, aupdate, aget = strategy
      def start(t):
        args, kw = (), {}
        if p["kind"] == "rms" and p["args"]:
          kw = {"alpha": p["args"][0], "lmbd": p["args"][1]}
        if p["kind"] == "mass":
          args = (None,) if p["init"] is None else (jax.tree_util.tree_map(
            jnp.asarray, tree(np.ones(D, np.float32) if p["init"] == "ones" else OTHER)),)
        x = jax.tree_util.tree_map(jnp.asarray, tree(np.zeros(D, np.float32)))
        return ainit(x, *args, **kw), init_data(seed=t["seed"])
      friction = jax.tree_util.tree_map(jnp.asarray, tree(np.full(D, p.get("friction", 1.0), np.float32)))
      def run(state, xs, eps):
        def body(st, x):
          adapt, data_state = st
          sample = tree(x)
          data_state, batch = get_data(data_state, information=True)
          (_, new_ms), grad = jax.value_and_grad(pot, has_aux=True)(sample, batch, state=ms)
          if p["kind"] == "rms":
            adapt = aupdate(adapt, sample, grad, batch)
            m = aget(adapt, sample, grad, batch)
          elif p["kind"] == "fisher":
            adapt = aupdate(adapt, sample, grad, friction, mini_batch=batch, step_size=eps)
            m = aget(adapt, sample, grad, friction, mini_batch=batch, step_size=eps, model_state=ms)
          else:
            adapt = aupdate(adapt, sample)
            m = aget(adapt)
          return (adapt, data_state), {"ids": batch[0]["x"], "grad": grad,
                                       "m": [q.tensor for q in m]}
        return jax.lax.scan(body, state, xs)
    def restart(t):
      # the functions in the state of a strategy are new objects for every chain; with
      # those of the first chain the program is compiled only once
      leaves, like = jax.tree_util.tree_flatten(start(t))
      if "like" not in out:
        out["like"] = like
      assert len(leaves) == out["like"].num_leaves
      return jax.tree_util.tree_unflatten(out["like"], leaves)
    out.update(start=restart, run=jax.jit(run))
    return out
  return rig(("c18", slot, json.dumps(p, sort_keys=True)), build)


def points(t, call):
  r = np.random.default_rng(call["x"])
  return np.asarray(t["centre"] + call["spread"] * r.normal(size=(K, D)), np.float32)


def run(plan, ctx):
  jax = jx()
  devs = jax.devices()
  tasks = plan["tasks"]
  progs, first = [], []
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    with jax.default_device(devs[k]):
      prog = program(p, k)
      if not prog["warm"]:
        prog["warm"].append(1)
        prog["loader"].bind(lib.np_loader(p["n"], 0))
        lib.settle(prog["run"](prog["start"](t), points(t, t["calls"][0]), np.float32(0.1)))
      progs.append(prog)
  shared = {}
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    progs[k]["loader"].bind(shared.setdefault(p["n"], lib.np_loader(p["n"], 0)))
    with jax.default_device(devs[k]):
      first.append(lib.local(progs[k]["start"](t), devs[k]))
  outs = [[] for _ in tasks]

  def body(k):
    def go():
      states = [first[k]]
      for call in tasks[k]["calls"]:
        # the chain of the loader goes on, only the adaption returns to an earlier state
        st = states[-1]
        if plan["pal"][tasks[k]["prog"]]["kind"] != "solver":
          st = (states[call["from"]][0], st[1])
        new, out = jax.block_until_ready(
          progs[k]["run"](st, points(tasks[k], call), np.float32(call["eps"])))
        states.append(new)
        outs[k].append(jax.tree_util.tree_map(np.asarray, out))
    return go
  ctx.simulate([("c%d" % k, body(k)) for k in range(len(tasks))])
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    what = "chain %d (%s)" % (k, json.dumps(p, sort_keys=True))
    decide(p, t, outs[k], what, ctx)
  ctx.nontrivial = True


def close(a, b, tol, floor=1.0):
  a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
  return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (floor + np.abs(b))))


def at(t, *index):
  return {k: v[index] for k, v in t.items()} if isinstance(t, dict) else t[index]


def value(t):
  return flat(t) if isinstance(t, dict) else np.asarray(t, np.float64)


def scores(p, th, ids):
  """Gradients of the log-likelihood of every observation."""
  z = ((np.asarray(ids, np.float64) + 1.0) / p["n"])[:, None]
  return SCALE * z * np.cos(SCALE * th * z + PHASE)


def decide(p, t, outs, what, ctx):
  if p["kind"] in ("mass", "solver"):
    decide_mass(p, t, outs, what, ctx)
    return
  v = [np.ones(D)]
  for c, (call, out) in enumerate(zip(t["calls"], outs)):
    xs = points(t, call).astype(np.float64)
    now = v[call["from"]]
    for i in range(K):
      who = "%s, call %d, sample %d" % (what, c, i)
      th = xs[i]
      s = scores(p, th, out["ids"][i])
      grad = th - p["n"] * s.mean(0)
      have = value(at(out["grad"], i))
      require(close(have, grad, 2e-4, 1.0 + np.abs(p["n"] * s).max()), "gradient",
              "%s: gradient %s, for the batch %s it is %s", who, have, out["ids"][i], grad)
      m = [value(at(q, i)) for q in out["m"]]
      if p["kind"] == "rms":
        alpha, lmbd = p["args"] or (0.9, 1e-5)
        now = alpha * now + (1 - alpha) * have ** 2
        g = 1 / (lmbd + np.sqrt(now))
        require(close(m[0], g, 1e-3, 1e-2) and close(m[1], np.sqrt(g), 1e-3, 1e-2)
                and close(m[2], 0 * g, 0), "rmsprop", "%s: manifold %s, the gradients seen give %s", who,
                [x.tolist() for x in m], g.tolist())
      else:
        diff = s + have / p["n"]             # the gradient is the one of the potential
        friction, eps = p["friction"], call["eps"]
        tol = 1e-4 * (1 + np.abs(diff).max() ** 2)
        if p["full"]:
          b = 0.5 * eps * diff.T @ diff / (p["mb"] - 1)
          if np.linalg.eigvalsh(friction * np.eye(D) - b).min() < 0.02:
            ctx.note("noise_beyond_friction")
            continue
          ok = (close(m[0] @ m[0].T, friction * np.eye(D) - b, tol)
                and close(m[1] @ m[1].T, b, tol))
        else:
          b = 0.5 * eps * (diff ** 2).sum(0) / (p["mb"] - 1)
          left = friction - b
          if np.abs(left).min() < 1e-3 or (left <= 0).all():
            ctx.note("noise_beyond_friction")
            continue
          left = np.where(left <= 0, left[left > 0].min(), left)
          ok = close(m[0] ** 2, left, tol) and close(m[1] ** 2, friction - left, tol)
        require(ok, "fisher", "%s: noise model %s, scores %s around %s give %s", who,
                [x.tolist() for x in m], s.tolist(), (-have / p["n"]).tolist(), b.tolist())
      ctx.note("estimates_" + p["kind"])
    v.append(now)


def decide_mass(p, t, outs, what, ctx):
  start = {None: np.ones(D), "ones": np.ones(D), "other": OTHER.astype(float)}[p["init"]]
  seen = [[]]
  for c, (call, out) in enumerate(zip(t["calls"], outs)):
    solver = p["kind"] == "solver"
    if solver:
      xs = np.stack([flat(at(out["x"], i)) for i in range(K)])
      inv, sqrt = out["inv"], out["sqrt"]
      past = list(seen[-1])
    else:
      xs = points(t, call).astype(np.float64)
      inv, sqrt = out["m"]
      past = list(seen[call["from"]])
    for i in range(K):
      who = "%s, call %d, sample %d (number %d)" % (what, c, i, len(past) + 1)
      past.append(xs[i])
      hi, hs = value(at(inv, i)), value(at(sqrt, i))
      if not np.all(np.isfinite(xs[i])):
        ctx.note("diverged")
        return
      if len(past) < p["burn"]:
        cov = np.diag(start)
      else:
        h = np.array(past[:p["burn"]])
        cov = (h - h.mean(0)).T @ (h - h.mean(0)) / p["burn"]
      if not p["full"]:
        cov = np.diag(np.diag(cov))
        hi, hs = np.diag(hi), np.diag(hs)
      big = np.abs(np.array(past)).max()
      low = np.linalg.eigvalsh(cov).min()
      if low < 1e-3 * np.abs(cov).max() or low < 1e-5 * big ** 2:
        # hardly any variance: the inverse is not determined in single precision
        ctx.note("degenerate")
        if solver:
          return
        continue
      tol = 1e-4 + 1e-6 * big ** 2 / np.abs(cov).max()
      require(close(hi, cov, tol, np.abs(cov).max()), "inverse-mass", "%s: inverse mass %s, the samples "
              "have the covariance %s", who, hi.tolist(), cov.tolist())
      have = hs @ hs.T @ cov
      require(close(have, np.eye(D), 30 * tol * np.abs(cov).max() / low), "mass-root",
              "%s: the square root of the mass %s does not belong to the covariance %s (product %s)", who,
              hs.tolist(), cov.tolist(), have.tolist())
      ctx.note("estimates_" + p["kind"])
      if len(past) >= p["burn"]:
        ctx.note("after_burn_in")
    seen.append(past)
