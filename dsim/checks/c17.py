"""C17: potentials mean the same whichever way they are evaluated.

Compiled programs of concurrent chains draw mini-batches (late callbacks, slow and
failing reads), evaluate the stochastic potential with its gradient on every batch and
the full potential after it; the model state runs through all evaluations.  Values,
gradients, per-observation likelihoods and states are recomputed in double precision
from the observations each batch names.  All strategies have to agree with it.
"""
import json

import numpy as np

from dsim import lib
from dsim.core import require, rig
from dsim.lib import jx

GROUP = 30
D = 4
K = 6                                    # batches per call
SCALE = np.array([1.0, 0.7, 1.6, 2.2])
PHASE = np.array([0.3, 1.1, -0.8, 2.0])
LEAN = 0.3                               # the prior is not symmetric
LOGW = 0.05


def gen_prog(g):
  p = {"n": g.choice([1, 2, 3, 4, 6, 7, 9, 12]), "cache": g.choice([1, 2, 3, 7]),
       "pot": g.choice(["map", "vmap", "batched", "batched", "pmap"]),
       "full": g.choice(["map", "vmap", "batched"]),
       "data": g.choice(["host", "host", "device"]), "state": g.random() < 0.5,
       "temp": g.choice([1.0, 1.0, 2.0, 0.25]), "lik": g.random() < 0.4, "mask": g.random() < 0.15,
       "shape": g.random() < 0.25, "pshape": g.random() < 0.25}
  p["mb"] = g.choice([m for m in (1, 2, 3, 4, 6) if m <= p["n"]])
  p["fmb"] = g.choice([m for m in (1, 2, 3, 4, 5, 8) if m <= p["n"]])
  p["fcache"] = g.choice([1, 2, 4])
  if p["data"] == "device":
    p["cache"] = 1                       # there is no cache on the device
  return p


def gen(rng, tier, i):
  g = rng.group
  pal = [gen_prog(g) for _ in range(2)]
  tasks = []
  for _ in range(rng.choice([1, 2, 2, 3])):
    tasks.append({"prog": rng.randrange(len(pal)), "seed": rng.randrange(50),
                  "mode": rng.choice(["plain", "shuffle", "epochs", "epochs"]),
                  "calls": [{"x": rng.getrandbits(20), "still": rng.random() < 0.5,
                             "spread": rng.choice([0.1, 1.0, 5.0])} for _ in range(rng.randint(1, 4))]})
  faults = [{"site": "loader:%d" % rng.randrange(4), "n": rng.randint(0, 10),
             "kind": rng.choice(["slow", "slow", "EIO", "late"])} for _ in range(rng.choice([0, 0, 1, 3]))]
  if rng.random() < 0.3:
    faults.append({"site": "io_callback", "n": rng.randint(0, 8), "kind": "slow"})
  return {"pal": pal, "tasks": tasks, "faults": faults,
          "sched": lib.sched(rng, targets=["c0", "c1"], line=0.15)}


def tree(vec):
  return {"s": vec[0], "v": vec[1:3], "w": vec[3:4].reshape((1, 1))}


def flat(t):
  return np.concatenate([np.asarray(t[k], np.float64).reshape(-1) for k in ("s", "v", "w")])


def new_loader(p):
  if p["data"] == "device":
    from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
    return DeviceNumpyDataLoader(**lib.dataset(p["n"], 0, 1))
  return lib.np_loader(p["n"], 0, 1)


def functions(p, how, full):
  """Prior and likelihood as the user writes them for this strategy."""
  jax = jx()
  jnp = jax.numpy

  def one(sample, obs):
    th = jnp.concatenate([jnp.reshape(sample[k], (-1,)) for k in ("s", "v", "w")])
    z = obs["x"] / p["n"]
    # only finite for observations of the data set (x = 1, 2, ...)
    return jnp.sum(jnp.sin(jnp.asarray(SCALE, jnp.float32) * th * z + jnp.asarray(PHASE, jnp.float32))) \
      + LOGW * th[0] * jnp.log(obs["x"])
  if how == "batched":
    value = lambda sample, batch: jax.vmap(lambda o: one(sample, o))(batch)
  elif p["shape"]:
    value = lambda sample, obs: one(sample, obs)[None]
  else:
    value = one
  if p["state"]:
    # the state has no influence on the value, it counts evaluations
    def like(state, sample, obs, mask=None):
      return value(sample, obs), {"a": state["a"] + 1.0, "b": 0.5 * state["b"]}
  else:
    def like(sample, obs, mask=None):
      return value(sample, obs)

  def prior(sample):
    q = -0.5 * sum(jnp.sum(jnp.square(v)) for v in sample.values()) + LEAN * sample["s"]
    return q[None] if p["pshape"] and (full or how == "pmap") else q
  strategy = {"strategy": "map" if how == "batched" else how, "is_batched": how == "batched"}
  return prior, like, dict(strategy, has_state=p["state"], temperature=p["temp"])


def first_state(p):
  jnp = jx().numpy
  return {"a": jnp.array(0.0), "b": jnp.array([1.0, 2.0])} if p["state"] else None


def program(p, slot):
  def build():
    from jax_sgmc import data, potential
    jax = jx()
    jnp = jax.numpy
    loader = lib.proxy_class()(new_loader(p)) if p["data"] == "host" else new_loader(p)
    init_data, get_data, _ = data.random_reference_data(loader, p["cache"], p["mb"])
    prior, like, kw = functions(p, "vmap" if p["pot"] == "pmap" else p["pot"], False)
    pot = potential.minibatch_potential(prior, like, **kw)
    prior, like, kw = functions(p, p["full"], True)
    full = potential.full_potential(prior, like, **kw)
    init_full, full_map, _ = data.full_reference_data(loader, p["fcache"], p["fmb"])

    def run(carry, xs):
      data_state, full_state, ms = carry
      def body(st, x):
        data_state, ms = st
        sample = tree(x)
        data_state, batch = get_data(data_state, information=True)
        mask = None
        if p["mask"]:
          mask = jnp.mod(batch[0]["x"], 3) != 0
        (value, aux), grad = jax.value_and_grad(pot, has_aux=True)(
          sample, batch, state=ms, mask=mask, likelihoods=p["lik"])
        liks, ms = aux if p["lik"] else (None, aux)
        return (data_state, ms), {"ids": batch[0]["x"], "value": value, "grad": grad, "lik": liks, "ms": ms}
      (data_state, ms), out = jax.lax.scan(body, (data_state, ms), xs)
      value, (full_state, ms) = full(tree(xs[-1]), full_state, full_map, state=ms)
      out["full"], out["full_ms"] = value, ms
      return (data_state, full_state, ms), out
    return {"loader": loader, "run": jax.jit(run), "warm": [],
            "start": lambda t: (init_data(**kwargs(p, t)), init_full())}
  return rig(("c17", slot, json.dumps(p, sort_keys=True)), build)


def kwargs(p, t):
  kw = {"seed": t["seed"]}
  if p["data"] == "host":
    kw.update({"plain": {}, "shuffle": {"shuffle": True},
               "epochs": {"shuffle": True, "in_epochs": True}}[t["mode"]])
  return kw


def points(call):
  r = np.random.default_rng(call["x"])
  x = np.asarray(call["spread"] * r.normal(size=(K, D)), np.float32)
  return np.tile(x[:1], (K, 1)) if call["still"] else x


def run(plan, ctx):
  jax = jx()
  devs = jax.devices()
  tasks = plan["tasks"]
  progs, shared, first = [], {}, []
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    with jax.default_device(devs[k]):
      prog = program(p, k)
      if not prog["warm"]:
        prog["warm"].append(1)
        if p["data"] == "host":
          prog["loader"].bind(lib.np_loader(p["n"], 0, 1))
        s = lib.local(prog["start"](t)) + (lib.local(first_state(p)),)
        for _ in range(2 + p["fcache"]):       # every request has been made once
          s, _ = prog["run"](s, lib.local(points(t["calls"][0])))
        lib.settle(s)
      progs.append(prog)
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    with jax.default_device(devs[k]):
      if p["data"] == "host":
        progs[k]["loader"].bind(shared.setdefault(p["n"], lib.np_loader(p["n"], 0, 1)))
      first.append(progs[k]["start"](t))
  outs = [[] for _ in tasks]
  failed = [0] * len(tasks)
  starting = [None]

  def body(k):
    t = tasks[k]
    def again():
      s = ctx.sims[-1]
      for attempt in range(6):
        s.block(lambda: starting[0] is None, "registration")
        starting[0] = k
        try:
          return lib.local(progs[k]["start"](t))
        except Exception as e:
          if not lib.is_injected(e) or attempt == 5:
            raise
        finally:
          starting[0] = None

    def go():
      data_state, full_state = lib.local(first[k])
      ms = lib.local(first_state(plan["pal"][t["prog"]]))
      fresh = True
      for call in t["calls"]:
        x = lib.local(points(call))
        for attempt in range(6):
          try:
            (data_state, full_state, ms), out = jax.block_until_ready(
              progs[k]["run"]((data_state, full_state, ms), x))
            outs[k].append((fresh, jax.tree_util.tree_map(np.asarray, out)))
            fresh = False
            break
          except Exception as e:
            if not lib.is_injected(e) or attempt == 5:
              raise
            failed[k] += 1
            # nobody knows where the chains stand: new ones, the model state remains
            data_state, full_state = again()
            fresh = True
    return go
  ctx.simulate([("c%d" % k, body(k)) for k in range(len(tasks))])
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    what = "chain %d (%s)" % (k, json.dumps(p, sort_keys=True))
    decide(p, t, outs[k], what, ctx)
    if p["pot"] == "pmap" and outs[k]:
      parallel(p, t, outs[k][0][1], what, ctx)
  ctx.note("failed_calls", sum(failed))
  ctx.nontrivial = True


def lik(p, th, x):
  """Log-likelihoods of observations and their gradients."""
  x = np.asarray(x, np.float64)
  z = (x / p["n"])[:, None]
  grad = SCALE * z * np.cos(SCALE * th * z + PHASE)
  grad[:, 0] += LOGW * np.log(x)
  return np.sin(SCALE * th * z + PHASE).sum(1) + LOGW * th[0] * np.log(x), grad


def log_prior(th):
  return -0.5 * (th ** 2).sum() + LEAN * th[0], -th + LEAN * np.eye(D)[0]


def near(a, b, size, tol=3e-5):
  a = np.asarray(a, np.float64)
  return a.shape == np.shape(b) and bool(np.all(np.abs(a - b) <= tol * (1.0 + np.abs(b) + size)))


def expect(p, th, x):
  """Stochastic potential, gradient and likelihoods for the batch x."""
  v, g = lik(p, th, x)
  m = np.mod(x, 3) != 0 if p["mask"] else np.ones(len(x))
  lp, gp = log_prior(th)
  scale = p["n"] / p["mb"]
  value = (-scale * (v * m).sum() - lp) / p["temp"]
  grad = (-scale * (g * m[:, None]).sum(0) - gp) / p["temp"]
  size = (scale * np.abs(v).sum() + abs(lp) + scale * np.abs(g).sum() * (1 + np.abs(th).max())) / p["temp"]
  return value, grad, v, size


def decide(p, t, outs, what, ctx):
  a, b = 0, np.array([1.0, 2.0])
  passes = -(-p["n"] // p["fmb"])
  for c, (fresh, out) in enumerate(outs):
    xs = points(t["calls"][c]).astype(np.float64)
    for i in range(K):
      who = "%s, call %d, batch %d" % (what, c, i)
      x = out["ids"][i].astype(np.int64)
      require(x.shape == (p["mb"],) and x.min() >= 1 and x.max() <= p["n"], "batch", "%s: %s", who, x.tolist())
      value, grad, v, size = expect(p, xs[i], x)
      require(near(out["value"][i], value, size), "stochastic-potential", "%s: potential %s, for the "
              "observations %s and the sample %s it is %s", who, out["value"][i], x.tolist(),
              xs[i].tolist(), value)
      have = flat({q: w[i] for q, w in out["grad"].items()})
      require(near(have, grad, size), "gradient", "%s: gradient %s, for the observations %s it is %s",
              who, have.tolist(), x.tolist(), grad.tolist())
      if p["lik"]:
        require(near(out["lik"][i], v, 1.0 + np.abs(xs[i]).max()), "likelihoods",
                "%s: likelihoods %s of the observations %s are %s", who, out["lik"][i].tolist(),
                x.tolist(), v.tolist())
      if p["state"]:
        a, b = a + 1, b / 2
        require(float(out["ms"]["a"][i]) == a and near(out["ms"]["b"][i], b, 0), "model-state",
                "%s: model state %s after %d batches", who,
                {q: w[i].tolist() for q, w in out["ms"].items()}, a)
      ctx.note("potentials")
    lp = log_prior(xs[-1])[0]
    v = lik(p, xs[-1], np.arange(1, p["n"] + 1))[0]
    value = (-v.sum() - lp) / p["temp"]
    require(near(out["full"], value, (np.abs(v).sum() * (1 + np.abs(xs[-1]).max()) + abs(lp)) / p["temp"]),
            "full-potential", "%s, call %d: full potential %s, the sum over the data set is %s", what, c,
            out["full"], value)
    if p["state"]:
      a, b = a + passes, b / 2 ** passes
      require(float(out["full_ms"]["a"]) == a and near(out["full_ms"]["b"], b, 0), "model-state",
              "%s, call %d: model state %s after %d batches", what, c,
              {q: w.tolist() for q, w in out["full_ms"].items()}, a)
    # the chain of the batches goes on: an epoch has the mean of the data set
    if t["mode"] == "epochs" and p["data"] == "host" and p["n"] % p["mb"] == 0 and not p["mask"] \
        and t["calls"][c]["still"]:
      ep = p["n"] // p["mb"]
      begin = (-K * (c - since(outs, c))) % ep
      for e in range(begin, K - ep + 1, ep):
        mean = np.asarray(out["value"][e:e + ep], np.float64).mean()
        require(near(mean, value, (np.abs(v).sum() * (1 + np.abs(xs[-1]).max()) + abs(lp)) / p["temp"]),
                "epoch-mean", "%s, call %d: the mean of the potential over an epoch is %s, the full "
                "potential %s", what, c, mean, value)
        ctx.note("epochs")


def since(outs, c):
  """The call before c (or c itself) that began with a new chain."""
  while not outs[c][0]:
    c -= 1
  return c


def parallel(p, t, out, what, ctx):
  """The first batches evaluated by pmap, one observation per device."""
  from jax_sgmc import potential
  from jax_sgmc.data.core import MiniBatchInformation
  jax = jx()
  jnp = jax.numpy
  if p["mb"] > len(jax.devices()):
    return
  def build():
    prior, like, kw = functions(p, "pmap", False)
    return potential.minibatch_potential(prior, like, **kw)
  pot = rig(("c17", "pmap", json.dumps(p, sort_keys=True)), build)
  xs = points(t["calls"][0]).astype(np.float64)
  for i in range(2):
    x = out["ids"][i]
    info = MiniBatchInformation(observation_count=jnp.array(p["n"]), batch_size=jnp.array(p["mb"]),
                                mask=jnp.ones(p["mb"], bool))
    sample = jax.tree_util.tree_map(jnp.asarray, tree(xs[i].astype(np.float32)))
    mask = jnp.asarray(np.mod(x, 3) != 0) if p["mask"] else None
    got, aux = pot(sample, ({"x": jnp.asarray(x)}, info), state=first_state(p), mask=mask,
                   likelihoods=p["lik"])
    liks, ms = aux if p["lik"] else (None, aux)
    value, _, v, size = expect(p, xs[i], x.astype(np.int64))
    require(near(got, value, size), "pmap-potential", "%s, batch %d by pmap: potential %s, for the "
            "observations %s it is %s", what, i, got, x.tolist(), value)
    if p["lik"]:
      require(near(liks, v, 1.0 + np.abs(xs[i]).max()), "pmap-likelihoods",
              "%s, batch %d by pmap: likelihoods %s are %s", what, i, np.asarray(liks).tolist(), v.tolist())
    if p["state"]:
      require(float(ms["a"]) == 1.0 and near(ms["b"], [0.5, 1.0], 0), "pmap-state",
              "%s, batch %d by pmap: %s", what, i, ms)
    ctx.note("pmap_potentials")
