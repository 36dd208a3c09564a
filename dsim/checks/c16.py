"""C16: concurrent evaluations through the stateless full data mapper.

Every evaluation is a task on its own device.  Acquiring and returning a data
state and every read are callbacks, hence scheduling points; reads and the
creation of data states may fail.
"""
import numpy as np

from dsim import lib
from dsim.core import require
from dsim.lib import jx

GROUP = 12
LOOP = 3


def gen(rng, tier, i):
  maps = []
  for _ in range(rng.choice([1, 1, 1, 2])):
    n = rng.choice([1, 2, 3, 4, 5, 7, 8])
    maps.append({"n": n, "mb": rng.choice([m for m in (1, 2, 3, 4) if m <= n]),
                 "cache": rng.choice([1, 1, 2, 3, 6]),
                 "kind": rng.choice(["host"] * 9 + ["device"]),
                 "fields": rng.choice([0, 1, 3])})
  progs = []
  for _ in range(rng.choice([1, 1, 2])):
    kind = rng.choice(["masked", "masked", "plain", "single", "potential", "statepot", "double",
                       "scan", "map"])
    progs.append({"map": rng.randrange(len(maps)), "kind": kind,
                  "info": rng.random() < 0.4 and kind in ("masked", "plain")})
  tasks = []
  for c in range(rng.choice([1, 2, 2, 3, 3, 4])):
    tasks.append({"prog": rng.randrange(len(progs)), "evals": rng.randint(1, 4),
                  "x": rng.randint(-3, 3)})
  faults = []
  if rng.random() < 0.4:
    for _ in range(rng.randint(1, 2)):
      faults.append({"site": "loader:%d" % rng.randrange(3), "n": rng.randint(0, 5),
                     "kind": rng.choice(["EIO", "DATA", "ENOMEM", "late", "slow"])})
  if rng.random() < 0.3:
    faults.append({"site": "io_callback", "n": rng.randint(0, 12), "kind": "slow"})
  return {"maps": maps, "progs": progs, "tasks": tasks, "faults": faults,
          "drop_mask": rng.random() < 0.1,
          "sched": lib.sched(rng, targets=["e0", "e1", "e2"], line=0.35)}


def run(plan, ctx):
  from jax_sgmc import data, potential
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
  from dsim.checks.c04 import _fold
  jax = jx()
  jnp = jax.numpy
  devs = jax.devices()
  loaders, mappers = [], []
  for m in plan["maps"]:
    if m["kind"] == "host":
      target = lib.np_loader(m["n"], m["fields"])
      l = lib.proxy_class()(target)
      l.bind(target, plan["drop_mask"])
    else:
      l = DeviceNumpyDataLoader(**lib.dataset(m["n"], m["fields"]))
    loaders.append(l)
    mappers.append(data.full_data_mapper(l, m["cache"], m["mb"]))

  def program(q):
    m = plan["maps"][q["map"]]
    mapper = mappers[q["map"]][0]
    def masked(batch, mask, carry):
      if q["info"]:
        batch, info = batch
      return {"x": jnp.where(mask, batch["x"], -1), "m": mask}, _fold(carry, batch["x"], mask)
    def plain(batch, carry):
      if q["info"]:
        batch, info = batch
      return {"y": 3 * batch["x"] + carry}, carry * 31 + batch["x"][0].astype(jnp.int32)
    def single(obs, carry):
      return {"y": 3 * obs["x"] + carry}, carry * 31 + obs["x"].astype(jnp.int32)
    k = q["kind"]
    if k == "masked":
      return lambda x: mapper(masked, x, masking=True, information=q["info"])
    if k == "double":
      def go(x):
        a, c = mapper(masked, x, masking=True)
        return mapper(masked, c, masking=True), a
      return go
    if k == "scan":               # one evaluation after the other in a loop
      def step(c, _):
        out, c = mapper(masked, c, masking=True)
        return c, (out, c)
      return lambda x: jax.lax.scan(step, x, None, length=LOOP)[1]
    if k == "map":                # evaluations that share all but their argument
      return lambda x: jax.lax.map(lambda v: mapper(masked, v, masking=True), x + jnp.arange(LOOP))
    if k == "plain":
      return lambda x: mapper(plain, x, information=q["info"])
    if k == "single":
      return lambda x: mapper(single, x, batched=False)
    if k == "statepot":
      def like(state, s, o):
        return s * o["x"] + 1.0, {"a": state["a"] + 1, "b": state["b"] * 0.5}
      spot = potential.full_potential(lambda s: 7.0 * s, like, strategy="map", has_state=True)
      def go(x):
        state = {"a": x, "b": jnp.ones(2)}
        value, (none, state) = spot(x.astype(jnp.float32), None, mapper, state=state)
        return value, state
      return go
    pot = potential.full_potential(lambda s: 7.0 * s, lambda s, o: s * o["x"] + 1.0,
                                   strategy="vmap")
    return lambda x: pot(x.astype(jnp.float32), None, mapper)[0]

  progs = [jax.jit(program(q)) for q in plan["progs"]]
  tasks = plan["tasks"]
  for c, t in enumerate(tasks):
    with jax.default_device(devs[c]):
      jax.block_until_ready(progs[t["prog"]](lib.local(np.int32(0))))
  weight = {"double": 2}
  before = [getattr(l, "_n", 0) for l in loaders]
  active, peak = [0] * len(loaders), [0] * len(loaders)
  failures = [0] * len(loaders)
  got = [[] for _ in tasks]

  def body(c):
    t = tasks[c]
    q = plan["progs"][t["prog"]]
    m, w = q["map"], weight.get(q["kind"], 1)
    def go():
      s = ctx.sims[-1]
      x = lib.local(np.int32(t["x"]))
      for _ in range(t["evals"]):
        for attempt in range(6):
          s.point("evaluate")
          active[m] += w
          peak[m] = max(peak[m], active[m])
          try:
            got[c].append(jax.tree_util.tree_map(np.asarray, progs[t["prog"]](x)))
            break
          except Exception as e:
            if not lib.is_injected(e) or attempt == 5:
              raise
            failures[m] += w
          finally:
            active[m] -= w
    return go
  ctx.simulate([("e%d" % c, body(c)) for c in range(len(tasks))])

  for c, t in enumerate(tasks):
    q = plan["progs"][t["prog"]]
    m = plan["maps"][q["map"]]
    require(len(got[c]) == t["evals"], "evaluations", "task %d: %d results", c, len(got[c]))
    for e, out in enumerate(got[c]):
      what = "evaluation %d of task %d (%s n=%d mb=%d cache=%d)" % (
        e, c, q["kind"], m["n"], m["mb"], m["cache"])
      _check(q["kind"], m, t["x"], out, what)
  for k, l in enumerate(loaders):
    if plan["maps"][k]["kind"] != "host":
      continue
    states = l._n
    double = any(q["kind"] == "double" and q["map"] == k for q in plan["progs"])
    bound = max(peak[k], 2 if double else 1) + failures[k]
    require(states <= bound, "pool", "%d data states for at most %d simultaneous evaluations and "
            "%d failed ones", states, peak[k], failures[k])
    ctx.note("states", states)
  ctx.note("peak", max(peak))
  ctx.note("failed_evaluations", sum(failures))
  ctx.note("evaluations", sum(map(len, got)))
  for _, release in mappers:
    release()
  ctx.nontrivial = max(peak) > 1 or bool(sum(failures))


def _check(kind, m, x, out, what):
  n, mb = m["n"], m["mb"]
  it = -(-n // mb)
  xs = np.arange(n)
  if kind in ("potential", "statepot"):
    if kind == "statepot":
      out, state = out
      require(int(state["a"]) == x + it and np.allclose(state["b"], 0.5 ** it), "model-state",
              "%s: model state %s after %d batches", what, state, it)
    want = -(x * xs + 1.0).sum() - 7.0 * x
    require(np.isclose(float(out), want, rtol=1e-5, atol=1e-3), "potential",
            "%s: %s instead of %s", what, out, want)
    return
  def masked(res, c, c0, what):
    require(np.array_equal(res["m"].reshape(-1), np.arange(it * mb) < n), "mask",
            "%s: %s", what, res["m"].astype(int).tolist())
    require(np.array_equal(res["x"].reshape(-1)[:n], xs), "order", "%s: saw the observations %s",
            what, res["x"].reshape(-1).tolist())
    want = int(c0)
    for v in xs:
      want = _wrap(want * 31 + int(v))
    require(int(c) == want, "carry", "%s: carry %d instead of %d", what, int(c), want)
  if kind == "masked":
    masked(out[0], out[1], x, what)
  elif kind in ("scan", "map"):
    res, cs = out
    c0 = x
    for k in range(LOOP):
      masked({q: v[k] for q, v in res.items()}, cs[k], c0, "%s, loop %d" % (what, k))
      c0 = int(cs[k]) if kind == "scan" else x + k + 1
  elif kind == "double":
    (second, c2), first = out
    c1 = x
    for v in xs:
      c1 = _wrap(c1 * 31 + int(v))
    masked(second, c2, c1, what)
    require(np.array_equal(first["x"].reshape(-1)[:n], xs), "order", "%s: first pass saw %s",
            what, first["x"].reshape(-1).tolist())
  else:
    res, c = out
    want, carry = [], x
    for r in range(it):
      for v in xs[r * mb:(r + 1) * mb]:
        want.append(_wrap(3 * int(v) + carry))
      carry = _wrap(carry * 31 + int(xs[r * mb]))
    require(res["y"].shape == (n,), "entries", "%s: results of shape %s", what, res["y"].shape)
    wf = np.array(want, dtype=np.float64)
    require(np.allclose(res["y"].astype(np.float64), wf, rtol=1e-5), "results",
            "%s: results %s instead of %s", what, res["y"].tolist(), want)
    require(int(c) == carry, "carry", "%s: carry %d instead of %d", what, int(c), carry)


def _wrap(v):
  v &= 0xFFFFFFFF
  return v - (1 << 32) if v >= 1 << 31 else v
