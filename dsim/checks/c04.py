"""C04: passes over the full data set.

Chains (tasks) repeat compiled passes with their own data states, interleaved at
the loader callbacks; reads may be slow or fail.  Every pass is compared with a
sequential evaluation of the data set.
"""
import numpy as np

from dsim import lib
from dsim.core import require, rig
from dsim.lib import jx

GROUP = 12


def gen(rng, tier, i):
  g = rng.group
  pal = []
  for _ in range(2):
    n = g.choice([1, 2, 3, 4, 5, 7, 8, 10, 12] * 2 + [260, 300])
    kind = g.choice(["host", "host", "host", "device"])
    mode = g.choice(["masked", "masked", "plain", "plain", "potential"])
    pal.append({"n": n, "mb": g.choice([m for m in (1, 2, 3, 4, 5, 8) if m <= n]) if n < 99 else g.choice([7, 64, 256, n]),
                "cache": g.choice([1, 1, 2, 3, 5, 12]), "kind": kind, "mode": mode,
                "info": g.random() < 0.4, "fields": g.randrange(4),
                "strategy": g.choice(["map", "vmap", "batched"]), "temp": g.choice([1.0, 2.0])})
  k = rng.choice([1, 1, 2, 2, 3, 4])
  tasks = []
  for c in range(k):
    p = rng.randrange(2)
    tasks.append({"prog": p, "passes": rng.randint(1, 4), "sample": rng.randint(-3, 3),
                  "offset": rng.randrange(pal[p]["n"]) if rng.random() < 0.2 else 0})
  faults = []
  if rng.random() < 0.3:
    faults.append({"site": "loader:%d" % rng.randrange(k), "n": rng.randint(0, 6),
                   "kind": rng.choice(["EIO", "DATA", "slow"])})
  if rng.random() < 0.3:
    faults.append({"site": "io_callback", "n": rng.randint(0, 8), "kind": "slow"})
  return {"pal": pal, "tasks": tasks, "faults": faults, "drop_mask": rng.random() < 0.1,
          "sched": lib.sched(rng, targets=["c0", "c1"])}


def _fold(carry, xs, mask):
  jax = jx()
  def step(c, a):
    x, m = a
    return jax.numpy.where(m, c * 31 + x, c), None
  return jax.lax.scan(step, carry, (xs.astype(np.int32), mask))[0]


def _program(p, slot):
  def build():
    from jax_sgmc import data, potential
    jax = jx()
    jnp = jax.numpy
    if p["kind"] == "host":
      loader = lib.proxy_class()(lib.np_loader(p["n"], p["fields"]))
    else:
      from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
      loader = DeviceNumpyDataLoader(**lib.dataset(p["n"], p["fields"]))
    init, full_map, _ = data.full_reference_data(loader, p["cache"], p["mb"])

    def masked(batch, mask, carry):
      info = None
      if p["info"]:
        batch, info = batch
      out = {"x": batch["x"], "mask": mask, "all": batch}
      if info is not None:
        out["info"] = jnp.array([info.observation_count, info.batch_size])
        out["imask"] = info.mask
      return out, _fold(carry, batch["x"], mask)

    def plain(batch, carry):
      if p["info"]:
        batch, _ = batch
      # the first entry of a batch is always valid
      return {"y": 3 * batch["x"] + 1, "all": batch}, carry * 31 + batch["x"][0].astype(jnp.int32)

    if p["mode"] == "potential":
      def one(sample, obs):
        return sample * obs["x"] + 1.0
      def batched(sample, obs, mask=None):
        return jax.vmap(lambda o: one(sample, o))(obs)
      s = p["strategy"]
      pot = potential.full_potential(
        lambda q: 7.0 * q, batched if s == "batched" else one,
        strategy="map" if s == "batched" else s, is_batched=s == "batched",
        temperature=p["temp"])
      def go(state, c):
        value, (state, _) = pot(c, state, full_map)
        return state, value
    elif p["mode"] == "masked":
      def go(state, c):
        return full_map(masked, state, c, masking=True, information=p["info"])
    else:
      def go(state, c):
        return full_map(plain, state, c, information=p["info"])
    return {"loader": loader, "init": init, "go": jax.jit(go), "warm": set()}
  return rig(("c04", slot) + tuple(sorted(p.items())), build)


def _carry(p, t):
  return np.float32(t["sample"]) if p["mode"] == "potential" else np.int32(t["sample"])


def expected(p, t, rows):
  """The pass as a plain loop over the data set (rows: observation numbers)."""
  x = lib.dataset(p["n"], p["fields"])["x"].astype(np.int64)
  if p["mode"] == "potential":
    return (-(t["sample"] * x + 1.0).sum() - 7.0 * t["sample"]) / p["temp"]
  c = int(t["sample"])
  seq = rows if p["mode"] == "masked" else rows[::p["mb"]]
  for r in seq:
    c = (c * 31 + int(x[r])) & 0xFFFFFFFF
  return c - (1 << 32) if c >= 1 << 31 else c


def run(plan, ctx):
  jax = jx()
  devs = jax.devices()
  tasks = plan["tasks"]
  progs = {}
  for j in {t["prog"] for t in tasks}:
    p = plan["pal"][j]
    prog = progs[j] = _program(p, j)
    if p["kind"] == "host":
      prog["loader"].bind(lib.np_loader(p["n"], p["fields"]))
    for c, t in enumerate(tasks):
      if t["prog"] == j and c not in prog["warm"]:
        prog["warm"].add(c)
        with jax.default_device(devs[c]):
          s = lib.local(prog["init"]())
          for _ in range(2 + p["cache"]):
            s, _ = prog["go"](s, lib.local(_carry(p, t)))
    if p["kind"] == "host":
      prog["loader"].bind(lib.np_loader(p["n"], p["fields"]), plan["drop_mask"])
  # the chains start outside of the simulation, one after another
  start = []
  for t in tasks:
    p, prog = plan["pal"][t["prog"]], progs[t["prog"]]
    kw = {"offset": t["offset"]} if p["kind"] == "device" and t["offset"] else {}
    start.append((kw, prog["init"](**kw)))
  got = [[] for _ in tasks]
  failed = [0] * len(tasks)
  starting = [None]

  def body(c):
    t = tasks[c]
    p, prog = plan["pal"][t["prog"]], progs[t["prog"]]
    kw, state = start[c]
    def go():
      s = ctx.sims[-1]
      state = lib.local(start[c][1])
      carry = lib.local(_carry(p, t))
      for _ in range(t["passes"]):
        s.point("pass")
        for attempt in range(4):
          try:
            state, out = prog["go"](state, carry)
            got[c].append(jax.tree_util.tree_map(np.asarray, out))
            break
          except Exception as e:
            if not lib.is_injected(e) or attempt == 3:
              raise
            failed[c] += 1
            # the position of the failed pass is unknown: a new chain
            for again in range(4):
              s.block(lambda: starting[0] is None, "registration")
              starting[0] = c
              try:
                state = lib.local(prog["init"](**kw))
                break
              except Exception as e2:
                if not lib.is_injected(e2) or again == 3:
                  raise
              finally:
                starting[0] = None
    return go

  ctx.simulate([("c%d" % c, body(c)) for c in range(len(tasks))])
  for c, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    n, mb = p["n"], p["mb"]
    it = -(-n // mb)
    off = t["offset"] if p["kind"] == "device" else 0
    rows = (np.arange(n) + off) % n
    full = lib.dataset(n, p["fields"])
    for k, out in enumerate(got[c]):
      what = "chain %d pass %d (%s %s n=%d mb=%d cache=%d)" % (
        c, k, p["kind"], p["mode"], n, mb, p["cache"])
      want = expected(p, t, rows)
      if p["mode"] == "potential":
        require(np.isclose(float(out), want, rtol=1e-5, atol=1e-3), "potential",
                "%s: full potential %s, the sum over all observations is %s", what, out, want)
        continue
      res, carry = out
      if p["mode"] == "masked":
        mask = res["mask"].reshape(-1)
        require(mask.shape == (it * mb,) and np.array_equal(mask, np.arange(it * mb) < n),
                "mask", "%s: masks %s", what, res["mask"].astype(int).tolist())
        flat = {f: v.reshape((it * mb,) + v.shape[2:])[:n] for f, v in res["all"].items()}
        if p["info"]:
          require((res["info"] == np.array([n, mb])).all(), "information", "%s: %s", what,
                  res["info"].tolist())
          if p["kind"] == "host" and not plan["drop_mask"]:
            require(np.array_equal(res["imask"], res["mask"]), "information-mask",
                    "%s: %s", what, res["imask"].astype(int).tolist())
      else:
        require(res["y"].shape[0] == n, "entries", "%s: %d results", what, res["y"].shape[0])
        require(np.array_equal(res["y"], 3 * full["x"][rows] + 1), "results", "%s: results of "
                "observations %s", what, ((res["y"] - 1) / 3).tolist())
        flat = res["all"]
      for f in full:
        require(np.array_equal(flat[f], full[f][rows]), "order",
                "%s: field %s belongs to the observations %s", what, f,
                flat["x"].tolist() if f == "x" else "other than x")
        require(lib.same_type(flat[f].dtype, full[f].dtype), "dtype", "%s: %s", what, flat[f].dtype)
      require(int(carry) == want, "carry", "%s: carry %d instead of %d", what, int(carry), want)
    require(len(got[c]) == t["passes"], "passes", "chain %d: %d passes", c, len(got[c]))
    ctx.note("passes", len(got[c]))
  ctx.note("failed_passes", sum(failed))
  ctx.nontrivial = len(tasks) > 1 or max(t["passes"] for t in tasks) > 1
