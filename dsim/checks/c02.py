"""C02: devices that share one data state.

Every device is a task with a copy of the same initial CacheState; the simulator
decides how far each runs ahead.  A further task per group replays outdated
states while the devices continue.
"""
import gc
import weakref

import numpy as np

from dsim import lib, seams
from dsim.core import Violation, require, rig
from dsim.lib import jx


def gen(rng, tier, i):
  if i % 8 == 5:
    return gen_pass(rng)
  g = rng.group
  pal = [{"cache": g.choice([1, 2, 3, 5]), "mb": g.choice([1, 2, 4]),
          "verify": g.random() < 0.5, "D": g.choice([1, 2, 2, 3, 4])} for _ in range(3)]
  groups = []
  left = 7
  for k in range(rng.choice([1, 1, 2, 2, 3])):
    p = dict(rng.choice(pal))
    if p["D"] + 1 > left:
      break
    left -= p["D"] + 1
    total = rng.randint(1, 6) * p["cache"] + rng.randint(0, p["cache"])
    lag = [total] * p["D"]
    if rng.random() < 0.25:        # some devices stop early
      lag = [rng.randint(0, total) for _ in lag]
      lag[rng.randrange(len(lag))] = total
    stale = []
    if rng.random() < 0.5:
      for _ in range(rng.randint(1, 3)):
        stale.append({"refill": rng.randint(1, max(1, (min(lag) - 1) // p["cache"])),
                      "twice": rng.random() < 0.4})
    groups.append({"p": p, "draws": lag, "stale": stale, "slot": k,
                   "mask": rng.random() < 0.7})
  faults = []
  if rng.random() < 0.25:
    faults.append({"site": "loader:0", "n": rng.randint(1, 4), "kind": rng.choice(["EIO", "DATA", "ENOMEM"])})
  if rng.random() < 0.3:
    faults.append({"site": "io_callback", "n": rng.randint(0, 8), "kind": "slow"})
  return {"tasks": groups, "faults": faults,
          "sched": lib.sched(rng, targets=["g0d0", "g0d1", "g0s", "g1"])}


_LOADER = None

def loader_class():
  global _LOADER
  if _LOADER is None:
    from jax_sgmc.data.core import HostDataLoader

    class Counting(HostDataLoader):
      """Every batch names its chain, block and line."""
      def __init__(self):
        self.n = 0
        self.reset()
      def reset(self):
        self.base = self.n
        self.calls, self.refs, self.masked = {}, {}, True
      @property
      def static_information(self):
        return {"observation_count": 100000}
      @property
      def _format(self):
        jax = jx()
        return {"x": jax.ShapeDtypeStruct(shape=(), dtype=np.int32)}
      def register_random_pipeline(self, cache_size=1, mb_size=None, **kw):
        c = self.n
        self.n += 1
        self.calls[c], self.refs[c] = 0, []
        self.shape = (cache_size, mb_size)
        return c
      register_ordered_pipeline = register_random_pipeline
      def get_batches(self, chain_id):
        c = int(chain_id)
        s = seams.sim()
        if s is not None:
          s.point("loader", c - self.base)
          f = s.fault("loader:%d" % (c - self.base))
          if f is not None:
            raise seams._oserror(f["kind"], "loader")
        b = self.calls[c]
        self.calls[c] += 1
        if s is not None:
          s.point("loader.read", b)
        x = (b * 1000 + np.arange(self.shape[0])[:, None] * 10
             + np.arange(self.shape[1])[None]).astype(np.int32)
        mask = (np.arange(self.shape[0] * self.shape[1]).reshape(self.shape) + b) % 3 != 0
        self.refs[c].append(weakref.ref(x))
        return {"x": x}, (mask if self.masked else None)
    _LOADER = Counting
  return _LOADER()


def _programs(p, slot):
  def build():
    from jax_sgmc import data
    jax = jx()
    loader = loader_class()
    init, get, _ = data.random_reference_data(loader, p["cache"], p["mb"],
                                              verify_calls=p["verify"])
    draw = jax.jit(lambda s: get(s, information=True, device_count=p["D"]))
    return {"loader": loader, "init": init, "draw": draw, "warm": set()}
  return rig(("c02", slot) + tuple(sorted(p.items())), build)


# -- passes over the full data set on several devices --------------------------------

def gen_pass(rng):
  g = rng.group
  pal = []
  for _ in range(2):
    n = g.choice([1, 3, 5, 7, 10])
    pal.append({"n": n, "mb": min(n, g.choice([1, 2, 3, 4])), "cache": g.choice([1, 2, 3, 5]),
                "D": g.choice([2, 2, 3, 4]), "masked": g.random() < 0.5})
  p = rng.choice(pal)
  full = rng.randint(1, 4)
  passes = [full if rng.random() < 0.75 else rng.randint(0, full) for _ in range(p["D"])]
  return {"pass": p, "tasks": [{"d": d, "passes": k} for d, k in enumerate(passes)],
          "faults": [{"site": rng.choice(["loader:0", "io_callback"]), "n": rng.randint(0, 8), "kind": "slow"}
                     for _ in range(rng.choice([0, 1, 2]))],
          "sched": lib.sched(rng, targets=["d0", "d1"])}


def run_pass(plan, ctx):
  jax = jx()
  jnp = jax.numpy
  p = plan["pass"]
  def build():
    from jax_sgmc import data
    loader = lib.proxy_class()(lib.np_loader(p["n"], 1))
    init, full_map, _ = data.full_reference_data(loader, p["cache"], p["mb"])
    def masked(batch, mask, c):
      return {"all": batch, "mask": mask}, c + (batch["x"] * mask).sum()
    def plain(batch, c):
      return {"all": batch}, c + batch["x"].shape[0]
    go = jax.jit(lambda s, c: full_map(masked if p["masked"] else plain, s, c, masking=p["masked"],
                                       device_count=p["D"]))
    return {"loader": loader, "init": init, "go": go, "warm": False}
  prog = rig(("c02-pass",) + tuple(sorted(p.items())), build)
  loader = prog["loader"]
  devs = jax.devices()
  zero = lambda: jnp.asarray(np.int32(0))
  if not prog["warm"]:
    prog["warm"] = True
    for d in range(p["D"]):
      loader.bind(lib.np_loader(p["n"], 1))
      with jax.default_device(devs[d]):
        s = lib.local(prog["init"]())
        for _ in range(1 + p["cache"]):
          s, _ = prog["go"](s, zero())
        lib.settle(s)
        del s
  loader.bind(lib.np_loader(p["n"], 1))
  state0 = prog["init"]()
  before = len(loader.calls)
  got = [[] for _ in range(p["D"])]
  def device(d, todo):
    def go():
      s = ctx.sims[-1]
      state = lib.local(state0)
      for _ in range(todo):
        state, (res, c) = prog["go"](state, zero())
        got[d].append((jax.tree_util.tree_map(np.asarray, res), int(c)))
        s.point("passed")
    return go
  ctx.simulate([("d%d" % t["d"], device(t["d"], t["passes"])) for t in plan["tasks"]])
  n, its = p["n"], -(-p["n"] // p["mb"])
  for d, seq in enumerate(got):
    for k, (res, c) in enumerate(seq):
      what = "device %d pass %d (%s)" % (d, k, sorted(p.items()))
      rows = {f: v.reshape((-1,) + v.shape[2:]) if p["masked"] else v for f, v in res["all"].items()}
      ids = lib.ids_of(rows, 1, 0, what)
      if p["masked"]:
        require(np.array_equal(res["mask"].reshape(-1), np.arange(its * p["mb"]) < n), "mask", "%s: mask %s",
                what, res["mask"].astype(int).tolist())
      require(np.array_equal(ids[:n], np.arange(n)), "order", "%s: observations %s", what, ids.tolist())
      require(c == (n * (n - 1) // 2 if p["masked"] else its * p["mb"]), "carry", "%s: carry %d", what, c)
  want = max(max(0, -(-t["passes"] * its // p["cache"]) - 1) for t in plan["tasks"] or [{"passes": 0}])
  reads = len(loader.calls) - before
  require(reads == want, "advance", "the loader was advanced %d times for %d refills on each device (%s)",
          reads, want, sorted(p.items()))
  require(not [m for c, m in ctx.warnings if "outdated" in m or "memory" in m.lower() and c == "RuntimeWarning"],
          "spurious-warning", "%s", ctx.warnings)
  ctx.note("passes", sum(t["passes"] for t in plan["tasks"]))
  ctx.nontrivial = True


def run(plan, ctx):
  if "pass" in plan:
    return run_pass(plan, ctx)
  jax = jx()
  groups = plan["tasks"]
  devs = jax.devices()
  tasks, G = [], []
  first = None
  for k, g in enumerate(groups):
    p = g["p"]
    prog = _programs(p, g["slot"])
    d0 = len(tasks)
    for d in range(p["D"] + 1):
      if (d0 + d) not in prog["warm"]:
        prog["warm"].add(d0 + d)
        prog["loader"].reset()
        with jax.default_device(devs[d0 + d]):
          s = lib.local(prog["init"]())
          for _ in range(p["cache"] + 1):
            s, _ = prog["draw"](s)
          del s
    prog["loader"].reset()
    prog["loader"].masked = g["mask"]
    state = prog["init"]()
    G.append({"prog": prog, "chain": int(state.chain_id), "pos": [0] * p["D"],
              "got": [[] for _ in range(p["D"])], "old": {}, "stale": [], "errors": 0, "attempts": 0,
              "state0": state})
    del state
    tasks += _tasks(ctx, k, g, G[k])
  ctx.warnings.clear()
  sim = ctx.simulate(tasks)

  any_stale_served = 0
  for k, g in enumerate(groups):
    p, R = g["p"], G[k]
    chain, cache = R["chain"], p["cache"]
    # every position: the same batch on every device
    blocks = {}
    for d, seq in enumerate(R["got"]):
      for pos, (x, mask, n, mb) in enumerate(seq):
        r = pos // cache
        b = int(x[0]) // 1000
        want = b * 1000 + (pos % cache) * 10 + np.arange(p["mb"])
        require(np.array_equal(x, want), "batch",
                "group %d device %d position %d: batch %s is no batch of the loader "
                "(line %d of a block expected)", k, d, pos, x.tolist(), pos % cache)
        wm = (((pos % cache) * p["mb"] + np.arange(p["mb"]) + b) % 3 != 0) \
            if g["mask"] else np.ones(p["mb"], bool)
        require(np.array_equal(mask, wm), "mask", "group %d device %d position %d: mask %s",
                k, d, pos, mask.tolist())
        require(n == 100000 and mb == p["mb"], "information", "wrong batch information")
        if r in blocks and blocks[r] != b:
          raise Violation("devices-differ", "group %d refill %d: device %d got block %d, "
                          "another device block %d" % (k, r, d, b, blocks[r]))
        blocks[r] = b
    order = [blocks[r] for r in sorted(blocks)]
    require(order == sorted(set(order)), "order",
            "group %d: refills were served with blocks %s", k, order)
    stale_blocks, by_state = [], {}
    for kind, r, out in R["stale"]:
      if kind == "served":
        x = out
        b = int(x[0]) // 1000
        require(np.array_equal(x, b * 1000 + np.arange(p["mb"])), "stale-data",
                "group %d: an outdated request was served with %s", k, x.tolist())
        # the requests of several devices with one outdated state share a refill
        if p["D"] == 1 or b not in by_state.setdefault(r, set()):
          stale_blocks.append(b)
        by_state.setdefault(r, set()).add(b)
    calls = R["prog"]["loader"].calls[chain]
    # a refill on all devices takes the loader one block further, an outdated
    # request that is served takes one of its own
    used = order + stale_blocks
    require(len(set(used)) == len(used), "repeated",
            "group %d: block handed out twice: refills %s, outdated requests %s",
            k, order, stale_blocks)
    require(sorted(used) == list(range(calls)), "advance",
            "group %d: the loader was advanced %d times for the blocks %s (refills) and %s "
            "(outdated requests)", k, calls, order, stale_blocks)
    if not g["stale"]:
      require(order == list(range(len(order))), "skipped", "group %d: blocks %s", k, order)
    if p["verify"]:
      require(all(kind == "error" for kind, _, _ in R["stale"]), "stale-accepted",
              "group %d: verified calls served an outdated request", k)
    else:
      bad = [out for kind, _, out in R["stale"] if kind == "error"]
      require(not bad, "stale-refused",
              "group %d: an outdated request failed although calls are not verified: %s",
              k, str(bad)[:300])
      any_stale_served += len(stale_blocks)
    ctx.note("stale_requests", len(R["stale"]))
    ctx.note("refills", len(order))
  warned = [m for c, m in ctx.warnings if c in ("UserWarning", "RuntimeWarning")]
  require(bool(any_stale_served) <= bool(warned), "no-warning",
          "outdated requests were served without a warning")
  require(bool(warned) <= any(R["attempts"] for R in G), "spurious-warning",
          "warning without an outdated request: %s", warned[:1])
  # nothing that all devices have received may stay referenced
  for k, g in enumerate(groups):
    R = G[k]
    p = g["p"]
    loader, chain = R["prog"]["loader"], R["chain"]
    done = {-(-n // p["cache"]) for n in g["draws"]}
    R["state0"] = None
    R["got"], R["old"], R["stale"] = None, None, None
    if len(done) == 1 and (p["D"] == 1 or not g["stale"]):
      R["check"] = (loader.refs[chain], k)
  for t in sim.tasks:
    t.fn = t.result = None
  tasks.clear()
  gc.collect()
  for R in G:
    if "check" in R:
      alive = [i for i, r in enumerate(R["check"][0]) if r() is not None]
      require(not alive, "retained", "group %d: blocks %s are still retained after all "
              "devices have received them", R["check"][1], alive)
  ctx.nontrivial = any(g["p"]["D"] > 1 or g["stale"] for g in groups)


def _tasks(ctx, k, g, R):
  p = g["p"]
  draw = R["prog"]["draw"]
  out = []

  def device(d):
    def go():
      s = ctx.sims[-1]
      state = lib.local(R["state0"])
      for n in range(g["draws"][d]):
        if d == 0 and R["pos"][d] % p["cache"] == 0:
          R["old"][R["pos"][d] // p["cache"]] = state
        for attempt in range(6):
          try:
            new, (batch, info) = draw(state)
            break
          except Exception as e:
            if not lib.is_injected(e) or attempt == 5:
              raise
            R["errors"] += 1
            s.point("retry")
        state = new
        R["got"][d].append((np.asarray(batch["x"]), np.asarray(info.mask),
                            int(info.observation_count), int(info.batch_size)))
        R["pos"][d] += 1
        s.point("drawn")
    return go

  def outdated():
    s = ctx.sims[-1]
    for st in g["stale"]:
      r = st["refill"]
      # only after every device has passed this refill is its state outdated
      if min(g["draws"]) <= r * p["cache"]:
        continue
      s.block(lambda: min(R["pos"]) > r * p["cache"], "refill %d" % r)
      old = R["old"].get(r)
      if old is None:
        continue
      for _ in range(2 if st["twice"] else 1):
        s.point("outdated")
        R["attempts"] += 1
        try:
          _, (batch, info) = draw(lib.local(old))
          R["stale"].append(("served", r, np.asarray(batch["x"])))
        except Exception as e:
          if lib.is_injected(e):
            continue
          R["stale"].append(("error", r, str(e)))
  for d in range(p["D"]):
    out.append(("g%dd%d" % (k, d), device(d)))
  out.append(("g%ds" % k, outdated))
  return out
