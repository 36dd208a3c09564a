"""C03: sampling contracts of the loaders over interleaved histories.

Chains are tasks that draw, checkpoint, rewind and register further chains on
one shared loader, while another task overwrites the arrays the loader was
built from.  Every chain's stream must fulfil the contract of its mode and be
the stream of the same chain on a loader that nobody else uses.
"""
import numpy as np

from dsim import lib, loaders, tfload
from dsim.core import require
from dsim.lib import jx
from dsim.loaders import Source, contract, register

GROUP = 40


def gen(rng, tier, i):
  if i // GROUP % 12 == 5:
    return tfload.gen(rng, False)
  if rng.random() < 0.08:
    return _gen_device(rng)
  long = rng.random() < 0.12
  kind = "hdf5" if rng.random() < (0.03 if long else 0.12) else "numpy"
  n = rng.choice([1, 2, 3, 4, 5] if long else [1, 2, 3, 5, 6, 7, 9, 10, 13, 16, 20, 33])
  large = not long and rng.random() < 0.06
  if large:
    n = rng.choice([257, 300, 700])
  huge = large and rng.random() < 0.2 and kind == "numpy"
  if huge:
    n = rng.choice([33000, 70000])
  chains = []
  for c in range(1 if long or huge else rng.choice([1, 2, 2, 3, 3, 5, 6])):
    mode = rng.choice(["draw", "shuffle", "epoch", "ordered"])
    if long:
      mode = rng.choice(["draw", "shuffle", "epoch"])
    mb = rng.randint(1, n) if rng.random() < 0.6 else min(n, rng.choice([1, 2, 3, 4, 7]))
    if large:
      mb = rng.choice([9000, 25000, n] if huge else [1, 7, 50, 128, 256, n])
    ops = []
    if long:
      ops = ["get"] * rng.choice([4, 8])
    else:
      for _ in range(rng.randint(1, 14)):
        ops.append(rng.choice(["get"] * 6 + ["save", "load"]) if kind == "numpy" else "get")
    chains.append({"mode": mode, "mb": mb, "cache": rng.choice([50, 200] if long else [1, 1, 2, 3, 5, 8]),
                   "seed": rng.choice([None, None, 0, 1, 2, rng.getrandbits(20)]),
                   "ops": ops, "late": c > 0 and rng.random() < 0.3})
  if len(chains) > 1 and rng.random() < 0.4:      # twins: same seed, any cache size
    a, b = rng.sample(range(len(chains)), 2)
    for k in ("mode", "mb", "seed"):
      chains[b][k] = chains[a][k]
    if chains[a]["seed"] is None:
      chains[a]["seed"] = chains[b]["seed"] = rng.getrandbits(16)
  elif len(chains) > 1 and rng.random() < 0.4:    # siblings: all but the seed
    a, b = rng.sample(range(len(chains)), 2)
    for k in ("mode", "mb"):
      chains[b][k] = chains[a][k]
    if rng.random() < 0.6:
      chains[a]["seed"] = chains[b]["seed"] = None
  return {"kind": kind, "n": n, "fields": rng.randrange(4),
          "mutate": rng.choice([0, 0, 1, 3]), "scribble": rng.random() < 0.4, "tasks": chains, "faults": [],
          "sched": lib.sched(rng, targets=["c0", "c1", "caller"])}


def run(plan, ctx):
  if "tf" in plan:
    return tfload.run(plan, ctx)
  if plan["kind"] == "device":
    return _run_device(plan, ctx)
  offset = 500
  src = Source(plan["kind"], plan["n"], plan["fields"], offset, ctx)
  owned = src.arrays()
  loader = src.loader(owned, copy=True)
  chains = plan["tasks"]
  order = [c for c in range(len(chains)) if not chains[c]["late"]] + \
          [c for c in range(len(chains)) if chains[c]["late"]]
  tid, turn = {}, [sum(not ch["late"] for ch in chains)]
  hist = {c: [] for c in range(len(chains))}       # (position, lines)
  for c in order:
    if not chains[c]["late"]:
      tid[c] = register(loader, chains[c])

  def body(c):
    ch = chains[c]
    def go():
      s = ctx.sims[-1]
      if ch["late"]:
        s.block(lambda: order[turn[0]] == c, "registration")
        try:
          tid[c] = register(loader, ch)
        finally:
          turn[0] += 1
      pos, saved = 0, []
      for op in ch["ops"]:
        s.point(op)
        if op == "get":
          out = loader.get_batches(tid[c])
          hist[c].append((pos, loaders.keep(out)))
          if plan["scribble"]:
            loaders.scribble(out)
          pos += ch["cache"]
        elif op == "save":
          saved.append((pos, loader.save_state(tid[c])))
        elif op == "load" and saved:
          pos, data = saved[pos % len(saved)]
          loader.load_state(tid[c], data)
    return go

  def caller():
    s = ctx.sims[-1]
    for _ in range(plan["mutate"]):
      s.point("mutate")
      for v in owned.values():
        v[...] = -7
  tasks = [("c%d" % c, body(c)) for c in range(len(chains))]
  if plan["mutate"]:
    tasks.append(("caller", caller))
  ctx.simulate(tasks)

  streams = {}
  for c, ch in enumerate(chains):
    got = [(p, loaders.lines(src, ch, out, "chain %d (%s)" % (c, ch["mode"])))
           for p, out in hist[c]]
    end = max([p + ch["cache"] for p, _ in got], default=0)
    # the same chain, alone on a loader of its own
    alone = src.loader()
    ids = [register(alone, chains[k]) for k in order]
    mine = ids[order.index(c)]
    ref = []
    while len(ref) < end:
      ref += loaders.lines(src, ch, alone.get_batches(mine), "reference of chain %d" % c)
    contract(src, ch, ref[:end], "chain %d (%s, n=%d, mb=%d)" % (c, ch["mode"], src.n, ch["mb"]))
    for p, ls in got:
      for j, (i, m) in enumerate(ls):
        ri, rm = ref[p + j]
        require(np.array_equal(i, ri) and np.array_equal(m, rm), "disturbed",
                "chain %d (%s) batch %d: %s %s, alone it is %s %s", c, ch["mode"], p + j,
                i.tolist(), m.astype(int).tolist(), ri.tolist(), rm.astype(int).tolist())
    streams[c] = ref[:end]
    ctx.note("batches", len(got) * ch["cache"])
  # equal seeds, equal streams; different seeds, different streams
  for a in range(len(chains)):
    for b in range(a):
      A, B = chains[a], chains[b]
      if (A["mode"], A["mb"]) != (B["mode"], B["mb"]) or A["mode"] == "ordered":
        continue
      k = min(len(streams[a]), len(streams[b]))
      same = all(np.array_equal(streams[a][j][0], streams[b][j][0]) for j in range(k))
      if A["seed"] is not None and A["seed"] == B["seed"]:
        require(same, "same-seed", "chains %d and %d have seed %s but different streams",
                a, b, A["seed"])
        ctx.note("twins")
      else:
        sa = A["seed"] if A["seed"] is not None else order.index(a)
        sb = B["seed"] if B["seed"] is not None else order.index(b)
        if sa == sb:
          continue
        bits = k * A["mb"] * np.log2(max(src.n, 1)) if A["mode"] == "draw" else \
            (k * A["mb"] // src.n) * sum(np.log2(np.arange(1, src.n + 1)))
        if bits > 40:
          require(not same, "different-seeds", "chains %d and %d have different seeds and the "
                  "same stream", a, b)
  src.close()
  ctx.nontrivial = len(chains) > 1 or plan["mutate"] or len(streams[0]) > 100


# -- the loader that lives on the device --------------------------------------------

def _gen_device(rng):
  g = rng.group
  pal = [{"n": g.choice([3, 4, 5, 7]), "mb": g.choice([1, 2, 3]), "fields": g.randrange(4)}
         for _ in range(2)]
  p = rng.choice(pal)
  return {"kind": "device", "p": p, "sched": lib.sched(rng), "faults": [],
          "tasks": [{"key": rng.choice([0, 1, rng.getrandbits(20)]),
                     "draws": rng.choice([5, 60, 400])} for _ in range(rng.choice([1, 2, 3]))],
          "mutate": rng.random() < 0.5}


def _run_device(plan, ctx):
  from jax_sgmc import data
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
  from dsim.core import rig
  jax = jx()
  p = plan["p"]
  devs = jax.devices()
  def build():
    owned = lib.dataset(p["n"], p["fields"])
    loader = DeviceNumpyDataLoader(copy=True, **owned)
    for v in owned.values():
      v[...] = -7
    init, get, _ = data.random_reference_data(loader, 1, p["mb"])
    def many(s):
      return jax.lax.scan(lambda s, _: get(s, information=True), s, None, length=20)
    return {"init": init, "one": jax.jit(lambda s: get(s, information=True)),
            "many": jax.jit(many), "warm": set()}
  prog = rig(("c03", tuple(sorted(p.items()))), build)
  got = [[] for _ in plan["tasks"]]
  for c in range(len(got)):
    if c not in prog["warm"]:
      prog["warm"].add(c)
      with jax.default_device(devs[c]):
        s = lib.local(prog["init"](key=jax.random.PRNGKey(0)))
        prog["one"](s), prog["many"](s)
  def body(c):
    t = plan["tasks"][c]
    def go():
      s = ctx.sims[-1]
      state = lib.local(prog["init"](key=jax.random.PRNGKey(t["key"])))
      while len(got[c]) < t["draws"]:
        s.point("draw")
        op = "many" if t["draws"] - len(got[c]) >= 20 else "one"
        state, (b, info) = prog[op](state)
        b = {k: np.asarray(v) for k, v in b.items()}
        m, n = np.asarray(info.mask), np.asarray(info.observation_count)
        require((n == p["n"]).all(), "information", "observation count %s", n)
        require((np.asarray(info.batch_size) == p["mb"]).all(), "information", "batch size")
        for j in range(20 if op == "many" else 1):
          one = {k: v[j] for k, v in b.items()} if op == "many" else b
          ids = lib.ids_of(one, p["fields"], 0, "chain %d draw %d" % (c, len(got[c])))
          require(ids.max() < p["n"], "foreign-data", "observation %d", ids.max())
          got[c].append((ids, m[j] if op == "many" else m))
    return go
  ctx.simulate([("c%d" % c, body(c)) for c in range(len(got))])
  src = Source("device", p["n"], p["fields"], 0, ctx)
  for c, t in enumerate(plan["tasks"]):
    contract(src, {"mode": "draw", "mb": p["mb"]}, got[c], "device chain %d" % c)
    ctx.note("device_batches", len(got[c]))
    for b in range(c):
      u = plan["tasks"][b]
      k = min(t["draws"], u["draws"])
      same = all(np.array_equal(got[c][j][0], got[b][j][0]) for j in range(k))
      if t["key"] == u["key"]:
        require(same, "same-seed", "device chains %d and %d with one key differ", b, c)
      elif k * p["mb"] * np.log2(p["n"]) > 40:
        require(not same, "different-seeds", "device chains %d and %d agree", b, c)
  ctx.nontrivial = len(got) > 1 or len(got[0]) > 50
