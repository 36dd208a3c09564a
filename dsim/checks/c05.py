"""C05: checkpoints of a loader resume the identical stream.

Chains (tasks) draw, take checkpoints, rewind themselves and restore other
chains of equal set-up, in any interleaving.  The process may die at any moment;
a fresh loader then resumes from the checkpoints that had been written out.
Finally every checkpoint is restored once more into fresh loaders.
"""
import copy
import pickle

import numpy as np

from dsim import lib, loaders
from dsim.core import require
from dsim.loaders import Source, register

GROUP = 40


def gen(rng, tier, i):
  n = rng.choice([1, 2, 3, 5, 6, 7, 9, 10, 13, 20])
  if rng.random() < 0.05:
    n = rng.choice([257, 300, 700])
  chains = []
  for c in range(rng.choice([1, 2, 2, 3, 4])):
    ops = []
    for _ in range(rng.randint(2, 16)):
      ops.append(rng.choice(["get"] * 5 + ["save", "save", "disk", "load", "load", "give"]))
    chains.append({"mode": rng.choice(["draw", "shuffle", "shuffle", "epoch", "epoch", "ordered"]),
                   "mb": rng.choice([rng.randint(1, min(n, 20)), rng.randint(1, n)]) if rng.random() < 0.6 else min(n, rng.choice([1, 2, 3, 4])),
                   "cache": rng.choice([1, 1, 2, 3, 5]),
                   "seed": rng.choice([None, 0, 3, rng.getrandbits(20)]), "ops": ops})
  if len(chains) > 1 and rng.random() < 0.6:
    a, b = rng.sample(range(len(chains)), 2)
    for k in ("mode", "mb", "cache", "seed"):
      chains[b][k] = chains[a][k]
    if chains[a]["seed"] is None:
      chains[a]["seed"] = chains[b]["seed"] = rng.getrandbits(16)
  faults = []
  if rng.random() < 0.4:
    faults.append({"site": "process", "n": rng.randint(0, 25), "kind": "crash"})
  return {"n": n, "fields": rng.randrange(4), "tasks": chains, "faults": faults,
          "scribble": rng.random() < 0.4, "more": rng.randint(1, 6), "sched": lib.sched(rng, targets=["c0", "c1"])}


def run(plan, ctx):
  src = Source("numpy", plan["n"], plan["fields"], 300, ctx)
  chains = plan["tasks"]

  def fresh():
    loader = src.loader()
    return loader, [register(loader, ch) for ch in chains]

  loader, tid = fresh()
  hist, points = [], []          # (chain, position, answer), (chain, position, data, copy)
  disk = {}                      # what survives the process
  # what a checkpoint of chain a may be restored into
  def key(c):
    ch = chains[c]
    return (ch["mode"], ch["mb"], ch["cache"], ch["seed"] if ch["mode"] != "ordered" else 0,
            c if ch["seed"] is None and ch["mode"] != "ordered" else 0)
  pos = [0] * len(chains)

  def body(c):
    ch = chains[c]
    def go():
      s = ctx.sims[-1]
      mine = []
      for op in ch["ops"]:
        s.point(op)
        f = s.fault("process")
        if f is not None and f["kind"] == "crash":
          s.crash()
        if op == "get":
          p = pos[c]
          out = loader.get_batches(tid[c])
          pos[c] = p + ch["cache"]
          hist.append((c, p, loaders.keep(out)))
          if plan["scribble"]:
            loaders.scribble(out)
        elif op in ("save", "disk"):
          data = loader.save_state(tid[c])
          if plan["scribble"]:      # on a second one, as the first is used
            loaders.scribble(loader.save_state(tid[c]))
          points.append((c, pos[c], data, copy.deepcopy(data)))
          mine.append(len(points) - 1)
          if op == "disk":
            disk[c] = (pos[c], pickle.dumps(data))
        elif op == "load" and mine:
          # own checkpoints, or those of a chain with the same set-up
          fit = [k for k, q in enumerate(points) if key(q[0]) == key(c)]
          _, p, data, _ = points[fit[(pos[c] * 7 + len(points)) % len(fit)]]
          loader.load_state(tid[c], data)
          pos[c] = p
          ctx.note("restores")
        elif op == "give" and mine:
          # a further chain is registered while the others go on
          _, p, data, _ = points[mine[-1]]
          other = src.loader()
          ids = [register(other, x) for x in chains]
          other.load_state(ids[c], data)
          hist.append((c, p, other.get_batches(ids[c])))
    return go

  sim = ctx.simulate([("c%d" % c, body(c)) for c in range(len(chains))])
  ctx.note("crashes", int(sim.crashed))
  if sim.crashed:
    loader, tid = fresh()
    for c, ch in enumerate(chains):
      p = 0
      if c in disk:
        p, data = disk[c]
        loader.load_state(tid[c], pickle.loads(data))
        ctx.note("restarts")
      for _ in range(plan["more"]):
        hist.append((c, p, loader.get_batches(tid[c])))
        p += ch["cache"]
  # every checkpoint once more, in other orders, into fresh loaders
  for k in list(range(len(points)))[::-1] + list(range(len(points)))[:4]:
    c, p, data, _ = points[k]
    other, ids = fresh()
    other.load_state(ids[c], pickle.loads(pickle.dumps(data)) if k % 2 else data)
    for _ in range(plan["more"]):
      hist.append((c, p, other.get_batches(ids[c])))
      p += chains[c]["cache"]

  refs = {}
  for c, ch in enumerate(chains):
    alone, ids = fresh()
    end = max([p + ch["cache"] for k, p, _ in hist if k == c], default=0)
    refs[c] = []
    while len(refs[c]) < end:
      refs[c] += loaders.lines(src, ch, alone.get_batches(ids[c]), "reference")
  for c, p, out in hist:
    ch = chains[c]
    for j, (i, m) in enumerate(loaders.lines(src, ch, out, "chain %d" % c)):
      ri, rm = refs[c][p + j]
      require(np.array_equal(i, ri) and np.array_equal(m, rm), "stream",
              "chain %d (%s, n=%d, mb=%d, cache=%d) batch %d: %s %s, uninterrupted it is %s %s",
              c, ch["mode"], src.n, ch["mb"], ch["cache"], p + j, i.tolist(),
              m.astype(int).tolist(), ri.tolist(), rm.astype(int).tolist())
  for c, p, data, kept in points:
    require(_equal(data, kept), "checkpoint-changed",
            "the checkpoint of chain %d at %d changed after it was taken", c, p)
  ctx.note("checkpoints", len(points))
  ctx.note("batches", len(hist))
  ctx.nontrivial = bool(points)


def _equal(a, b):
  if isinstance(a, dict):
    return isinstance(b, dict) and set(a) == set(b) and all(_equal(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)):
    return type(a) is type(b) and len(a) == len(b) and all(map(_equal, a, b))
  if isinstance(a, np.ndarray) or hasattr(a, "shape"):
    return np.array_equal(a, b)
  return a == b
