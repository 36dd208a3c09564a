"""C06: saved samples are exactly the kept iterations of each chain, in order."""
import numpy as np

from dsim import lib, saving
from dsim.core import require
from dsim.lib import jx

GROUP = 24


def gen(rng, tier, i):
  storage = {"type": rng.choice(["memory", "memory", "npz", "json", "hdf5", "none"])}
  long = i // GROUP % 8 == 3
  if long:
    storage["type"] = rng.group.choice(["memory", "json", "hdf5", "none", "none"])
  if storage["type"] == "json":
    storage["freq"] = rng.choice([0, 100] if long else [0, 1, 2, 3])
  tasks = saving.gen_jobs(rng, storage["type"], long=long)
  return {"storage": storage, "tasks": tasks, "faults": [],
          "sched": lib.sched(rng, targets=["run0", "run1", "recvrun0", "recvrun1"], async_p=0.6)}


def run(plan, ctx):
  store, chains, tasks, rigs = saving.prepare(plan, ctx)
  ctx.simulate(tasks)
  given = {}
  for job, prog, _ in rigs:
    for kind, c, values, _ in prog["forward"].calls or []:
      if kind == "save":
        given.setdefault(c, []).append(values)
  for c in chains:
    label = "chain %s (%s, %s)" % (c.id, plan["tasks"][c.job]["api"],
                                   plan["tasks"][c.job]["variant"])
    if store.type != "none":
      # what the collector was given, sample by sample
      mine = given.get(c.id, [])
      ref = saving.want(c.kind, c.tag, c.its)
      require(len(mine) == len(c.its), "collector-count", "%s: %d samples given to the collector, "
              "%d iterations are kept", label, len(mine), len(c.its))
      saving.compare([np.stack(x) for x in zip(*mine)] if mine else ref, c.kind, c.tag, c.its,
                     label + ", given to the collector")
    saving.check_chain(store, c, label)
    if store.type == "json":
      saving.check_snapshots(store, c, c.snap, label, plan["storage"].get("freq", 0))
    jax = jx()
    if c.result is not None:
      require(jax.tree_util.tree_structure(c.live) ==
              jax.tree_util.tree_structure(saving.sample(c.kind, np, 0, 0)), "structure",
              "%s: samples have structure %s", label, jax.tree_util.tree_structure(c.live))
    ctx.note("samples", len(c.its))
  extra = set(given) - {c.id for c in chains}
  require(not extra, "foreign-chain", "samples of unknown chains %s", sorted(extra))
  store.close()
  ctx.nontrivial = any(c.its for c in chains)
