"""C07: whatever a run returns is stored completely and does not change any more."""
import numpy as np

from dsim import lib, saving
from dsim.core import require

GROUP = 24


def gen(rng, tier, i):
  storage = {"type": rng.choice(["memory", "npz", "json", "hdf5"])}
  if storage["type"] == "json":
    storage["freq"] = rng.choice([0, 0, 1, 2, 3])
  tasks = saving.gen_jobs(rng, storage["type"])
  faults = []
  for _ in range(rng.choice([0, 0, 1, 2, 4])):
    site = {"hdf5": "h5.write", "memory": "none"}.get(
      storage["type"], rng.choice(["fs.open", "fs.write", "fs.write", "fs.mkdir"]))
    kind = "short" if site == "fs.write" and rng.random() < 0.4 else "slow"
    faults.append({"site": site, "n": rng.randrange(8), "kind": kind, "frac": rng.random()})
  sched = lib.sched(rng, targets=["recvrun0", "recvrun0", "recvrun1", "run0"], line=0.35, async_p=0.95)
  if rng.random() < 0.4:        # receivers that only run when nothing else can
    sched.update(kind="starve", target="recv", p=rng.choice([0.0, 0.0, 0.02]))
  sched["bufsize"] = rng.choice([16, 64, 8192])
  return {"storage": storage, "tasks": tasks, "faults": faults, "sched": sched}


def same(a, b):
  if isinstance(a, dict):
    return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
  if isinstance(a, list):
    return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, np.ndarray):
    return (isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype
            and saving.equal(a, b))
  if isinstance(a, Exception):
    return isinstance(b, Exception)
  return a is None and b is None


def run(plan, ctx):
  store, chains, tasks, _ = saving.prepare(plan, ctx)
  sim = ctx.simulate(tasks)
  for c in chains:
    label = "chain %s (%s, %s)" % (c.id, plan["tasks"][c.job]["api"],
                                   plan["tasks"][c.job]["variant"])
    require(c.returned, "no-result", "%s did not return", label)
    # complete at the moment of the return
    for where, got in saving.final_outputs(store, c):
      saving.compare(got, c.kind, c.tag, c.its, "%s, %s when the run returned" % (label, where))
    require(int(c.count) == len(c.its), "count", "%s reports %s of %d samples",
            label, c.count.tolist(), len(c.its))
    # and final
    if c.result is not None:
      later = [np.array(x) for x in saving.leaves(c.live)]
      require(same(c.result, later), "changed", "%s: the returned samples changed after the run "
              "returned", label)
    require(same(c.snap, saving.snapshot(store, c)), "changed",
            "%s: the %s output changed after the run returned", label, store.type)
  require(not sim.tap_errors, "tap-error", "a callback failed: %s",
          sim.tap_errors and sim.tap_errors[0])
  store.close()
  ctx.nontrivial = any(c.its for c in chains) and (sim.tap_mode == "async" or bool(sim.fired))
