"""C09: the death of the process never damages sample files that were complete."""
import os
import re

import numpy as np

from dsim import lib, saving
from dsim.core import Violation, require

GROUP = 24


def gen(rng, tier, i):
  storage = {"type": rng.choice(["json", "json", "json", "npz"])}
  if storage["type"] == "json":
    storage["freq"] = rng.choice([0, 1, 1, 2, 3])
  tasks = saving.gen_jobs(rng, storage["type"])
  sched = lib.sched(rng, targets=["recvrun0", "recvrun1", "run0", "run1"], line=0.4, async_p=0.5)
  sched["bufsize"] = rng.choice([4, 16, 64, 8192])
  faults = []
  how = rng.random()
  if how < 0.65:
    site = rng.choice(["fs.open", "fs.write", "fs.write", "fs.write", "fs.rename", "fs.mkdir"]
                      if storage["type"] == "json" else ["fs.open", "fs.write", "fs.write"])
    kind = "crash" if site == "fs.write" else rng.choice(["crash", "crash_after"])
    faults.append({"site": site, "n": rng.randrange(rng.choice([3, 10, 40])), "kind": kind,
                   "frac": rng.choice([0.0, 0.0, 1.0, rng.random()])})
  elif how < 0.9:
    sched["crash_at"] = rng.randrange(5, rng.choice([60, 200, 800]))
  if rng.random() < 0.3:
    faults.append({"site": "fs.write", "n": rng.randrange(10), "kind": "short", "frac": rng.random()})
  # files of an earlier run in the same directory, which this run has no reason to write
  old = []
  if rng.random() < 0.4:
    for c in rng.sample(range(14), 5):
      old.append([c, rng.choice([1000, 1001, 1002])])
  return {"storage": storage, "tasks": tasks, "faults": faults, "sched": sched, "old": old}


def run(plan, ctx):
  store, chains, tasks, rigs = saving.prepare(plan, ctx)
  earlier = store.earlier
  for c, n in plan.get("old", ()):
    # chains that this run does not have, or more samples than this run collects
    if store.type == "json":
      name = "chain_%d_iteration_%d.json" % (c, n)
    elif c >= len(chains):
      name = "chain_%d.npz" % c
    else:
      continue
    earlier[name] = b"earlier run %d %d" % (c, n)
    os.makedirs(store.dir, exist_ok=True)
    with open(os.path.join(store.dir, name), "wb") as f:
      f.write(earlier[name])
  complete = {}                 # chain: names of files that were complete
  def done(call):
    c = call[1]
    names = [n for n in os.listdir(store.dir)] if os.path.isdir(store.dir) else []
    complete[c] = {n for n in names if re.match(r"chain_%d[_.]" % c, n)
                   and n.endswith((".json", ".npz")) and n not in earlier}
  for _, prog, _ in rigs:
    prog["forward"].done = done
  sim = ctx.simulate(tasks)
  files = 0
  # Set the files of the earlier run aside: they are untouched
  for name, content in sorted(earlier.items()):
    path = os.path.join(store.dir, name)
    require(os.path.exists(path), "missing", "%s of an earlier run is gone", name)
    with open(path, "rb") as f:
      require(f.read() == content, "damaged", "%s of an earlier run was changed", name)
    os.remove(path)
    files += 1
  freq = plan["storage"].get("freq", 0)
  if not sim.crashed:
    for c in chains:
      saving.check_chain(store, c, "chain %s" % c.id)
      if store.type == "json":
        saving.check_snapshots(store, c, c.snap, "chain %s" % c.id, freq)
  for _, prog, mine in rigs:
    calls = prog["forward"].calls or []
    ids = [x[1] for x in calls if x[0] == "register"]
    for c, cid in zip(mine, ids):
      c.id = cid
      label = "chain %d (%s, %s)" % (cid, plan["tasks"][c.job]["api"],
                                     plan["tasks"][c.job]["variant"])
      if not os.path.isdir(store.dir):
        require(not complete.get(cid), "missing", "%s: the directory is gone", label)
        continue
      snap = saving.snapshot(store, c)
      if store.type == "npz":
        snap = {"chain_%d.npz" % cid: snap["npz"]} if snap["npz"] is not None else {}
      working = any(x[1] == cid and x[3] == "failed" for x in calls)
      for name in sorted(complete.get(cid, ())):
        require(name in snap, "missing", "%s: %s was complete and is gone", label, name)
        got = snap[name]
        require(not isinstance(got, Exception), "damaged", "%s: %s was complete and is damaged: %s",
                label, name, got)
      for name, got in sorted(snap.items()):
        if isinstance(got, Exception):
          require(working, "unreadable", "%s: %s, which nobody was writing: %s", label, name, got)
          require(not isinstance(got, Violation), "partial", "%s: %s reads back with other "
                  "entries: %s", label, name, got)
          ctx.note("incomplete_files")
          continue
        files += 1
        if store.type == "npz":
          saving.compare(got, c.kind, c.tag, c.its, "%s, file %s" % (label, name))
        elif saving.SNAP.fullmatch(name):
          n = int(saving.SNAP.fullmatch(name).group(2))
          require(1 <= n <= len(c.its) and (n == len(c.its) or (freq and n % freq == 0)),
                  "snapshot-name", "%s: file %s for %d samples, frequency %d", label, name,
                  len(c.its), freq)
          saving.compare(got, c.kind, c.tag, c.its[:n], "%s, file %s" % (label, name))
      if freq:
        # every period that passed has left its file
        saved = sum(x[0] == "save" and x[1] == cid and x[3] == "ok" for x in calls)
        for n in range(freq, saved + 1, freq):
          require("chain_%d_iteration_%d.json" % (cid, n) in snap, "missing",
                  "%s: no file for %d samples", label, n)
  ctx.note("complete_files", files)
  ctx.nontrivial = sim.crashed
