"""C08: failures of storage and of reading data are contained."""
import itertools

import numpy as np

from dsim import lib, loaders, saving
from dsim.core import Violation, require, rig
from dsim.lib import jx

GROUP = 24
KINDS = ["EIO", "ENOSPC", "torn", "EACCES", "EMFILE", "ENOMEM"]


def gen(rng, tier, i):
  if rng.group.random() < 0.25:
    return gen_read(rng)
  storage = {"type": rng.choice(["memory", "npz", "json", "json", "hdf5", "hdf5"])}
  if storage["type"] == "json":
    storage["freq"] = rng.choice([0, 1, 2, 3])
  tasks = saving.gen_jobs(rng, storage["type"])
  n = sum(len(t["keeps"]) for t in tasks)
  sites = {"memory": [], "npz": ["fs.open", "fs.write", "fs.write", "fs.mkdir"],
           "json": ["fs.open", "fs.write", "fs.write", "fs.rename"], "hdf5": ["h5.write"] * 3 + ["h5.flush"]}
  sites = sites[storage["type"]]
  faults = []
  for _ in range(rng.choice([1, 1, 2, 3])):
    if not sites or rng.random() < 0.4:
      faults.append({"site": "collector:%d" % rng.randrange(n), "n": rng.randrange(8),
                     "kind": rng.choice(["EIO", "ENOSPC", "ENOMEM", "DATA"])})
    else:
      faults.append({"site": rng.choice(sites), "n": rng.randrange(rng.choice([2, 6, 20])),
                     "kind": rng.choice(KINDS), "frac": rng.random()})
  sched = lib.sched(rng, targets=["recvrun0", "recvrun1", "run0", "run1"], async_p=0.3)
  sched["bufsize"] = rng.choice([16, 64, 8192])
  return {"storage": storage, "tasks": tasks, "faults": faults, "sched": sched}


def run(plan, ctx):
  if "read" in plan:
    return run_read(plan, ctx)
  room = saving.RETRIES * saving.S
  announce = lambda c: len(c.its) + room
  store, chains, tasks, rigs = saving.prepare(plan, ctx, announce)
  sim = ctx.simulate(tasks)
  for e in sim.tap_errors:
    if not lib.is_injected(e):
      raise e
  calls = {}
  for _, prog, _ in rigs:
    for x in prog["forward"].calls or []:
      calls.setdefault(x[1], []).append(x)
  for c in chains:
    examine(plan, store, c, calls.get(c.id, []), sim, room)
  # the fault has gone: new chains on the same collector
  tag = len(chains) + 1
  fresh = []
  for job, prog, mine in rigs:
    more = []
    for c in mine:
      more.append(saving.Chain(c.job, c.kind, tag, c.its))
      tag += 1
    fresh.append((job, prog, more))
  before = {c.id: saving.snapshot(store, c) for c in chains if c.id is not None}
  ctx.simulate(saving.enlist(ctx, store, fresh), faults=[])
  for _, _, more in fresh:
    for c in more:
      label = "new chain %s after the fault" % c.id
      saving.check_chain(store, c, label)
      if store.type == "json":
        saving.check_snapshots(store, c, c.snap, label, plan["storage"]["freq"])
  for c in chains:
    if c.id is not None:
      from dsim.checks.c07 import same
      require(same(before[c.id], saving.snapshot(store, c)), "disturbed",
              "chain %s: its output changed when another chain was saved", c.id)
  store.close()
  ctx.nontrivial = bool(sim.fired)


def iterations(c, rows):
  """Which iterations the given samples are; every one must be genuine."""
  ref = {}
  for it in c.its:
    ref.setdefault(_key(saving.leaves(saving.sample(c.kind, np, c.tag, it))), it)
  out = []
  for k, row in enumerate(rows):
    key = _key(row)
    require(key in ref, "foreign-sample", "chain %s: call %d stores a sample that is none of its "
            "kept samples: %s", c.id, k, [x.tolist() for x in row])
    out.append(ref[key])
  return out


def _key(row):
  return tuple((x.dtype.str, x.shape, x.tobytes()) for x in row)


def examine(plan, store, c, calls, sim, room):
  """A chain that may have met a failure."""
  label = "chain %s (%s, %s)" % (c.id, plan["tasks"][c.job]["api"],
                                 plan["tasks"][c.job]["variant"])
  bad = [x for x in calls if x[3] != "ok"]
  if not bad and c.error is None:        # another chain's failure must not show
    saving.check_chain(store, c, label + " without a failure") if room == 0 else \
        _padded(store, c, label + " without a failure")
    if store.type == "json":
      saving.check_snapshots(store, c, c.snap, label, plan["storage"]["freq"])
    return
  if c.id is None:
    require(c.lost is not None, "no-result", "%s was never started", label)
    return
  saves = [x for x in calls if x[0] == "save" and x[3] != "dropped"]
  its = iterations(c, [x[2] for x in saves])
  for a, b in zip(its, its[1:]):
    require(a < b or c.error is not None, "order", "%s: iterations %s were stored", label, its)
  # every stored sample counts, one whose storing failed may be there or not
  unsure = [k for k, x in enumerate(saves) if x[3] == "failed"]
  options = []
  for r in range(len(unsure) + 1):
    for drop in itertools.combinations(unsure, r):
      options.append([it for k, it in enumerate(its) if k not in drop])
  final = saving.snapshot(store, c)
  # nothing to read where the destination itself is given up together with the run
  if c.returned and c.result is not None:
    _any(options, c, label + ", returned samples", c.result)
  for name, got in sorted(final.items()):
    where = "%s, %s" % (label, name)
    if store.type == "hdf5":
      _any(options, c, where, got)
    elif isinstance(got, Exception):
      # recognisably incomplete (unreadable, or entries of the sample are
      # missing): only where writing it failed
      require(any(x[3] == "failed" for x in calls), "unreadable", "%s: %s", where, got)
    elif got is not None and store.type == "npz":
      _any(options, c, where, got)
    elif got is not None:
      m = saving.SNAP.fullmatch(name)
      if m is not None:
        n = int(m.group(2))
        cut = [o[:n] for o in options if len(o) >= n]
        require(cut, "snapshot-name", "%s: %d samples were stored", where, len(its))
        _any(cut, c, where, got, exact=True)
  if c.returned and all(x[3] == "ok" for x in calls if x[0] == "finalize"):
    # the closing file was written without a failure
    if store.type == "npz":
      require(isinstance(final["npz"], list), "missing", "%s: npz file: %s", label, final["npz"])
    if store.type == "json" and options[0]:
      names = ["chain_%d_iteration_%d.json" % (c.id, len(o)) for o in options if o]
      require(any(isinstance(final.get(n), list) for n in names) or not all(options), "missing",
              "%s: none of the files %s", label, names)
  if c.returned and sim.tap_mode == "sync":
    require(int(c.count) == len(c.its), "count", "%s reports %s of %d samples", label,
            c.count.tolist(), len(c.its))


def _any(options, c, where, got, exact=False):
  err = None
  for o in options:
    try:
      return saving.compare(got, c.kind, c.tag, o, where, exact_rows=exact)
    except Violation as e:
      err = err or e
  raise err


def _padded(store, c, label):
  """As check_chain, for collectors that were announced more samples."""
  require(c.returned, "no-result", "%s did not return", label)
  require(int(c.count) == len(c.its), "count", "%s reports %s of %d samples", label,
          c.count.tolist(), len(c.its))
  for where, got in saving.final_outputs(store, c):
    saving.compare(got, c.kind, c.tag, c.its, "%s, %s" % (label, where),
                   exact_rows=store.type == "json")


# -- reading ------------------------------------------------------------------------

def gen_read(rng):
  g = rng.group
  p = {"n": g.randint(2, 12), "fields": g.randrange(4), "cache": g.randint(1, 3)}
  p["mb"] = g.randint(1, p["n"])
  chains = []
  for _ in range(rng.randint(1, 4)):
    chains.append({"mode": rng.choice(["draw", "shuffle", "epoch", "ordered"]),
                   "seed": rng.choice([None, rng.randrange(4)]), "cache": p["cache"],
                   "mb": p["mb"], "draws": rng.randint(2, 9),
                   "via": rng.choice(["loader", "compiled"])})
  for ch in chains:
    if ch["mode"] == "ordered":
      ch["via"] = "loader"
  faults = [{"site": "h5.read", "n": rng.randrange(rng.choice([3, 12, 40])), "kind": "EIO"}
            for _ in range(rng.choice([1, 2, 3]))]
  return {"read": p, "chains": chains, "faults": faults,
          "sched": lib.sched(rng, targets=["c0", "c1"])}


def run_read(plan, ctx):
  jax = jx()
  p, chains = plan["read"], plan["chains"]
  src = loaders.Source("hdf5", p["n"], p["fields"], 0, ctx)

  def build():
    from jax_sgmc import data
    loader = lib.proxy_class()(lib.np_loader(p["n"], p["fields"]))
    init, get, _ = data.random_reference_data(loader, p["cache"], p["mb"])
    return {"loader": loader, "init": init, "go": jax.jit(lambda s: get(s, information=True)),
            "warm": set()}
  prog = rig(("c08",) + tuple(sorted(p.items())), build)
  devs = jax.devices()
  for c, ch in enumerate(chains):
    if ch["via"] == "compiled" and c not in prog["warm"]:
      prog["warm"].add(c)
      prog["loader"].bind(lib.np_loader(p["n"], p["fields"]))
      with jax.default_device(devs[c]):
        s = lib.local(prog["init"]())
        for _ in range(p["cache"] + 1):
          s, _ = prog["go"](s)

  loader = src.loader()
  prog["loader"].bind(loader)
  handles = []
  for ch in chains:
    if ch["via"] == "loader":
      handles.append(loaders.register(loader, ch))
    else:
      kw = {"shuffle": ch["mode"] != "draw", "in_epochs": ch["mode"] == "epoch"}
      if ch["seed"] is not None:
        kw["seed"] = ch["seed"]
      handles.append(prog["init"](**kw))
  got = [[] for _ in chains]
  failures = [0] * len(chains)

  def body(c):
    ch = chains[c]
    def go():
      s = ctx.sims[-1]
      state = None if ch["via"] == "loader" else lib.local(handles[c])
      for _ in range(ch["draws"]):
        for attempt in range(5):
          s.point("draw")
          try:
            if ch["via"] == "loader":
              got[c] += loaders.lines(src, ch, loader.get_batches(handles[c]), "chain %d" % c)
            else:
              state, (batch, info) = prog["go"](state)
              batch = jax.tree_util.tree_map(np.asarray, batch)
              got[c].append((lib.ids_of(batch, p["fields"]), np.asarray(info.mask)))
            break
          except Exception as e:     # pylint: disable=broad-except
            if not lib.is_injected(e) or attempt == 4:
              raise
            failures[c] += 1
    return go

  sim = ctx.simulate([("c%d" % c, body(c)) for c in range(len(chains))])
  # the chains alone, without failures
  twin = src.loader()
  for c, ch in enumerate(chains):
    h = loaders.register(twin, ch)
    ref = []
    while len(ref) < len(got[c]):
      ref += loaders.lines(src, ch, twin.get_batches(h), "reference")
    for k, (g, r) in enumerate(zip(got[c], ref)):
      require(np.array_equal(g[0], r[0]) and np.array_equal(g[1], r[1]), "stream",
              "chain %d (%s by %s), batch %d after %d failed reads: observations %s (mask %s), "
              "its stream has %s (mask %s)", c, ch["mode"], ch["via"], k, failures[c],
              g[0].tolist(), g[1].astype(int).tolist(), r[0].tolist(), r[1].astype(int).tolist())
  src.close()
  ctx.note("failed_reads", sum(failures))
  ctx.nontrivial = bool(sim.fired)
