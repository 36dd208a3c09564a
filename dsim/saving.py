"""Runs that save samples, shared by C06 to C10: programs, jobs, outputs.

A sample is a pure function of (tag of the chain, iteration), so that whatever
is found in an output can be decided without knowing how it got there.
"""
import collections
import json
import os
import re

import numpy as np

from dsim import lib, seams
from dsim.core import Violation, require, rig
from dsim.lib import jx

S = 6            # iterations per call of a direct program
RETRIES = 4      # of a failed call
SNAP = re.compile(r"chain_(\d+)_iteration_(\d+)\.json")
NT = collections.namedtuple("NT", ["zeta", "alpha"])


def sample(kind, xp, tag, it):
  """The sample of chain `tag` in iteration `it` (numpy or jax)."""
  v = tag * 1024 + it
  def entry(shape, dtype, scale, base):
    ramp = np.arange(int(np.prod(shape))).reshape(shape) * scale
    return xp.asarray(xp.asarray(ramp, dtype=dtype) + xp.asarray(base, dtype=dtype), dtype=dtype)
  f = lambda *s: entry(s, np.float32, 0.125, v)
  i = lambda *s: entry(s, np.int32, 10000, v)
  b = xp.asarray(v % 3 == 0)
  u = xp.asarray(v % 251, dtype=np.uint8)
  h = entry((2,), np.float16, 1, v % 500)
  if kind == 0:
    return {"variables": f()}
  if kind == 1:
    return {"b": f(3), "a": {"z": i(), "k": b}}
  if kind == 2:
    return {"variables": {"w": [f(2, 2), i(3)], "t": (u, h)}, "likelihood": f()}
  if kind == 3:
    return {"variables": NT(zeta=f(2), alpha={"x": i()}), "x": f()}
  if kind == 4:
    return {"l": [entry((), np.int32, 0, v * 16 + j) for j in range(11)], "e": f(1)}
  if kind == 5:               # what diverged or single precision chains contain
    r = xp.asarray(ODD)[(v * 7 + 13 * np.arange(6).reshape(2, 3)) % len(ODD)]
    return {"variables": {"r": r, "none": f(0, 2), "s": xp.asarray(ODD)[v * 3 % len(ODD)]}, "v": i()}
  raise ValueError(kind)

KINDS = 6
ODD = np.concatenate([
    np.float32([np.nan, np.inf, -np.inf, -0.0, 3.4028235e38, 1.1754944e-38, 16777217, 1 / 3]),
    np.random.default_rng(5).normal(size=53).astype(np.float32) * np.float32(10.0) ** np.arange(-26, 27, dtype=np.float32)])


def paths(tree):
  """Names of the entries, in the order of the flattened tree."""
  jax = jx()
  def walk(node):
    if isinstance(node, dict):
      items = [(k, node[k]) for k in sorted(node)]
    elif hasattr(node, "_fields"):
      items = list(zip(node._fields, node))
    elif isinstance(node, (list, tuple)):
      items = [("list_element_%d" % k, v) for k, v in enumerate(node)]
    else:
      return [()]
    return [(k,) + p for k, v in items for p in walk(v)]
  return ["/".join(p) for p in walk(tree)]


def leaves(tree):
  return [np.asarray(x) for x in jx().tree_util.tree_leaves(tree)]


def want(kind, tag, its):
  """Stacked leaves of the samples of the iterations `its`."""
  if not its:
    return [np.zeros((0,) + l.shape, l.dtype) for l in leaves(sample(kind, np, tag, 0))]
  return [np.stack(c) for c in zip(*[leaves(sample(kind, np, tag, i)) for i in its])]


_COLLECTOR = None

def collector_class():
  """Forwards to the collector of the run; records what it is given."""
  global _COLLECTOR
  if _COLLECTOR is None:
    from jax_sgmc.io import DataCollector
    class Forward(DataCollector):
      target, calls, done = None, None, None
      def bind(self, target):
        self.target, self.calls, self.done = target, [], None
      def register_data_loader(self, data_loader):
        return self.target.register_data_loader(data_loader)
      def register_chain(self, **kw):
        c = self.target.register_chain(**kw)
        self.calls.append(["register", int(c), None, "ok"])
        return c
      def save(self, chain_id, values):
        c = int(chain_id)
        s = seams.sim()
        call = ["save", c, [np.array(v) for v in values], "dropped"]
        self.calls.append(call)
        if s is not None:
          s.point("collector.save", c)
          f = s.fault("collector:%d" % c)
          if f is not None:
            raise seams._oserror(f["kind"], "collector")
        return self._forward(call, self.target.save, c, values)
      def finalize(self, chain_id):
        c = int(chain_id)
        call = ["finalize", c, None, "dropped"]
        self.calls.append(call)
        return self._forward(call, self.target.finalize, c)
      def _forward(self, call, fn, *args):
        call[3] = "failed"
        out = fn(*args)
        call[3] = "ok"
        if self.done is not None:
          self.done(call)
        return out
      def finished(self, chain_id):
        return self.target.finished(int(chain_id))
      def checkpoint(self, chain_id, state):
        return self.target.checkpoint(chain_id, state)
      def resume(self):
        return self.target.resume()
    _COLLECTOR = Forward
  return _COLLECTOR()


class Store:
  """A collector of the library with its destination."""

  def __init__(self, spec, ctx):
    from jax_sgmc import io
    self.spec, self.type = spec, spec["type"]
    self.dir = self.file = self.collector = None
    self.earlier = {}             # files of an earlier run and their content
    if self.type == "memory":
      self.collector = io.MemoryCollector()
    elif self.type == "npz":
      self.dir = os.path.join(ctx.scratch(), "out")
      self.collector = io.MemoryCollector(self.dir)
    elif self.type == "json":
      self.dir = os.path.join(ctx.scratch(), "out")
      self.collector = io.JSONCollector(self.dir, write_frequency=spec.get("freq", 0))
    elif self.type == "hdf5":
      import h5py
      self.file = h5py.File(os.path.join(ctx.scratch(), "out.h5"), "w")
      self.collector = io.HDF5Collector(self.file)

  def close(self):
    if self.file is not None:
      self.file.close()
      self.file = None


# -- programs -----------------------------------------------------------------------

def direct(spec, slot):
  """Compiled loop over io.save / io.no_save for one chain or a mapped group."""
  kind, variant, C, storage, K = (spec["kind"], spec["variant"], spec["C"],
                                  spec["storage"], spec.get("K"))
  def build():
    from jax_sgmc import io, scheduler
    jax = jx()
    jnp = jax.numpy
    forward = collector_class()
    init, save, post = io.no_save() if storage == "none" else io.save(forward)
    def prog(state, tag, start, keeps):
      def step(st, x):
        j, keep = x
        st, _ = save(st, keep, sample(kind, jnp, tag, start + j))
        return st, None
      return jax.lax.scan(step, state, (jnp.arange(S), keeps))[0]
    mapped = prog
    if variant == "vmap":
      mapped = jax.vmap(prog, (0, 0, None, 0))
    go = jax.pmap(prog, in_axes=(0, 0, None, 0)) if variant == "pmap" else jax.jit(mapped)
    def start(samples):
      return init(sample(kind, jnp, 0, 0), {}, scheduler.static_information(
        samples_collected=samples))
    return {"forward": forward, "start": start, "go": go, "post": post, "warm": set()}
  key = ("direct", slot, kind, variant, C, storage == "none", K if storage == "none" else None)
  return rig(key, build)


def mcmc(spec, slot):
  """The solver loop with a solver whose samples name chain and iteration."""
  kind, variant, C, storage, K, N, B = (spec["kind"], spec["variant"], spec["C"], spec["storage"],
                                        spec["K"], spec["N"], spec["B"])
  def build():
    from jax_sgmc import io, scheduler, solver
    jnp = jx().numpy
    forward = collector_class()
    patterns = []
    thinning = scheduler.specific_scheduler(
      lambda its, **kw: (jnp.array(patterns.pop(0)), K),
      lambda state, it, **kw: state,
      lambda state, it, **kw: state[it])
    sch = scheduler.init_scheduler(burn_in=scheduler.initial_burn_in(B), thinning=thinning,
                                   progress_bar=False)
    def update(state, schedule):
      return {"tag": state["tag"], "it": state["it"] + 1}, None
    fake = (None, update, lambda st: sample(kind, jnp, st["tag"], st["it"] - 1))
    run = solver.mcmc(fake, sch, strategy=variant,
                      saving=None if storage == "none" else io.save(forward))
    def go(tags, keeps):
      patterns[:] = [np.array(k) for k in keeps]
      states = [{"tag": jnp.int32(t), "it": jnp.int32(0)} for t in tags]
      return run(*states, iterations=N)
    return {"forward": forward, "go": go, "warm": set()}
  key = ("mcmc", slot, kind, variant, C, storage == "none", K, N, B)
  return rig(key, build)


# -- jobs -----------------------------------------------------------------------------

def gen_jobs(rng, storage, strategies=("map", "vmap", "pmap"), max_tasks=4, long=False):
  """Random jobs: one solver run, or several direct programs on one collector."""
  g = rng.group
  if long:                       # a run of some hundred iterations
    p = {"api": "mcmc", "kind": g.randrange(2), "variant": g.choice(strategies),
         "C": g.choice([1, 2]), "N": g.randint(280, 320), "B": g.choice([0, 10]), "slot": 0}
    p["K"] = g.randint(257, p["N"] - p["B"])
    keeps = []
    for _ in range(p["C"]):
      its = set(rng.sample(range(p["B"], p["N"]), p["K"]))
      keeps.append([i in its or (i < p["B"] and rng.random() < 0.5) for i in range(p["N"])])
    return [dict(p, keeps=keeps)]
  pal_m = [{"api": "mcmc", "kind": g.randrange(KINDS), "variant": g.choice(strategies),
            "C": g.choice([1, 2, 2, 3, 4]), "N": g.choice([4, 7, 10]), "B": g.choice([0, 0, 2, 3])}
           for _ in range(2)]
  for p in pal_m:
    p["K"] = g.randint(1, p["N"] - p["B"])
  pal_d = [{"api": "direct", "kind": g.randrange(KINDS),
            "variant": g.choice(["single", "single", "vmap", "pmap"]),
            "C": g.choice([2, 3]), "K": g.randint(1, 2 * S)} for _ in range(2)]
  for p in pal_d:
    if p["variant"] == "single":
      p["C"] = 1
  if rng.random() < 0.4:
    p = dict(rng.choice(pal_m))
    keeps = []
    for _ in range(p["C"]):
      its = rng.sample(range(p["B"], p["N"]), p["K"])
      keep = [i in its for i in range(p["N"])]
      for i in range(p["B"]):
        keep[i] = rng.random() < 0.5       # accepted, but subject to burn in
      keeps.append(keep)
    return [dict(p, keeps=keeps, slot=0)]
  jobs = []
  for k in range(rng.choice([1, 2, 2, 3, max_tasks])):
    p = dict(rng.choice(pal_d))
    segs = 2 if storage == "none" else rng.choice([1, 1, 2, 3])
    keeps = []
    for _ in range(p["C"]):
      if storage == "none":
        its = rng.sample(range(S * segs), p["K"])
        keeps.append([i in its for i in range(S * segs)])
      else:
        q = rng.choice([0.2, 0.6, 0.9, 1.0])
        keeps.append([rng.random() < q for _ in range(S * segs)])
    jobs.append(dict(p, keeps=keeps, slot=k))
  return jobs


class Chain:
  """What one chain was told to save and what was reported."""
  def __init__(self, job, kind, tag, its):
    self.job, self.kind, self.tag, self.its = job, kind, tag, its
    self.id = None            # id given by the collector
    self.count = None         # reported sample count
    self.result = None        # reported samples (leaves)
    self.snap = None          # destination when the run returned
    self.error = None         # an injected failure met by the program of the chain
    self.lost = None          # ... which cost the results of the run
    self.returned = False


def prepare(plan, ctx, announce=None):
  """Builds programs and chains; returns (store, chains, tasks)."""
  jax = jx()
  devs = jax.devices()
  storage = plan["storage"]["type"]
  chains, rigs, tag = [], [], 1
  for k, job in enumerate(plan["tasks"]):
    job = dict(job, storage=storage)
    prog = mcmc(job, k) if job["api"] == "mcmc" else direct(job, k)
    mine = []
    for keep in job["keeps"]:
      its = [i for i, x in enumerate(keep) if x and i >= job.get("B", 0)]
      mine.append(Chain(k, job["kind"], tag, its))
      tag += 1
    chains += mine
    rigs.append((job, prog, mine))
    if k not in prog["warm"]:
      prog["warm"].add(k)
      warm_store = Store({"type": "memory"}, ctx)
      prog["forward"].bind(warm_store.collector)
      with jax.default_device(devs[k]):
        if job["api"] == "mcmc":
          lib.settle(prog["go"]([c.tag for c in mine], job["keeps"]))
        else:
          st = [prog["start"](len(c.its)) for c in mine]
          lib.settle(_segment(job, prog, _join(job, st), mine, job["keeps"], 0))
  store = Store(plan["storage"], ctx)
  for job, prog, mine in rigs:
    prog["forward"].bind(store.collector)
  return store, chains, enlist(ctx, store, rigs, announce), rigs


def enlist(ctx, store, rigs, announce=None, guard=None):
  """Registers the chains and returns the tasks [(name, function)]."""
  tasks = []
  for k, (job, prog, mine) in enumerate(rigs):
    if job["api"] == "mcmc":
      tasks.append(("run%d" % k, _mcmc_task(ctx, job, prog, mine, store)))
    else:
      states = []
      for c in mine:
        states.append(prog["start"](len(c.its) if announce is None else announce(c)))
        c.id = int(states[-1].chain_id)
      tasks.append(("run%d" % k, _direct_task(ctx, job, prog, mine, store, states)))
  return tasks


def _join(job, states):
  states = [jx().tree_util.tree_map(lambda x: np.asarray(x, dtype=getattr(x, "dtype", np.int32)), s)
            for s in states]
  if job["variant"] == "single":
    return states[0]
  return jx().tree_util.tree_map(lambda *x: np.stack(x), *states)


def _segment(job, prog, state, mine, keeps, seg):
  """One compiled call."""
  jax = jx()
  tags = np.array([c.tag for c in mine], np.int32)
  ks = np.array([k[seg * S:(seg + 1) * S] for k in keeps])
  if job["variant"] == "single":
    tags, ks = tags[0], ks[0]
  if job["variant"] != "pmap":
    state, tags, ks = lib.local((state, tags, ks))
  out = prog["go"](state, tags, np.int32(seg * S), ks)
  return jax.tree_util.tree_map(np.asarray, jax.block_until_ready(out))


def _direct_task(ctx, job, prog, mine, store, states):
  """Segments of the program, then the post-processing of every chain.

  A segment that fails with an injected fault is repeated from its start."""
  jax = jx()
  def go():
    s = ctx.sims[-1]
    state = _join(job, states)
    for seg in range(len(job["keeps"][0]) // S):
      for attempt in range(RETRIES + 1):
        s.point("segment")
        try:
          state = _segment(job, prog, state, mine, job["keeps"], seg)
          break
        except Exception as e:    # pylint: disable=broad-except
          if not lib.is_injected(e) or attempt == RETRIES:
            raise
          for c in mine:
            c.error = e
    for k, c in enumerate(mine):
      one = state if job["variant"] == "single" else \
          jax.tree_util.tree_map(lambda x: x[k], state)
      s.point("postprocess")
      try:
        out = prog["post"](lib.local(one), None)
      except Exception as e:      # pylint: disable=broad-except
        if not lib.is_injected(e):
          raise
        c.error = c.lost = e
        continue
      _returned(c, out, store)
  return go


def _mcmc_task(ctx, job, prog, mine, store):
  def go():
    first = len(prog["forward"].calls or [])
    out = None
    try:
      out = prog["go"]([c.tag for c in mine], job["keeps"])
    except Exception as e:        # pylint: disable=broad-except
      if not lib.is_injected(e):
        raise
      for c in mine:
        c.error = c.lost = e
    ids = [x[1] for x in (prog["forward"].calls or [])[first:] if x[0] == "register"]
    for k, c in enumerate(mine):
      c.id = ids[k] if k < len(ids) else None
    if out is None:
      return
    require(len(out) == len(mine), "chains", "%d results for %d chains", len(out), len(mine))
    for k, c in enumerate(mine):
      _returned(c, out[k], store)
  return go


def _returned(c, out, store):
  """The moment the results are handed over: record everything as it is now."""
  c.count = np.asarray(out["sample_count"])
  c.live = out["samples"]
  c.result = None if out["samples"] is None else [np.array(x) for x in leaves(out["samples"])]
  c.snap = snapshot(store, c)
  c.returned = True


def snapshot(store, c):
  """Destination of a chain: {name: list of leaves, an exception, or None}."""
  if store.type == "npz":
    return {"npz": _read_npz(os.path.join(store.dir, "chain_%d.npz" % c.id), c.kind)}
  if store.type == "json":
    out = {}
    for name in sorted(os.listdir(store.dir)):
      m = SNAP.fullmatch(name)
      if m is not None and int(m.group(1)) == c.id and name not in store.earlier:
        out[name] = _read_json(os.path.join(store.dir, name), c.kind)
    return out
  if store.type == "hdf5":
    names = ["/chain~%d/%s" % (c.id, p) for p in paths(sample(c.kind, np, 0, 0))]
    out = []
    for n in names:
      if n not in store.file:
        return {"hdf5": Violation("missing", "data set %s does not exist" % n)}
      out.append(np.array(seams.h5_real_get(store.file[n], ())))
    return {"hdf5": out}
  return {}


def _read_npz(path, kind):
  if not os.path.exists(path):
    return None
  try:
    with np.load(path) as f:
      data = {k: f[k] for k in f.files}
  except Exception as e:   # pylint: disable=broad-except
    return e
  names = paths(sample(kind, np, 0, 0))
  if sorted(data) != sorted(names):
    return Violation("names", "the file contains %s, not %s" % (sorted(data), sorted(names)))
  return [data[n] for n in names]


def _read_json(path, kind):
  try:
    with open(path) as f:
      data = json.load(f)
  except Exception as e:   # pylint: disable=broad-except
    return e
  like = leaves(sample(kind, np, 0, 0))
  got = _flat(data, kind)
  if got is None or len(got) != len(like):
    return Violation("names", "the file has %s entries, not %d" % (got and len(got), len(like)))
  return [np.array(g, dtype=l.dtype).reshape((len(g),) + l.shape) for g, l in zip(got, like)]


def _flat(data, kind):
  """Entries of a sample in the order of the flattened tree."""
  return data if isinstance(data, list) else None


def equal(a, b):
  return np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f")


def compare(got, kind, tag, its, where, exact_rows=True):
  """Are these exactly the samples of the iterations `its` of chain `tag`?"""
  require(got is not None, "missing", "%s: no output", where)
  if isinstance(got, Exception):
    raise Violation("unreadable", "%s: %s" % (where, got))
  ref = want(kind, tag, its)
  names = paths(sample(kind, np, 0, 0))
  require(len(got) == len(ref), "entries", "%s: %d entries instead of %d", where, len(got), len(ref))
  for g, r, n in zip(got, ref, names):
    if exact_rows:
      require(g.shape == r.shape, "shape", "%s: entry %s has shape %s instead of %s",
              where, n, g.shape, r.shape)
    require(g.shape[0] >= r.shape[0] and g.shape[1:] == r.shape[1:], "shape",
            "%s: entry %s has shape %s, expected %s", where, n, g.shape, r.shape)
    require(g.dtype == r.dtype, "dtype", "%s: entry %s has type %s", where, n, g.dtype)
    if not equal(g[:r.shape[0]], r):
      bad = [i for i in range(r.shape[0]) if not equal(g[i], r[i])]
      raise Violation("samples", "%s: entry %s of sample %d is %s; the sample of iteration %d "
                      "has %s" % (where, n, bad[0], g[bad[0]].tolist(), its[bad[0]],
                                  r[bad[0]].tolist()))


def final_outputs(store, c):
  """(where, leaves) of every complete output that must exist for a chain."""
  out = []
  if store.type in ("memory", "npz", "none"):
    out.append(("returned samples", c.result))
  if store.type == "npz":
    out.append(("npz file", c.snap["npz"]))
  if store.type == "hdf5":
    out.append(("HDF5 data sets", c.snap["hdf5"]))
  if store.type == "json" and c.its:
    out.append(("JSON file", c.snap.get("chain_%d_iteration_%d.json" % (c.id, len(c.its)))))
  return out


def check_chain(store, c, label):
  require(c.returned, "no-result", "%s did not return", label)
  require(c.count.shape == () and int(c.count) == len(c.its), "count",
          "%s reports %s samples, %d iterations are kept", label, c.count.tolist(), len(c.its))
  for where, got in final_outputs(store, c):
    compare(got, c.kind, c.tag, c.its, "%s, %s" % (label, where))


def check_snapshots(store, c, snap, label, freq):
  """Periodic JSON files hold exactly the first n samples they are named after."""
  n = len(c.its)
  expected = {n} if n else set()
  if freq:
    expected |= {m for m in range(freq, n + 1, freq)}
  for name, got in snap.items():
    m = SNAP.fullmatch(name)
    if m is None:
      continue
    k = int(m.group(2))
    require(k in expected, "snapshot-name", "%s: file %s for %d samples with frequency %s",
            label, name, n, freq)
    compare(got, c.kind, c.tag, c.its[:k], "%s, file %s" % (label, name))
  return expected
