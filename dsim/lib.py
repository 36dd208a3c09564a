"""Shared parts of the checks: data sets, loaders, reference streams."""
import random

import numpy as np

from dsim import kernel
from dsim.core import Violation, require
from dsim import seams
from dsim.seams import _oserror


def jx():
  import jax
  return jax


def sched(rng, tasks=2, line=0.25, horizon=120, targets=("t",), async_p=0.0):
  """A random scheduler configuration."""
  kind = rng.choice(["uniform", "uniform", "sticky", "sticky", "pct", "pct",
                     "starve", "eager", "serial" if rng.random() < 0.4 else "pct"])
  s = {"seed": rng.getrandbits(32), "kind": kind}
  if kind == "sticky":
    s["p"] = rng.choice([0.05, 0.2, 0.5])
  if kind == "pct":
    s["depth"] = rng.randint(1, 5)
    s["horizon"] = rng.choice([30, horizon, 3 * horizon])
  if kind in ("starve", "eager"):
    s["target"] = rng.choice(list(targets))
    s["p"] = rng.choice([0.0, 0.02, 0.1])
  if rng.random() < line:
    s["line_p"] = rng.choice([0.02, 0.1, 0.4])
  if rng.random() < async_p:
    s["tap"] = "async"
    s["tap_cap"] = rng.choice([0, 0, 1, 3])
  return s


def dataset(n, kind=0, offset=0):
  """Observations whose every field names the observation it belongs to."""
  idx = np.arange(n) + offset
  if kind == 0:
    return {"x": idx.astype(np.float32)}
  if kind == 1:
    return {"x": idx.astype(np.int32),
            "y": (idx[:, None] * 10 + np.arange(3)[None]).astype(np.float32)}
  if kind == 2:
    return {"a": (idx[:, None, None] * 100 + np.arange(4).reshape(1, 2, 2)).astype(np.float32),
            "x": idx.astype(np.int32),
            "z": (-idx).astype(np.float32)}
  if kind == 3:               # the types numpy arrays usually have, and narrow ones
    return {"b": (idx // 3) % 2 == 0, "h": ((idx % 64)[:, None] / 8 + np.arange(2)).astype(np.float16),
            "l": -idx.astype(np.int64), "u": (idx * 7 % 256).astype(np.uint8),
            "x": idx.astype(np.float64)}
  raise ValueError(kind)


NARROW = {"float64": np.dtype("float32"), "int64": np.dtype("int32")}


def same_type(got, true):
  """Is an array of type `true` delivered as `got`, possibly in single precision?"""
  return got in (true, NARROW.get(str(true)))


def ids_of(batch, kind, offset=0, what="batch"):
  """Observation numbers of a batch; every field must agree."""
  b = {k: np.asarray(v) for k, v in batch.items()}
  ids = b["x"].astype(np.int64) - offset
  full = dataset(int(ids.max()) + 1 if ids.size and ids.max() >= 0 else 0, kind, offset)
  require(ids.size == 0 or ids.min() >= 0, "foreign-data", "%s contains %s", what, ids.tolist())
  for k, v in full.items():
    require(k in b, "fields", "%s lacks field %s", what, k)
    require(b[k].shape == ids.shape + v.shape[1:], "shape",
            "%s field %s has shape %s", what, k, b[k].shape)
    require(same_type(b[k].dtype, v.dtype), "type",
            "%s field %s has type %s, the data has %s", what, k, b[k].dtype, v.dtype)
    require(np.array_equal(b[k], v[ids]), "mixed-fields",
            "%s: field %s does not belong to the observations %s", what, k, ids.tolist())
  return ids


_PROXY = None

def proxy_class():
  """HostDataLoader whose target is exchanged for every run."""
  global _PROXY
  if _PROXY is not None:
    return _PROXY
  from jax_sgmc.data.core import HostDataLoader

  class Proxy(HostDataLoader):
    def __init__(self, format_loader):
      self._like = format_loader
      self._targets = {}
      self._n = 0
      self.target = None
      self.drop_mask = False
      self.active = 0
      self.overlap = 0
      self.calls = []

    def bind(self, target, drop_mask=False):
      self.target, self.drop_mask = target, drop_mask
      self._targets.clear()
      self.calls = []

    @property
    def static_information(self):
      return self._like.static_information

    @property
    def _format(self):
      return self._like._format

    def _register(self, fn, *args, **kwargs):
      tid = fn(*args, **kwargs)
      n = self._n
      self._n += 1
      self._targets[n] = (self.target, tid)
      return n

    def register_random_pipeline(self, cache_size=1, mb_size=None, **kwargs):
      return self._register(self.target.register_random_pipeline, cache_size,
                            mb_size=mb_size, **kwargs)

    def register_ordered_pipeline(self, cache_size=1, mb_size=None, **kwargs):
      return self._register(self.target.register_ordered_pipeline, cache_size,
                            mb_size=mb_size, **kwargs)

    def tid(self, chain_id):
      return self._targets[int(chain_id)][1]

    def get_batches(self, chain_id):
      target, tid = self._targets[int(chain_id)]
      s = seams.sim()
      if s is not None:
        s.point("loader", tid)
        f = s.fault("loader:%d" % tid)
        if f is not None:
          if f["kind"] == "slow":
            for _ in range(f.get("steps", 5)):
              s.point("loader.slow")
          elif f["kind"] == "late":       # fails after the data has been read
            target.get_batches(tid)
            raise _oserror("EIO", "loader")
          else:
            raise _oserror(f["kind"], "loader")
      data, mask = target.get_batches(tid)
      self.calls.append(tid)
      if s is not None:
        s.point("loader.done", tid)
      if self.drop_mask:
        mask = None
      return data, mask

    def save_state(self, chain_id):
      target, tid = self._targets[int(chain_id)]
      return target.save_state(tid)

    def load_state(self, chain_id, data):
      target, tid = self._targets[int(chain_id)]
      return target.load_state(tid, data)

  _PROXY = Proxy
  return Proxy


class RefStream:
  """The sequence a chain must see: a fresh loader, drained one batch at a time."""

  def __init__(self, loader, chain):
    self.loader, self.chain = loader, chain
    self.batches = []

  def __getitem__(self, i):
    while len(self.batches) <= i:
      assert kernel.CURRENT is None
      data, mask = self.loader.get_batches(self.chain)
      data = {k: np.asarray(v) for k, v in data.items()}
      for line in range(len(np.asarray(mask))):
        self.batches.append(({k: v[line] for k, v in data.items()},
                             np.asarray(mask)[line]))
    return self.batches[i]


def local(tree, device=None):
  """The tree as ready, uncommitted arrays on this task's device.

  A program whose arguments still have to be transferred would start later, on
  a thread of XLA's own."""
  import contextlib
  jax = jx()
  with (jax.default_device(device) if device is not None else contextlib.nullcontext()):
    return jax.block_until_ready(jax.tree_util.tree_map(
      lambda x: jax.numpy.array(np.asarray(x)) if hasattr(x, "shape") else x, tree))


def same_tree(a, b):
  jax = jx()
  la, ta = jax.tree_util.tree_flatten(a)
  lb, tb = jax.tree_util.tree_flatten(b)
  if ta != tb:
    return False
  return all(np.asarray(x).shape == np.asarray(y).shape
             and np.array_equal(np.asarray(x), np.asarray(y), equal_nan=False)
             for x, y in zip(la, lb))


def is_injected(exc):
  """Is this the failure the simulator injected?"""
  text = str(exc)
  return any(m in text for m in ("Input/output error", "No space left",
                                 "Permission denied", "Too many open files",
                                 "Cannot allocate memory", "Damaged record"))


def np_loader(n, kind=0, offset=0, **kw):
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  return NumpyDataLoader(**dataset(n, kind, offset), **kw)


def settle(out=None):
  """Waits for a program that ran outside of a simulation, callbacks included."""
  jax = jx()
  jax.block_until_ready(out)
  jax.effects_barrier()
  from jax.experimental import host_callback as hcb
  hcb.barrier_wait()
