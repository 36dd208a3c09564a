"""Loaders under test and the sampling contracts of their streams (C03, C05)."""
import copy
import math
import os

import numpy as np

from dsim import lib
from dsim.core import Violation, require


class Source:
  """A data set that can be opened as a loader again and again."""

  def __init__(self, kind, n, fields, offset, ctx):
    self.kind, self.n, self.fields, self.offset = kind, n, fields, offset
    self.path = None
    if kind == "hdf5":
      import h5py
      self.path = os.path.join(ctx.scratch(), "data.h5")
      with h5py.File(self.path, "w") as f:
        for name, v in lib.dataset(n, fields, offset).items():
          f[self.subdir() + name] = v
    self._open = []

  def subdir(self):
    return ["/chain~0/variables/", "/", "/raw data/set/", "/chain~0/variables/"][self.n % 4]

  def arrays(self):
    return {k: np.array(v) for k, v in lib.dataset(self.n, self.fields, self.offset).items()}

  def loader(self, arrays=None, copy=True):
    if self.kind == "hdf5":
      from jax_sgmc.data.hdf5_loader import HDF5Loader
      one = {k: v[0] for k, v in lib.dataset(max(self.n, 1), self.fields).items()}
      if self.n % 4 == 0:
        l = HDF5Loader(self.path, sample=one)
      elif self.n % 3 == 0:
        import h5py
        l = HDF5Loader(h5py.File(self.path, "r"), self.subdir(), one)
      else:
        l = HDF5Loader(self.path, subdir=self.subdir(), sample=one)
      self._open.append(l)
      return l
    from jax_sgmc.data.numpy_loader import NumpyDataLoader
    return NumpyDataLoader(copy=copy, **(self.arrays() if arrays is None else arrays))

  def close(self):
    for l in self._open:
      l.close()
    self._open = []


def keep(out):
  """A copy of an answer, as the caller may do anything to what it received."""
  return copy.deepcopy(out)


def scribble(out):
  """Overwrites every array in `out` that permits it."""
  if isinstance(out, np.ndarray):
    if out.flags.writeable:
      out[...] = 0 if out.dtype == bool else 1
  elif isinstance(out, dict):
    for v in out.values():
      scribble(v)
  elif isinstance(out, (list, tuple)):
    for v in out:
      scribble(v)


def register(loader, ch):
  if ch["mode"] == "ordered":
    return loader.register_ordered_pipeline(ch["cache"], mb_size=ch["mb"])
  kw = {}
  if ch["mode"] != "draw":
    kw["shuffle"] = True
  if ch["mode"] == "epoch":
    kw["in_epochs"] = True
  if ch["seed"] is not None:
    kw["seed"] = ch["seed"]
  return loader.register_random_pipeline(ch["cache"], mb_size=ch["mb"], **kw)


def lines(src, ch, out, what):
  """[(ids, mask)] of one answer of the loader, with all format checks."""
  data, mask = out
  mask = np.asarray(mask) if mask is not None else np.ones((ch["cache"], ch["mb"]), bool)
  require(mask.shape == (ch["cache"], ch["mb"]), "shape", "%s: mask of shape %s", what, mask.shape)
  want = lib.dataset(src.n, src.fields, src.offset)
  require(set(data) == set(want), "fields", "%s: fields %s", what, sorted(data))
  for k, v in data.items():
    require(lib.same_type(np.asarray(v).dtype, want[k].dtype), "dtype", "%s: field %s has type %s",
            what, k, np.asarray(v).dtype)
    require(np.asarray(v).shape == (ch["cache"], ch["mb"]) + want[k].shape[1:], "shape",
            "%s: field %s has shape %s", what, k, np.asarray(v).shape)
  res = []
  for l in range(ch["cache"]):
    ids = lib.ids_of({k: np.asarray(v)[l] for k, v in data.items()}, src.fields, src.offset, what)
    require(ids.size == 0 or ids.max() < src.n, "foreign-data", "%s: observation %s of %d",
            what, ids.max(), src.n)
    res.append((ids, np.array(mask[l])))
  return res


def chi2_ok(counts):
  """Rejects uniformity only beyond about six sigma."""
  counts = np.asarray(counts, float)
  k = len(counts)
  if k < 2:
    return True
  e = counts.sum() / k
  x = ((counts - e) ** 2 / e).sum()
  d = k - 1
  z = ((x / d) ** (1 / 3) - (1 - 2 / (9 * d))) / math.sqrt(2 / (9 * d))
  return z < 6.5


def contract(src, ch, stream, what):
  """The documented contract of the chain's mode for a stream [(ids, mask)]."""
  n, mb, mode = src.n, ch["mb"], ch["mode"]
  if not stream:
    return
  ids = np.concatenate([i for i, _ in stream])
  mask = np.concatenate([m for _, m in stream])
  if mode in ("draw", "shuffle"):
    require(mask.all(), "mask", "%s: %s marks entries as invalid", what, mode)
  if mode == "draw":
    if len(ids) >= 40 * n:
      require(chi2_ok(np.bincount(ids, minlength=n)), "uniform",
              "%s: counts of the observations %s", what, np.bincount(ids, minlength=n).tolist())
      if n > 1:      # the next observation does not depend on the previous one
        pair = np.zeros((n, n))
        np.add.at(pair, (ids[:-1:2][:len(ids) // 2], ids[1::2]), 1)
        if len(ids) // 2 >= 20 * n * n:
          require(chi2_ok(pair.ravel()), "independent", "%s: pair counts %s",
                  what, pair.astype(int).tolist())
    # with replacement: batches without any repetition cannot be the rule
    if mb > 1:
      p = math.prod(1 - j / n for j in range(mb))
      if p ** len(stream) < 1e-10:
        require(any(len(set(i.tolist())) < mb for i, _ in stream), "replacement",
                "%s: no batch of %d draws from %d observations repeats one", what, mb, n)
    if len(stream) > 1 and n > 1 and n ** (-mb * (len(stream) // 2)) < 1e-10:
      half = len(stream) // 2
      a = np.concatenate([i for i, _ in stream[:half]])
      b = np.concatenate([i for i, _ in stream[half:2 * half]])
      require(not np.array_equal(a, b), "repeats", "%s: the stream repeats itself", what)
  elif mode == "shuffle":
    full = len(ids) // n
    for e in range(full):
      block = ids[e * n:(e + 1) * n]
      require(len(set(block.tolist())) == n, "once-per-shuffle",
              "%s: observations %s between two reshuffles (data set of %d)",
              what, block.tolist(), n)
    rest = ids[full * n:]
    require(len(set(rest.tolist())) == len(rest), "once-per-shuffle",
            "%s: observations %s repeat before the next reshuffle", what, rest.tolist())
    _random_order([ids[e * n:(e + 1) * n] for e in range(full)], n, what)
  elif mode == "epoch":
    per = -(-n // mb)
    epochs = []
    for e in range(0, len(stream), per):
      part = stream[e:e + per]
      i = np.concatenate([x for x, _ in part])
      m = np.concatenate([x for _, x in part])
      want = np.arange(len(i)) < n
      require(m.sum() == want.sum(), "epoch-mask", "%s: %d valid entries in batches %d..%d, "
              "not %d", what, m.sum(), e, e + len(part) - 1, want.sum())
      valid = i[m]
      require(len(set(valid.tolist())) == len(valid), "once-per-epoch",
              "%s: epoch %d returns %s", what, e // per, valid.tolist())
      if len(part) == per:
        require(len(valid) == n, "once-per-epoch", "%s: epoch %d is incomplete", what, e // per)
        epochs.append(valid)
    _random_order(epochs, n, what)
  else:
    per = -(-n // mb)
    for k, (i, m) in enumerate(stream):
      pos = (k % per) * mb + np.arange(mb)
      require(np.array_equal(i, pos % n), "order", "%s: batch %d is %s instead of %s",
              what, k, i.tolist(), (pos % n).tolist())
      require(np.array_equal(m, pos < n), "order-mask", "%s: batch %d has mask %s",
              what, k, m.tolist())


def _random_order(epochs, n, what):
  if n >= 14:
    for a, b in zip(epochs, epochs[1:]):
      require(not np.array_equal(a, b), "reshuffle", "%s: two epochs in the same order", what)
    for e in epochs:
      require(not np.array_equal(e, np.arange(n)), "reshuffle", "%s: not shuffled", what)
  if n > 1 and len(epochs) >= 30 * n:
    for j in (0, n - 1):
      c = np.bincount([int(e[j]) for e in epochs], minlength=n)
      require(chi2_ok(c), "uniform-order", "%s: entry %d of the epochs has counts %s",
              what, j, c.tolist())
