"""C10: every entry of a sample is found again under its own name."""
import collections
import os

import numpy as np

from dsim import lib, seams
from dsim.core import require
from dsim.lib import jx

GROUP = 60
KEYS = ["variables", "b", "a", "B", "w2", "w10", "z", "list_element_0", "list_element_10", "x y", "ä",
        "mlp/~/lin_0", "mlp/~/lin_1", "0", "10", "9", "key.dot", "file"]
DTYPES = ["float32", "int32", "float16", "uint8", "bool", "int16"]
NTS = {f: collections.namedtuple("Nt_" + "_".join(f), f)
       for f in [("zeta", "alpha"), ("b", "a", "c"), ("only",), ("q", "list_element_0")]}


class Custom:
  """A registered node without a rule for its translation."""
  def __init__(self, *parts):
    self.parts = parts

_registered = []

def register_custom():
  if not _registered:
    jx().tree_util.register_pytree_node(
      Custom, lambda c: (c.parts, None), lambda _, parts: Custom(*parts))
    _registered.append(1)


def gen_tree(rng, depth=0):
  r = rng.random()
  if depth == 0 and r < 0.03:
    return ["leaf", rng.choice(DTYPES), rng.choice([[], [3], [2, 1, 3]])]
  if depth >= 4 or (depth and r < 0.35):
    shape = rng.choice([[], [], [2], [3], [1, 2], [2, 1, 3]])
    return ["leaf", rng.choice(DTYPES), shape]
  if r < 0.40 and depth:
    return ["empty", rng.choice(["none", "dict", "list", "tuple"])]
  sub = lambda: gen_tree(rng, depth + 1)
  if r < 0.68:
    keys = rng.sample(KEYS, rng.randint(1, 5))
    return ["dict", [[k, sub()] for k in keys]]
  if r < 0.80:
    n = rng.choice([1, 2, 3, 11, 12]) if depth < 2 else rng.randint(1, 3)
    return [rng.choice(["list", "tuple"]),
            [sub() for _ in range(n)] if n < 5 else
            [["leaf", rng.choice(DTYPES), []] for _ in range(n)]]
  if r < 0.94:
    f = rng.choice(sorted(NTS))
    return ["nt", list(f), [sub() for _ in f]]
  return ["custom", [["leaf", "float32", [2]], ["leaf", "int32", []]]]


def build(spec, leaf):
  """The tree; leaf(k, dtype, shape) gives leaf number k in order of the spec."""
  count = [0]
  def walk(s):
    if s[0] == "leaf":
      count[0] += 1
      return leaf(count[0] - 1, s[1], tuple(s[2]))
    if s[0] == "empty":
      return {"none": None, "dict": {}, "list": [], "tuple": ()}[s[1]]
    if s[0] == "dict":
      return {k: walk(v) for k, v in s[1]}
    if s[0] == "list":
      return [walk(v) for v in s[1]]
    if s[0] == "tuple":
      return tuple(walk(v) for v in s[1])
    if s[0] == "nt":
      return NTS[tuple(s[1])](*[walk(v) for v in s[2]])
    if s[0] == "custom":
      return Custom(*[walk(v) for v in s[1]])
    raise ValueError(s[0])
  return walk(spec), count[0]


def value(chain, it):
  def leaf(k, dtype, shape):
    base = np.arange(int(np.prod(shape))).reshape(shape) + 7 * k + 31 * it + 101 * chain
    if dtype == "bool":
      return np.asarray((base * 2654435761 >> 7) % 2 == 1)
    if dtype == "uint8":
      base = base % 251
    return np.asarray(base, dtype=dtype)
  return leaf


def named(tree):
  """{path: leaf} by the position of the leaf in the tree."""
  out = {}
  def walk(node, path):
    if isinstance(node, dict):
      for k, v in node.items():
        walk(v, path + (k,))
    elif hasattr(node, "_fields"):
      for k, v in zip(node._fields, node):
        walk(v, path + (k,))
    elif isinstance(node, (list, tuple)):
      for k, v in enumerate(node):
        walk(v, path + ("list_element_%d" % k,))
    elif isinstance(node, Custom):
      for k, v in enumerate(node.parts):
        walk(v, path + ("unknown~pytree~leaf~%d" % k,))
    elif node is not None:
      out[path] = node
  walk(tree, ())
  return out


def subtrees(tree):
  """[(path, node)] of all nodes with leaves, the root included."""
  out = []
  def walk(node, path):
    if node is None or not jx().tree_util.tree_leaves(node):
      return
    out.append((path, node))
    if isinstance(node, dict):
      for k, v in node.items():
        walk(v, path + (k,))
    elif hasattr(node, "_fields"):
      for k, v in zip(node._fields, node):
        walk(v, path + (k,))
    elif isinstance(node, (list, tuple)):
      for k, v in enumerate(node):
        walk(v, path + ("list_element_%d" % k,))
  walk(tree, ())
  return out


def at(tree, path):
  for k in path:
    if isinstance(tree, dict):
      tree = tree[k]
    elif hasattr(tree, "_fields"):
      tree = getattr(tree, k)
    else:
      tree = tree[int(k.rsplit("_", 1)[1])]
  return tree


def gen(rng, tier, i):
  chains = []
  shared = gen_tree(rng)
  for _ in range(rng.choice([1, 2, 3, 4])):
    chains.append({"tree": shared if rng.random() < 0.4 else gen_tree(rng),
                   "n": rng.choice([1, 3, 4]), "subs": rng.getrandbits(30)})
  sched = lib.sched(rng, targets=["chain0", "chain1"], line=0.5)
  sched["bufsize"] = rng.choice([16, 8192])
  faults = [{"site": rng.choice(["h5.write", "fs.write", "fs.open"]), "n": rng.randrange(12),
             "kind": rng.choice(["slow", "slow", "short"]), "frac": rng.random()}
            for _ in range(rng.choice([0, 0, 1, 2]))]
  for f in faults:
    if f["site"] != "fs.write":
      f["kind"] = "slow"
  return {"chains": chains, "npz": rng.random() < 0.35, "faults": faults, "sched": sched}


def run(plan, ctx):
  import random
  import h5py
  from jax_sgmc import io, scheduler
  from jax_sgmc.data.hdf5_loader import HDF5Loader
  jax = jx()
  register_custom()
  trees = []
  for c, ch in enumerate(plan["chains"]):
    rows = []
    for it in range(ch["n"]):
      tree, leaves = build(ch["tree"], value(c, it))
      rows.append(tree)
    trees.append(rows if leaves else None)
  trees_ids = [c for c, t in enumerate(trees) if t is not None]
  if not trees_ids:
    ctx.nontrivial = False
    return

  for c in trees_ids:
    _dictionaries(io, trees[c][0], "tree of chain %d" % c)

  scratch = ctx.scratch()
  path = os.path.join(scratch, "out.h5")
  out = os.path.join(scratch, "npz")
  file = None
  if plan["npz"]:
    collector = io.MemoryCollector(out)
  else:
    file = h5py.File(path, "w")
    collector = io.HDF5Collector(file)
  ids = {c: collector.register_chain(
    init_sample=trees[c][0], init_checkpoint={},
    static_information=scheduler.static_information(samples_collected=len(trees[c])))
    for c in trees_ids}
  returned = {}

  def body(c):
    def go():
      for tree in trees[c]:
        ctx.sims[-1].point("sample")
        collector.save(ids[c], jax.tree_util.tree_leaves(tree))
      collector.finalize(ids[c])
      returned[c] = collector.finished(ids[c])
    return go
  ctx.simulate([("chain%d" % c, body(c)) for c in trees_ids])

  for c in trees_ids:
    stacked = {p: np.stack([named(t)[p] for t in trees[c]]) for p in named(trees[c][0])}
    if plan["npz"]:
      with np.load(os.path.join(out, "chain_%d.npz" % ids[c])) as f:
        found = {k: f[k] for k in f.files}
      require(sorted(found) == sorted("/".join(p) for p in stacked), "names",
              "chain %d: the file contains %s instead of %s", c, sorted(found),
              sorted("/".join(p) for p in stacked))
      for p, v in stacked.items():
        _equal(found["/".join(p)], v, "chain %d, npz entry %s" % (c, "/".join(p)))
      got = named(returned[c])
      require(sorted(got) == sorted(stacked), "names", "chain %d: returned entries %s", c, sorted(got))
      for p, v in stacked.items():
        _equal(np.asarray(got[p]), v, "chain %d, returned entry %s" % (c, "/".join(p)))
  if plan["npz"]:
    return
  file.close()
  with h5py.File(path, "r") as f:
    for c in trees_ids:
      for p in named(trees[c][0]):
        name = "/".join(("/chain~%d" % ids[c],) + p)
        require(name in f, "names", "chain %d: no data set %s", c, name)
        _equal(np.asarray(f[name][()]), np.stack([named(t)[p] for t in trees[c]]),
               "chain %d, data set %s" % (c, name))
  # loaded again, as a whole and in parts
  for c in trees_ids:
    rng = random.Random(plan["chains"][c]["subs"])
    nodes = subtrees(trees[c][0])
    picks = [nodes[0]] + rng.sample(nodes, min(2, len(nodes)))
    for p, node in picks:
      part, cut = node, None
      if isinstance(node, dict) and rng.random() < 0.5:
        # only some entries of a dictionary
        keys = [k for k in node if jax.tree_util.tree_leaves(node[k])]
        cut = rng.sample(keys, rng.randint(1, len(keys)))
        part = {k: node[k] for k in cut}
      what = "chain %d, loading %s%s" % (c, "/".join(p) or "everything", cut or "")
      loader = HDF5Loader(path, subdir="/".join(("/chain~%d" % ids[c],) + p), sample=part)
      n = len(trees[c])
      mb = min(n, rng.choice([1, 2, 4]))
      chain = loader.register_ordered_pipeline(1, mb_size=mb)
      for start in range(0, n, mb):
        batch, mask = loader.get_batches(chain)
        require(jax.tree_util.tree_structure(batch) == jax.tree_util.tree_structure(part),
                "structure", "%s: structure %s", what, jax.tree_util.tree_structure(batch))
        for k in range(mb):
          it = (start + k) % n
          want = at(trees[c][it], p)
          if cut:
            want = {k2: want[k2] for k2 in cut}
          require(bool(mask[0, k]) == (start + k < n), "mask", "%s: mask %s", what, mask)
          row = jax.tree_util.tree_map(lambda x: np.asarray(x)[0, k], batch)
          got, ref = named(row), named(want)
          require(sorted(got) == sorted(ref), "names", "%s: entries %s instead of %s", what,
                  sorted(got), sorted(ref))
          for q in ref:
            _equal(got[q], ref[q], "%s, sample %d, entry %s" % (what, it, "/".join(q)))
      loader.close()
      ctx.note("loaded")
  ctx.nontrivial = len(trees_ids) > 1 or max(len(named(trees[c][0])) for c in trees_ids) > 2


def _equal(got, want, what):
  got, want = np.asarray(got), np.asarray(want)
  require(got.shape == want.shape, "shape", "%s: shape %s instead of %s", what, got.shape, want.shape)
  require(got.dtype == want.dtype, "dtype", "%s: type %s instead of %s", what, got.dtype, want.dtype)
  require(np.array_equal(got, want), "entry", "%s: %s instead of %s", what, got.tolist(), want.tolist())


def _dictionaries(io, tree, what):
  jax = jx()
  d = io.pytree_to_dict(tree)
  ref = named(tree)
  keys = io.pytree_dict_keys(tree)
  leaves = jax.tree_util.tree_leaves(tree)
  require(sorted(keys) == sorted(ref), "names", "%s: keys %s instead of %s", what, sorted(keys), sorted(ref))
  for k, leaf in zip(keys, leaves):
    require(ref[k] is leaf, "names", "%s: the keys %s name another leaf", what, "/".join(k))
  def find(node, path):
    for k in path:
      node = node[k]
    return node
  for p, leaf in ref.items():
    require(find(d, p) is leaf, "dict", "%s: entry %s of the dictionary", what, "/".join(p))
  for p, node in subtrees(tree):
    back = io.dict_to_pytree(find(d, p), node)
    require(jax.tree_util.tree_structure(back) == jax.tree_util.tree_structure(node), "structure",
            "%s: %s restored as %s", what, "/".join(p), jax.tree_util.tree_structure(back))
    for a, b in zip(jax.tree_util.tree_leaves(back), jax.tree_util.tree_leaves(node)):
      require(a is b, "restored", "%s: %s restored with exchanged entries", what, "/".join(p))
