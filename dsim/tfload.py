"""Chains on a TensorFlow data set.

The pipelines of tensorflow.data are real; their randomness is fixed by
tf.random.set_seed, reading is a callback and thereby a scheduling point.  Every chain
must see the stream it sees alone, whole observations only, without the excluded
fields, and no observation can come more often than the repeated data set and the
shuffle buffer allow.
"""
import json
from collections import Counter

import numpy as np

from dsim import lib
from dsim.core import require, rig
from dsim.lib import jx

_TF = []


def tf():
  if not _TF:
    import tensorflow
    tensorflow.config.set_visible_devices([], "GPU")
    tensorflow.config.threading.set_inter_op_parallelism_threads(1)
    tensorflow.config.threading.set_intra_op_parallelism_threads(1)
    _TF.append(tensorflow)
  return _TF[0]


def gen(rng, compiled):
  g = rng.group
  pal = [{"n": g.choice([1, 2, 5, 8, 13, 30]), "fields": g.randrange(4), "mb": g.choice([1, 2, 3, 7]),
          "cache": g.choice([1, 2, 5]), "buffer": g.choice([1, 3, 10, 100]),
          "names": g.random() < 0.5, "info": g.random() < 0.5} for _ in range(3)]
  p = dict(rng.choice(pal))
  if compiled:
    p["mb"] = min(p["mb"], p["n"])
  chains = [{"draws": rng.randint(1, 10), "late": c > 0 and rng.random() < 0.2}
            for c in range(rng.choice([1, 2, 2, 3, 4]))]
  faults = [{"site": "loader:%d" % rng.randrange(3), "n": rng.randint(1, 6),
             "kind": rng.choice(["EIO", "slow"])} for _ in range(rng.choice([0, 0, 1, 2]))]
  return {"tf": p, "tasks": chains, "faults": faults, "compiled": compiled, "seed": rng.getrandbits(20),
          "sched": lib.sched(rng, targets=["c0", "c1"], line=0.2)}


def new_loader(p, seed):
  from jax_sgmc.data.tensorflow_loader import TensorflowDataLoader
  tf().random.set_seed(seed)
  data = lib.dataset(p["n"], p["fields"], 500)
  kw = {"exclude_keys": None}
  if p["names"]:                           # strings must be excluded
    data["name"] = np.array(["observation %d" % i for i in range(p["n"])])
    data["hidden"] = np.full(p["n"], -1.0)
    kw["exclude_keys"] = ["name", "hidden"]
  return TensorflowDataLoader(tf().data.Dataset.from_tensor_slices(data), shuffle_cache=p["buffer"], **kw)


def program(p):
  def build():
    from jax_sgmc import data
    jax = jx()
    loader = lib.proxy_class()(new_loader(p, 0))
    init, get, _ = data.random_reference_data(loader, p["cache"], p["mb"])
    return {"loader": loader, "init": init, "warm": set(),
            "one": jax.jit(lambda s: get(s, information=p["info"]))}
  return rig(("tf", json.dumps(p, sort_keys=True)), build)


def run(plan, ctx):
  jax = jx()
  devs = jax.devices()
  p, chains = plan["tf"], plan["tasks"]
  order = [c for c in range(len(chains)) if not chains[c]["late"]] + \
          [c for c in range(len(chains)) if chains[c]["late"]]
  draws = [ch["draws"] if plan["compiled"] else -(-ch["draws"] // p["cache"]) for ch in chains]
  # alone: the same chains on a loader nobody else uses, one after another
  alone = new_loader(p, plan["seed"])
  ids = {c: alone.register_random_pipeline(p["cache"], mb_size=p["mb"]) for c in order}
  blocks = {c: [alone.get_batches(ids[c]) for _ in range(draws[c])] for c in order}
  loader = None
  if plan["compiled"]:
    prog = program(p)
    loader = prog["loader"]
    for c in range(len(chains)):
      if c not in prog["warm"]:
        prog["warm"].add(c)
        loader.bind(new_loader(p, 0))
        with jax.default_device(devs[c]):
          s = lib.local(prog["init"]())
          for _ in range(p["cache"] + 1):
            s, _ = jax.block_until_ready(prog["one"](s))
          lib.settle(s)
  target = new_loader(p, plan["seed"])
  require(int(target.static_information["observation_count"]) == p["n"], "observation-count", "%s instead of %d",
          target.static_information, p["n"])
  loader = loader or lib.proxy_class()(target)
  loader.bind(target)
  states, turn = {}, [sum(not ch["late"] for ch in chains)]

  def start(c):
    if plan["compiled"]:
      states[c] = prog["init"]()
    else:
      states[c] = loader.register_random_pipeline(p["cache"], mb_size=p["mb"])
  for c in order:
    if not chains[c]["late"]:
      start(c)
  got = {c: [] for c in order}

  def body(c):
    def go():
      s = ctx.sims[-1]
      if chains[c]["late"]:
        s.block(lambda: order[turn[0]] == c, "registration")
        try:
          start(c)
        finally:
          turn[0] += 1
      if plan["compiled"]:
        states[c] = lib.local(states[c])
      for _ in range(draws[c]):
        for attempt in range(6):
          s.point("draw")
          try:
            if plan["compiled"]:
              new, out = jax.block_until_ready(prog["one"](states[c]))
              states[c] = new
              if p["info"]:
                out, info = out
                require(int(info.observation_count) == p["n"] and int(info.batch_size) == p["mb"]
                        and np.asarray(info.mask).all(), "information", "chain %d: %s", c, info)
            else:
              out, mask = loader.get_batches(states[c])
              require(mask is None or np.asarray(mask).all(), "mask", "chain %d: %s", c, mask)
            got[c].append({k: np.asarray(v) for k, v in out.items()})
            break
          except Exception as e:
            if not lib.is_injected(e) or attempt == 5:
              raise
    return go
  # late chains that cannot register because of a fault are not part of this workload
  faults = [f for f in plan["faults"] if not any(ch["late"] for ch in chains)]
  sim = ctx.simulate([("c%d" % c, body(c)) for c in range(len(chains))], faults=faults)
  del sim
  for c in order:
    what = "chain %d (%s)" % (c, json.dumps(p, sort_keys=True))
    ref = [{k: np.asarray(v) for k, v in b[0].items()} for b in blocks[c]]
    if plan["compiled"]:
      ref = [{k: v[j] for k, v in b.items()} for b in ref for j in range(p["cache"])]
    count = Counter()
    n = 0
    for j, (a, b) in enumerate(zip(got[c], ref)):
      who = "%s, draw %d" % (what, j)
      fields = lib.dataset(1, p["fields"])
      require(sorted(a) == sorted(fields), "fields", "%s: fields %s", who, sorted(a))
      ids = lib.ids_of(a, p["fields"], 500, who).reshape(-1)
      shape = (p["mb"],) if plan["compiled"] else (p["cache"], p["mb"])
      require(a["x"].shape == shape and lib.same_type(a["x"].dtype, fields["x"].dtype), "shape", "%s: shape %s, type %s",
              who, a["x"].shape, a["x"].dtype)
      require(ids.max(initial=0) < p["n"], "foreign-data", "%s: observations %s", who, ids.tolist())
      require(all(np.array_equal(a[k], b[k]) for k in fields), "disturbed", "%s: %s, alone it is %s", who,
              a["x"].tolist(), b["x"].tolist())
      count.update(ids.tolist())
      n += len(ids)
      most = -(-(n + min(p["buffer"], n + p["buffer"])) // p["n"])
      require(not count or max(count.values()) <= most, "with-replacement", "%s: after %d observations one came "
              "%d times, the repeated data set and its shuffle buffer hold it %d times", who, n,
              max(count.values(), default=0), most)
    require(len(got[c]) == draws[c], "draws", "%s: %d of %d", what, len(got[c]), draws[c])
    ctx.note("tf_draws", len(got[c]))
  ctx.nontrivial = len(chains) > 1 or bool(plan["faults"])
