"""C01: each chain draws exactly its own loader stream.

Chains are tasks on their own device; the host callbacks that refill their
caches are scheduling points, so the simulator decides how the requests of the
chains interleave, which loader reads are slow and which fail.
"""
import numpy as np

from dsim import lib, tfload
from dsim.core import Violation, require, rig
from dsim.lib import jx

GROUP = 60
SCAN = 4


def palette(rng):
  """A run group shares few compiled programs."""
  out = []
  for _ in range(3):
    n = rng.choice([4, 7, 12, 20, 33, 300])
    mb = rng.choice([m for m in (1, 2, 3, 4, 5, 7) if m <= n])
    out.append({"n": n, "mb": mb, "cache": rng.choice([1, 2, 3, 5, 8, 30]),
                "kind": rng.randrange(4), "verify": rng.random() < 0.5,
                "info": rng.random() < 0.7})
  if rng.random() < 0.2:         # indices that need more than a byte
    out[0].update(n=300, mb=1, cache=rng.choice([130, 260]))
  return out


def gen(rng, tier, i):
  if i // GROUP % 12 == 6:
    return tfload.gen(rng, True)
  pal = palette(rng.group)
  direct = rng.random() < 0.06
  loaders = []
  for _ in range(rng.choice([1, 1, 2, 2, 3])):
    p = dict(rng.choice(pal))
    p["slot"] = len(loaders)
    loaders.append(p)
  chains = []
  big = rng.random() < 0.15
  for c in range(rng.choice([1, 2, 2, 3, 3, 4, 6])):
    l = rng.randrange(len(loaders))
    mode = rng.choice(["draw", "shuffle", "epoch"])
    ops = []
    for _ in range(rng.randint(1, 12 if not big else rng.choice([40, 40, 120]))):
      ops.append(rng.choice(["one", "one", "scan", "eager" if rng.random() < 0.3 else "one"]))
    if loaders[l]["cache"] > 100 and rng.random() < 0.5:
      ops = ["scan"] * (loaders[l]["cache"] // SCAN) + ops
    chains.append({"loader": l, "mode": mode, "ops": ops,
                   "seed": rng.choice([None, None, rng.randrange(4), rng.getrandbits(30)]),
                   "late": rng.random() < 0.15})
  faults = []
  if rng.random() < 0.4:
    c = rng.randrange(len(chains))
    for _ in range(rng.randint(1, 2)):
      faults.append({"site": "loader:%d:%d" % (chains[c]["loader"], c), "n": rng.randint(1, 6),
                     "kind": rng.choice(["EIO", "DATA", "ENOMEM", "slow"])})
  if rng.random() < 0.3:
    faults.append({"site": "io_callback", "n": rng.randint(0, 6), "kind": "slow"})
  # accesses to the same loader that end while the others go on
  guests = []
  if rng.random() < 0.12:
    for _ in range(rng.choice([1, 1, 2])):
      l = rng.randrange(len(loaders))
      if not any(c["late"] and c["loader"] == l for c in chains):
        guests.append({"loader": l, "mb": rng.choice([1, 2, 3]), "cache": rng.choice([1, 2, 3]),
                       "mode": rng.choice(["draw", "shuffle", "epoch"]), "late": False,
                       "seed": rng.choice([None, rng.randrange(4)]), "draws": rng.randint(0, 5)})
  return {"loaders": loaders, "tasks": chains, "faults": faults, "direct": direct,
          "guests": guests,
          "drop_mask": rng.random() < 0.1,
          "sched": lib.sched(rng, targets=["c0", "c1", "c2"])}


def _programs(p, slot, direct=None):
  """Compiled draws for a loader configuration."""
  from jax_sgmc import data
  jax = jx()
  def build():
    loader = direct
    if loader is None:
      like = lib.np_loader(p["n"], p["kind"])
      loader = lib.proxy_class()(like)
    init, get, release = data.random_reference_data(
      loader, p["cache"], p["mb"], verify_calls=p["verify"])
    one = jax.jit(lambda s: get(s, information=True))
    bare = jax.jit(lambda s: get(s))
    def scan(s):
      return jax.lax.scan(lambda s, _: get(s, information=p["info"]), s, None, length=SCAN)
    return {"loader": loader, "init": init, "one": one if p["info"] else bare,
            "scan": jax.jit(scan), "eager": lambda s: get(s, information=p["info"]),
            "release": release, "warm": set()}
  if direct is not None:
    return build()
  return rig(("c01", slot) + tuple(sorted((k, v) for k, v in p.items() if k != "slot")), build)


def run(plan, ctx):
  if "tf" in plan:
    return tfload.run(plan, ctx)
  from jax_sgmc import data
  jax = jx()
  progs, targets = [], []
  for k, p in enumerate(plan["loaders"]):
    offset = 1000 * k                      # observations name their loader
    target = lib.np_loader(p["n"], p["kind"], offset)
    if plan["direct"]:
      prog = _programs(p, k, direct=target)
    else:
      prog = _programs(p, k)
      prog["loader"].bind(target, plan["drop_mask"])
    progs.append(prog)
    targets.append(target)

  # what every chain must see: registered in the same order on a fresh loader
  # with the same data, read one batch at a time by nobody else
  chains = plan["tasks"]
  order = [c for c in range(len(chains)) if not chains[c]["late"]] + \
          [c for c in range(len(chains)) if chains[c]["late"]]
  refs = {}
  for k, p in enumerate(plan["loaders"]):
    fresh = lib.np_loader(p["n"], p["kind"], 1000 * k)
    for c in order:
      if chains[c]["loader"] == k:
        kw = _kwargs(chains[c])
        refs[c] = lib.RefStream(fresh, fresh.register_random_pipeline(1, mb_size=p["mb"], **kw))
    guests = []
  for g in plan.get("guests", []):
    k, p = g["loader"], plan["loaders"][g["loader"]]
    fresh = next((refs[c].loader for c in refs if chains[c]["loader"] == k), None)
    if fresh is None:
      fresh = next((x["ref"].loader for x in guests if x["plan"]["loader"] == k), None)
    if fresh is None:
      fresh = lib.np_loader(p["n"], p["kind"], 1000 * k)
    guests.append({"plan": g, "ref": lib.RefStream(
      fresh, fresh.register_random_pipeline(1, mb_size=g["mb"], **_kwargs(g)))})
  # register first, then read: the streams are independent of each other
  states = {}
  got = {c: [] for c in range(len(chains))}
  tid = {}

  def start(c):
    ch = chains[c]
    prog = progs[ch["loader"]]
    states[c] = prog["init"](**_kwargs(ch))
    tid[c] = int(states[c].chain_id)

  for c in order:
    if not chains[c]["late"]:
      start(c)
  for g in guests:
    g["init"], g["get"], g["release"] = data.random_reference_data(
      progs[g["plan"]["loader"]]["loader"], g["plan"]["cache"], g["plan"]["mb"])
    g["state"] = g["init"](**_kwargs(g["plan"]))
    g["got"] = []
  # rename the fault sites to the chain numbers of the loader
  count = {}
  site = {}
  for c in order:
    l = chains[c]["loader"]
    site["loader:%d:%d" % (l, c)] = "loader:%d" % count.get(l, 0)
    count[l] = count.get(l, 0) + 1
  faults = []
  for f in plan["faults"]:
    f = dict(f)
    if f["site"].startswith("loader:"):
      l, c = map(int, f["site"].split(":")[1:])
      if c >= len(chains) or f["site"] not in site:
        continue
      f["site"] = site[f["site"]]
    faults.append(f)
  # the sites of loaders with the same chain number coincide: keep one loader
  late = [c for c in order if chains[c]["late"]]
  registered = [0]
  failures = {c: 0 for c in range(len(chains))}

  def body(c):
    ch = chains[c]
    prog = progs[ch["loader"]]
    def go():
      s = ctx.sims[-1]
      if ch["late"]:
        # chains are registered one after another, while others already run
        s.block(lambda: late[registered[0]] == c, "registration")
        s.point("register")
        try:
          for attempt in range(4):
            try:
              start(c)
              break
            except Exception as e:
              if not lib.is_injected(e):
                raise
              failures[c] += 1
              raise
        finally:
          registered[0] += 1
      states[c] = lib.local(states[c])
      for op in ch["ops"]:
        if ch["late"] and op == "scan":
          op = "one"
        for attempt in range(4):
          try:
            new, out = prog[op](states[c])
            out = jax.tree_util.tree_map(np.asarray, out)
            break
          except Exception as e:   # an injected read error may be retried
            if not lib.is_injected(e) or attempt == 3:
              raise
            failures[c] += 1
            s.point("retry")
            if op == "scan":
              # the position reached inside the failed call is lost with it
              s.event("gave-up")
              got[c].append(None)
              return
        states[c] = new
        got[c].append((op, out))
        s.point("drawn")
    return go

  def guest(g):
    def go():
      s = ctx.sims[-1]
      state = lib.local(g["state"])
      for _ in range(g["plan"]["draws"]):
        state, out = g["get"](state, information=True)
        g["got"].append(jax.tree_util.tree_map(np.asarray, out))
        s.point("drawn")
      g["release"]()
      s.point("released")
      # what is cached may still be used, but nothing new is read
      g["after"] = "data"
      for _ in range(g["plan"]["cache"] + 1):
        try:
          state, out = g["get"](state, information=True)
          g["got"].append(jax.tree_util.tree_map(np.asarray, out))
        except Exception as e:
          g["after"] = "error"
          s.event("refused")
          break
    return go

  # compile outside of the simulation, on the devices the tasks use
  if not plan["direct"]:
    _warm(progs, plan, chains)
  expect = ["c%d" % c for c in range(len(chains)) if chains[c]["late"]] if faults else []
  sim = ctx.simulate([("c%d" % c, body(c)) for c in range(len(chains))] +
                     [("guest%d" % k, guest(g)) for k, g in enumerate(guests)],
                     faults=faults, expect=expect)
  for t in sim.tasks:
    if t.exc is not None and not lib.is_injected(t.exc):
      raise t.exc

  draws = 0
  for c, ch in enumerate(chains):
    p = plan["loaders"][ch["loader"]]
    pos = 0
    for item in got[c]:
      if item is None:
        break
      op, out = item
      lines = SCAN if op == "scan" else 1
      for line in range(lines):
        o = out if lines == 1 else jax.tree_util.tree_map(lambda x: x[line], out)
        batch, info = o if p["info"] else (o, None)
        want, mask = refs[c][pos]
        require(set(batch) == set(want), "fields", "chain %d draw %d: fields %s",
                c, pos, sorted(batch))
        if not all(np.array_equal(batch[k], want[k]) for k in want):
          raise Violation("stream", "chain %d draw %d: got observations %s, its stream has %s"
                          % (c, pos, np.asarray(batch["x"]).tolist(),
                             np.asarray(want["x"]).tolist()))
        if info is not None:
          wm = np.ones(p["mb"], bool) if plan["drop_mask"] and not plan["direct"] else mask
          require(np.array_equal(np.asarray(info.mask), wm), "mask",
                  "chain %d draw %d: mask %s instead of %s", c, pos,
                  np.asarray(info.mask).tolist(), wm.tolist())
          require(int(info.observation_count) == p["n"], "information",
                  "observation count %s", info.observation_count)
          require(int(info.batch_size) == p["mb"], "information",
                  "batch size %s", info.batch_size)
        pos += 1
    draws += pos
  for k, g in enumerate(guests):
    for pos, (batch, info) in enumerate(g["got"]):
      want, mask = g["ref"][pos]
      require(all(np.array_equal(batch[x], want[x]) for x in want)
              and (plan["drop_mask"] or np.array_equal(np.asarray(info.mask), mask)), "stream", "access %d, draw %d: "
              "got observations %s, its stream has %s", k, pos, np.asarray(batch["x"]).tolist(),
              np.asarray(want["x"]).tolist())
    ctx.note("released" if g["after"] == "error" else "readable_after_release")
  ctx.note("draws", draws)
  ctx.note("failed_requests", sum(failures.values()))
  ctx.nontrivial = draws > 0 and (len(chains) > 1 or sim.fired)
  if plan["direct"]:
    for prog in progs:
      prog["release"]()


def _kwargs(ch):
  kw = {"shuffle": ch["mode"] != "draw", "in_epochs": ch["mode"] == "epoch"}
  if ch["seed"] is not None:
    kw["seed"] = ch["seed"]
  return kw


def _warm(progs, plan, chains):
  jax = jx()
  devs = jax.devices()
  for c, ch in enumerate(chains):
    prog = progs[ch["loader"]]
    need = {op for op in ch["ops"] if op != "eager"}
    if ch["late"]:
      need = {"one"} if need else set()
    d = c % len(devs)
    for op in sorted(need):
      if (op, d) in prog["warm"]:
        continue
      prog["warm"].add((op, d))
      loader = prog["loader"]
      keep = (loader.target, dict(loader._targets), list(loader.calls))
      from jax_sgmc import data
      p = plan["loaders"][ch["loader"]]
      loader.target = lib.np_loader(p["n"], p["kind"])
      with jax.default_device(devs[d]):
        s = lib.local(prog["init"]())
        for _ in range(p["cache"] + 1):      # includes a request to the host
          s, _ = prog[op](s)
      loader.target, loader._targets, loader.calls = keep
