"""C15: integrators use every mini-batch and every random number exactly once.

The potential writes down what it is asked, inside the model state it returns: a
model state, batch or position that is dropped, repeated or swapped shows in that
log.  The noise is recovered from the visited positions by solving the documented
update for it; it must be zero where its scale is zero and look like fresh standard
normal numbers everywhere else.
"""
import json
import math

import numpy as np

from dsim import lib, wiring
from dsim import noise as noise_runs
from dsim.core import Violation, require, rig
from dsim.lib import jx

GROUP = 24
LEAVES = [("s", ()), ("v", (3,)), ("w", (3,))]       # in the order of the pytree
D = 7
STIFF = np.array([1.0, 0.5, 1.0, 2.0, 0.7, 1.0, 1.5])
COUPLE = np.array([2.0, 1.0, -1.0, 3.0, -2.0, 0.5, 1.0])
MAXCALLS = 6


# (kind, mass) of the two programs of consecutive groups of runs
TURNS = [("obabo", "both"), ("friction", "const"), ("langevin", None), ("reversible", "arg"),
         ("friction", None), ("obabo", "const"), ("langevin", "adapt"), ("reversible", "const"),
         ("friction", "const"), ("obabo", None), ("reversible", None), ("obabo", "arg"),
         ("reversible", "both"), ("friction", "const")]


def gen_prog(g, turn):
  kind, mass = TURNS[turn % len(TURNS)]
  p = {"kind": kind, "n": g.choice([5, 8, 13]), "mb": g.choice([1, 2, 3, 5]),
       "cache": g.choice([1, 2, 3, 7, 20]), "host": g.random() < 0.85,
       "steps": 1 if kind == "langevin" else g.choice([1, 2, 3, 5, 8]),
       "friction": g.choice([0.25, 1.0, 1e-3, 0.0, 2.0]),
       "mass": mass, "adapt": mass == "adapt"}
  if kind == "langevin":
    p["mass"] = None
    p["friction"] = None
  if kind == "friction" and g.random() < 0.3:
    p["friction"] = {"s": 0.5, "v": 0.1, "w": 1.5}
  return p


def gen(rng, tier, i):
  if i // GROUP % 6 == 4:
    return noise_runs.gen(rng, i)
  if i // GROUP % 6 == 2:
    return wiring.gen(rng, ("sgld", "rms", "sghmc", "noise", "obabo", "amagold", "sggmc"), i, GROUP, i // GROUP // 6)
  g = rng.group
  # of six groups of runs four are of this kind
  turn = i // GROUP // 6 * 4 + [0, 1, 1, 2, 2, 3][i // GROUP % 6]
  pal = [gen_prog(g, 2 * turn + j) for j in range(2)]
  tasks = []
  taus = rng.choice([[1.0], [1.0, 0.3], [0.0], [0.0, 1.0], [1e-4, 1e-3]])
  for _ in range(rng.choice([1, 2, 2, 3])):
    j = rng.randrange(len(pal))
    langevin = pal[j]["kind"] == "langevin"
    calls = []
    for _ in range(rng.randint(3, MAXCALLS)):
      calls.append({"eps": rng.choice([0.02, 0.1, 0.1, 0.3]), "tau": rng.choice(taus),
                    "repeat": rng.choice([4, 8]) if langevin else 1})
    tasks.append({"prog": j, "calls": calls, "key": rng.getrandbits(30),
                  "shuffle": rng.random() < 0.4, "seed": rng.randrange(50)})
  faults = []
  # a call that failed is repeated as a whole: only calls which read at most once
  single = all(evals_of(pal[t["prog"]]) <= pal[t["prog"]]["cache"] for t in tasks)
  if rng.random() < 0.4:
    for _ in range(rng.randint(1, 3)):
      faults.append({"site": "loader:%d" % rng.randrange(len(tasks)), "n": rng.randint(0, 12),
                     "kind": rng.choice(["slow", "EIO"] if single else ["slow"])})
  return {"pal": pal, "tasks": tasks, "faults": faults,
          "sched": lib.sched(rng, targets=["c0", "c1"], line=0.15)}


def evals_of(p):
  return {"langevin": 1, "friction": p["steps"], "reversible": p["steps"],
          "obabo": 2 * p["steps"]}[p["kind"]]


def capacity(p):
  return evals_of(p) * MAXCALLS * (8 if p["kind"] == "langevin" else 1) + 4


def tree(vec):
  return {"s": vec[0], "v": vec[1:4], "w": vec[4:7]}


def flat(t):
  return np.concatenate([np.asarray(t[k], np.float64).reshape(-1) for k, _ in LEAVES])


MASS = {"const": np.array([1.0, 0.5, 2.0, 4.0, 1.0, 0.7, 3.0], np.float32),
        "arg": np.array([2.0, 1.0, 0.5, 1.5, 3.0, 1.0, 0.8], np.float32)}


def blank_log(cap, mb, tag):
  jnp = jx().numpy
  return {"n": jnp.int32(0), "pos": jnp.zeros((cap, D)), "ids": jnp.zeros((cap, mb), jnp.int32),
          "tag": jnp.int32(tag), "obs": jnp.zeros((cap,), jnp.int32)}


def logging_potential(n_obs):
  """A potential that writes down what it is asked in its model state."""
  jax = jx()
  jnp = jax.numpy
  def potential(sample, batch, state=None, likelihoods=False):
    obs, info = batch
    x = obs["x"]
    th = jnp.concatenate([jnp.reshape(sample[k], (-1,)) for k, _ in LEAVES])
    z = x / n_obs - 0.5
    like = -(th @ jnp.asarray(COUPLE, jnp.float32)) * z
    u = 0.5 * jnp.sum(jnp.asarray(STIFF, jnp.float32) * th ** 2) + jnp.sum(jnp.cos(th)) \
        - jnp.mean(like)
    n = state["n"]
    new = {"n": n + 1, "pos": state["pos"].at[n].set(jax.lax.stop_gradient(th)),
           "ids": state["ids"].at[n].set(x), "tag": state["tag"],
           "obs": state["obs"].at[n].set(info.observation_count * 1000 + info.batch_size)}
    return (u, (like, new)) if likelihoods else (u, new)
  return potential


def program(p, slot):
  def build():
    from jax_sgmc import adaption, data, integrator, scheduler
    from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
    jax = jx()
    jnp = jax.numpy
    if p["host"]:
      loader = lib.proxy_class()(lib.np_loader(p["n"], 1))
    else:
      loader = DeviceNumpyDataLoader(**lib.dataset(p["n"], 1))
    batch_fn = data.random_reference_data(loader, p["cache"] if p["host"] else 1, p["mb"])

    potential = logging_potential(p["n"])
    kw = {} if p["kind"] == "langevin" else {"steps": p["steps"], "friction": p["friction"]}
    if p["mass"] in ("const", "both"):
      kw["const_mass"] = tree(MASS["const"])
    if p["adapt"]:
      kw["adaption"] = adaption.rms_prop()
    make = {"langevin": integrator.langevin_diffusion, "friction": integrator.friction_leapfrog,
            "reversible": integrator.reversible_leapfrog, "obabo": integrator.obabo}[p["kind"]]
    init, update, get = make(potential, batch_fn, **kw)
    mass = integrator.init_mass(tree(MASS["arg"])) if p["mass"] in ("arg", "both") else None
    def step(state, eps, tau):
      s = scheduler.schedule(eps, tau, jnp.array(1.0), jnp.array(True))
      state = update(state, s) if p["kind"] == "langevin" else update(state, s, mass=mass)
      return state
    cap = capacity(p)
    def start(key, seed, shuffle, tag):
      ms = blank_log(cap, p["mb"], tag)
      x0 = np.asarray(np.random.default_rng(key).normal(size=D), np.float32)
      bk = {"seed": seed, "shuffle": shuffle} if p["host"] else {}
      if not p["host"]:
        bk = {"seed": seed}
      ikw = {}
      if p["adapt"]:
        ikw["adaption_kwargs"] = {"alpha": 0.7, "lmbd": 0.1}
      return init(jax.tree_util.tree_map(jnp.asarray, tree(x0)), key=jax.random.PRNGKey(key),
                  batch_kwargs=bk, init_model_state=ms, **ikw)
    return {"loader": loader, "start": start, "step": jax.jit(step), "get": get, "batch": batch_fn,
            "warm": []}
  return rig(("c15", slot, json.dumps(p, sort_keys=True)), build)


def fields(state):
  """What a state shows, on the host."""
  jax = jx()
  out = {"pos": flat(getattr(state, "positions", None) if hasattr(state, "positions")
                     else state.latent_variables)}
  if hasattr(state, "momentum"):
    out["mom"] = flat(state.momentum)
  if hasattr(state, "kinetic_energy_start"):
    out["kin"] = [float(state.kinetic_energy_start), float(state.kinetic_energy_end)]
  if hasattr(state, "variance"):
    out["var"] = float(state.variance)
  out["pot"] = float(state.potential)
  out["ms"] = jax.tree_util.tree_map(np.asarray, state.model_state)
  return out


def run(plan, ctx):
  if plan.get("wiring"):
    return wiring.run(plan, ctx)
  if plan.get("free"):
    return noise_runs.run(plan, ctx)
  jax = jx()
  devs = jax.devices()
  tasks = plan["tasks"]
  progs, states = [], []
  refs = [None] * len(tasks)
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    with jax.default_device(devs[k]):
      prog = program(p, k)
      progs.append(prog)
      if p["host"]:
        prog["loader"].bind(lib.np_loader(p["n"], 1))
      if not prog["warm"]:
        prog["warm"].append(1)
        st = prog["start"](0, 0, False, -1)
        for _ in range(1 + (p["cache"] if p["host"] else 0) // evals_of(p)):   # refills, too
          st = prog["step"](st, np.float32(0.1), np.float32(1.0))
        lib.settle(st)
  # every program reads the same loader (one per configuration), so the chains share it
  shared = {}
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    if p["host"]:
      key = (p["n"],)
      if key not in shared:
        shared[key] = (lib.np_loader(p["n"], 1), lib.np_loader(p["n"], 1))
      target, fresh = shared[key]
      progs[k]["loader"].bind(target)
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    with jax.default_device(devs[k]):
      st = progs[k]["start"](t["key"], t["seed"], t["shuffle"], k)
    states.append(lib.local(st, devs[k]))
    if p["host"]:
      fresh = shared[(p["n"],)][1]
      refs[k] = lib.RefStream(fresh, fresh.register_random_pipeline(
        1, mb_size=p["mb"], seed=t["seed"], shuffle=t["shuffle"]))
    else:
      with jax.default_device(devs[k]):
        refs[k] = device_stream(progs[k], p, t)
  hist = [[fields(s)] for s in states]
  gets = [[] for _ in states]
  failed = [0] * len(tasks)

  def body(k):
    def go():
      st = states[k]
      for call in tasks[k]["calls"]:
        for _ in range(call["repeat"]):
          args = np.float32(call["eps"]), np.float32(call["tau"])
          for attempt in range(5):
            try:
              new = jax.block_until_ready(progs[k]["step"](st, *args))
              break
            except Exception as e:    # pylint: disable=broad-except
              if not lib.is_injected(e) or attempt == 4:
                raise
              failed[k] += 1
          if hasattr(new, "kinetic_energy_start"):
            hist[k].append(fields(new))
            new = new._replace(kinetic_energy_start=jax.numpy.zeros(()),
                               kinetic_energy_end=jax.numpy.zeros(()))
          else:
            hist[k].append(fields(new))
          gets[k].append(jax.tree_util.tree_map(np.asarray, progs[k]["get"](new)))
          st = new
    return go
  ctx.simulate([("c%d" % k, body(k)) for k in range(len(tasks))])

  noises = []
  for k, t in enumerate(tasks):
    p = plan["pal"][t["prog"]]
    what = "chain %d (%s)" % (k, json.dumps(p))
    noises.append(decide(p, t, hist[k], gets[k], refs[k], k, what))
    ctx.note("integrations", len(hist[k]) - 1)
    ctx.note("noise_numbers", noises[-1].size)
  for a in range(len(tasks)):
    for b in range(a):
      if tasks[a]["key"] != tasks[b]["key"]:
        m = min(len(noises[a]), len(noises[b]))
        same_noise(noises[a][:m], noises[b][:m], "the chains %d and %d" % (b, a))
  ctx.note("repeated_after_failure", sum(failed))
  ctx.nontrivial = len(tasks) > 1 or sum(len(h) for h in hist) > 4


def device_stream(prog, p, t):
  init, get, _ = prog["batch"]
  state = init(seed=t["seed"])
  out = []
  class Stream:
    def __getitem__(self, i):
      nonlocal state
      while len(out) <= i:
        state, (obs, info) = get(state, information=True)
        out.append(({"x": np.asarray(obs["x"])}, np.ones(p["mb"], bool)))
      return out[i]
  s = Stream()
  s[MAXCALLS * 8 * evals_of(p) if p["kind"] == "langevin" else MAXCALLS * evals_of(p)]
  return s


def energy(p, th, ids):
  z = ids / p["n"] - 0.5
  like = -(th @ COUPLE) * z
  return 0.5 * np.sum(STIFF * th ** 2) + np.sum(np.cos(th)) - like.mean(), like


def gradient(p, th, ids):
  return STIFF * th - np.sin(th) + COUPLE * np.mean(ids / p["n"] - 0.5)


def close(a, b, tol=2e-4):
  return np.all(np.abs(np.asarray(a) - b) <= tol * (1 + np.abs(b)))


def decide(p, t, hist, gets, ref, k, what):
  """Decides one chain; returns the recovered noise, one row per draw."""
  sched = [c for c in t["calls"] for _ in range(c["repeat"])]
  per = evals_of(p)
  ms = hist[-1]["ms"]
  require(int(ms["tag"]) == k, "model-state", "%s: has the model state of chain %d", what, ms["tag"])
  require(int(ms["n"]) == per * len(sched), "evaluations", "%s: %d evaluations recorded in the model "
          "state, %d gradients were needed", what, ms["n"], per * len(sched))
  for i in range(int(ms["n"])):
    want, mask = ref[i]
    require(np.array_equal(ms["ids"][i][mask], np.asarray(want["x"])[mask]), "batch",
            "%s: evaluation %d saw the batch %s, the stream has %s (all: %s)", what, i,
            ms["ids"][i].tolist(), want["x"].tolist(), ms["ids"][:i + 1].tolist())
    require(int(ms["obs"][i]) == p["n"] * 1000 + p["mb"], "information", "%s: %s", what, ms["obs"][i])
  if p["mass"] is None:
    mass = np.ones(D)
  else:
    mass = MASS["const" if p["mass"] == "const" else "arg"].astype(float)    # the argument wins
  sq = np.sqrt(mass)
  fr = p["friction"]
  if isinstance(fr, dict):
    fr = np.array([fr["s"]] + [fr["v"]] * 3 + [fr["w"]] * 3)
  noise = []
  v = np.ones(D)

  def draw(res, scale, size, note):
    """res = scale * noise; size: magnitude of what was subtracted."""
    scale = np.broadcast_to(np.asarray(scale, float), (D,))
    err = 1e-5 * (1 + np.abs(size))
    exact = scale <= 100 * err
    require(np.all(np.abs(res[exact]) <= 7 * scale[exact] + 30 * err[exact]), "update",
            "%s: %s is off by %s, the noise has scale %s", what, note, res.tolist(), scale.tolist())
    row = np.where(exact, np.nan, res / np.where(exact, 1.0, scale))
    big = np.abs(row[~exact]) > 6.8
    require(not big.any(), "noise", "%s: %s: the noise would be %s", what, note, row.tolist())
    noise.append(row)

  if p["kind"] == "reversible":
    # its first momentum follows the mass of the integrator
    m0 = np.sqrt(MASS["const"].astype(float)) if p["mass"] in ("const", "both") else np.ones(D)
    draw(hist[0]["mom"], m0, np.zeros(D), "the initial momentum")
  for c, call in enumerate(sched):
    eps, tau = float(np.float32(call["eps"])), float(np.float32(call["tau"]))
    a, b = hist[c], hist[c + 1]
    pos = ms["pos"][per * c:per * (c + 1)].astype(float)
    ids = ms["ids"][per * c:per * (c + 1)]
    g = [gradient(p, x, i) for x, i in zip(pos, ids)]
    note = "call %d (step size %s, temperature %s)" % (c, eps, tau)
    bad = not (np.isfinite(b["pos"]).all() and np.isfinite(b["pot"]))
    require(not bad, "finite", "%s %s: %s", what, note, b)
    got = gets[c]
    require(np.array_equal(flat(got["variables"]), b["pos"]), "get", "%s %s", what, note)
    require(int(got["model_state"]["n"]) == per * (c + 1), "model-state", "%s: model state after %s "
            "has %d evaluations", what, note, got["model_state"]["n"])
    if p["kind"] == "langevin":
      require(np.array_equal(pos[0], a["pos"]), "position", "%s %s: gradient taken at %s, not at %s",
              what, note, pos[0].tolist(), a["pos"].tolist())
      u, like = energy(p, pos[0], ids[0])
      require(close(b["pot"], u), "potential", "%s %s: %s, expected %s", what, note, b["pot"], u)
      require(close(got["likelihood"], -u), "potential", "%s %s: get", what, note)
      require(close(b["var"], like.var(), 1e-3), "variance", "%s %s: %s, expected %s", what, note,
              b["var"], like.var())
      G = np.ones(D)
      if p["adapt"]:
        v = 0.7 * v + 0.3 * g[0] ** 2
        G = 1 / (0.1 + np.sqrt(v))
      res = b["pos"] - a["pos"] + eps * G * g[0]
      draw(res, np.sqrt(2 * tau * eps * G), np.abs(a["pos"]), note)
    elif p["kind"] == "friction":
      x = np.concatenate([[a["pos"]], pos])
      mom = [mass * (x[s + 1] - x[s]) / eps for s in range(p["steps"])] + [b["mom"]]
      size = (1 + np.abs(x).max(0)) * mass / eps * 0.1
      draw(mom[0], sq, size, note + " momentum")
      for s in range(p["steps"]):
        res = mom[s + 1] - mom[s] + eps * fr * mom[s] / mass + eps * g[s]
        draw(res, np.sqrt(2 * eps * fr), size, note + " step %d" % s)
      require(np.array_equal(b["pos"], pos[-1]), "position", "%s %s: ends at %s", what, note, b["pos"])
      u, _ = energy(p, pos[-1], ids[-1])
      require(close(b["pot"], u), "potential", "%s %s: %s, expected %s", what, note, b["pot"], u)
    elif p["kind"] == "reversible":
      require(close(pos[0], a["pos"] + 0.5 * eps * a["mom"] / mass, 1e-5), "position",
              "%s %s: starts at %s", what, note, pos[0].tolist())
      mom = [a["mom"]] + [mass * (pos[s + 1] - pos[s]) / eps for s in range(p["steps"] - 1)] + [b["mom"]]
      size = (1 + np.abs(pos).max(0)) * mass / eps * 0.1
      e = 0.0
      for s in range(p["steps"]):
        res = mom[s + 1] * (1 + eps * fr) - (1 - eps * fr) * mom[s] + eps * g[s]
        draw(res, np.sqrt(4 * fr * eps) * sq, size, note + " step %d" % s)
        e += 0.5 * eps * np.sum((mom[s] + mom[s + 1]) * g[s] / mass)
      require(close(b["pos"], pos[-1] + 0.5 * eps * b["mom"] / mass, 1e-5), "position",
              "%s %s: ends at %s", what, note, b["pos"].tolist())
      require(close(b["pot"], e, 2e-3), "energy", "%s %s: accumulated %s, expected %s", what, note,
              b["pot"], e)
    else:
      keep = math.exp(-fr * eps)
      amp = math.sqrt((1 - keep) * tau)
      x = np.concatenate([pos[0::2], pos[-1:]])
      require(np.array_equal(pos[0], a["pos"]), "position", "%s %s: starts at %s", what, note,
              pos[0].tolist())
      require(all(np.array_equal(pos[i], pos[i + 1]) for i in range(1, len(pos) - 1, 2)), "position",
              "%s %s: %s", what, note, pos.tolist())
      require(np.array_equal(b["pos"], pos[-1]), "position", "%s %s: ends at %s", what, note, b["pos"])
      size = (1 + np.abs(x).max(0)) * mass / eps * 0.1
      kin = [0.0, 0.0]
      last = None
      for s in range(p["steps"]):
        p2 = mass * (x[s + 1] - x[s]) / eps
        p1 = p2 + 0.5 * eps * g[2 * s]
        p3 = p2 - 0.5 * eps * g[2 * s + 1]
        kin[0] += 0.5 * np.sum(p1 ** 2 / mass)
        kin[1] += 0.5 * np.sum(p3 ** 2 / mass)
        if last is None:
          draw(p1 - math.sqrt(keep) * a["mom"], amp * sq, size, note + " first O step")
        else:             # two O steps in a row
          draw(p1 - keep * last, amp * math.sqrt(1 + keep) * sq, size, note + " O steps %d" % s)
        last = p3
      draw(b["mom"] - math.sqrt(keep) * last, amp * sq, size, note + " last O step")
      require(close(b["kin"], kin, 2e-3), "energy", "%s %s: kinetic energies %s, expected %s", what,
              note, b["kin"], kin)
      u1, _ = energy(p, pos[-2], ids[-2])
      u2, _ = energy(p, pos[-1], ids[-1])
      require(close(b["pot"], 0.5 * (u1 + u2)), "potential", "%s %s: %s, expected %s", what, note,
              b["pot"], 0.5 * (u1 + u2))
  noise = np.array(noise)
  fresh(noise, what)
  return noise


def fresh(noise, what):
  """Do the rows look like independent standard normal numbers?"""
  x = noise[np.isfinite(noise)]
  n = x.size
  if n == 0:
    return
  require(abs(x.sum()) < 6.5 * math.sqrt(n), "noise-mean", "%s: mean of %d noise terms is %s", what,
          n, x.mean())
  if n >= 50:
    require(abs((x ** 2).mean() - 1) < 6.5 * math.sqrt(2 / n) + 60 / n, "noise-variance",
            "%s: variance of %d noise terms is %s", what, n, (x ** 2).mean())
  if n >= 100:
    require((x ** 2).mean() > 0.35, "noise-variance", "%s: %s", what, (x ** 2).mean())
  for lag in range(1, min(len(noise), 24)):
    same_noise(noise[lag:], noise[:-lag], what + " lag %d" % lag)
  same_noise(noise[:, 1:4], noise[:, 4:7], what + " two leaves", twins=True)


def same_noise(a, b, what, twins=False):
  ok = np.isfinite(a) & np.isfinite(b)
  full = ok.all(1)
  if a.shape[1] >= 3 and full.any():
    dup = (np.abs(a[full] - b[full]) < 2e-3).all(1)
    require(not dup.any(), "noise-reused", "%s: the same noise came twice: %s", what,
            a[full][dup][:1].tolist())
  x, y = a[ok], b[ok]
  if x.size >= 60:
    r = (x * y).sum() / math.sqrt((x ** 2).sum() * (y ** 2).sum())
    require(abs(r) * math.sqrt(x.size) < 6.5, "noise-correlated", "%s: correlation %s over %d numbers",
            what, r, x.size)
