"""Command line: dsim check ID | replay FILE | selftest ID."""
import importlib.util
import json
import os
import sys
import time

from dsim import runner

VERIF = runner.VERIF


def load_params(prop):
  with open(os.path.join(VERIF, "dsim", "checks.json")) as f:
    return json.load(f)[prop]


def known_findings():
  path = os.path.join(VERIF, "known_findings.txt")
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith("finding:"):
        out.append(dict(kv.split("=", 1) for kv in
                        line[len("finding:"):].split(" | ")[0].split()))
        out[-1]["text"] = line.split(" | ", 1)[1]
  return out


def check(prop, tier):
  seed = int(os.environ.get("VERIF_SEED", "1"))
  P = load_params(prop)
  params = dict(P.get("common", {}), **P[tier])
  params.update(property=prop)
  params.setdefault("run_timeout", 120)
  if os.environ.get("DSIM_RUNS"):
    params["runs"] = int(os.environ["DSIM_RUNS"])
  if os.environ.get("DSIM_SECONDS"):
    params["seconds"] = float(os.environ["DSIM_SECONDS"])
  nworkers = int(os.environ.get("DSIM_WORKERS", "8"))
  session = runner.Session(P["module"], tier, seed, params)
  t0 = time.time()
  rc, violations, extra = 0, 0, {}
  try:
    results, state = runner.search(session, nworkers)
    if state["start_fail"] is not None:
      print("ERROR the simulator could not start: %s" % state["start_fail"])
      print(session.log_tail())
      return 2
    search_s = time.time() - t0
    wobbly = [i for i, _, r in results if r.get("repeatable") is False
              and r["status"] != "violation"]
    bad = sorted(state["bad"], key=lambda b: (b[2]["status"] != "violation", b[0]))
    for i, plan, res, history in bad:
      path, info = runner.report(session, i, plan, res, history)
      if path is None:      # a stall that does not come back is not a verdict
        print("NOTE run %d did not finish (%s) and did not repeat" % (i, res["status"]))
        state["errors"].append((i, plan, res))
        continue
      res, final = info
      print("violation in run %d: %s: %s" % (i, res.get("kind") or res["status"],
                                             res.get("msg", "")))
      print("  plan: %s" % json.dumps(plan, default=str)[:1500])
      print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
      rc, violations = 1, violations + 1
      break
    if rc == 0 and state["errors"]:
      i, plan, res = state["errors"][0]
      print("ERROR in run %d: %s" % (i, res.get("msg", res)))
      print("  plan: %s" % json.dumps(plan, default=str)[:1500])
      print(session.log_tail())
      rc = 2
    if wobbly:
      print("NOTE runs %s had another history when repeated" % wobbly[:5])
    stray = [i for i, _, r in results if r["status"] == "skip"]
    if rc == 0 and len(stray) > max(3, len(results) // 4):
      print("ERROR %d of %d runs were not decided, e.g. run %d: %s" % (
        len(stray), len(results), stray[0],
        [r.get("msg") for i, _, r in results if i == stray[0]]))
      rc = 2
    need = params.get("min_runs", 1)
    if rc == 0 and len(results) < need:
      print("ERROR only %d of at least %d runs finished in time" % (len(results), need))
      rc = 2
    listed = {f["id"]: f for f in known_findings() if f["property"] == prop}
    seen = {}
    for i, _, r in results:
      if r["status"] == "known":
        seen.setdefault(r["finding"], i)
    for fid, i in seen.items():
      if fid not in listed:
        print("VIOLATION property=%s replay=%s" % (prop, "run-%d" % i))
        rc = 1
    if rc == 0:
      for fid, f in listed.items():
        if fid in seen:
          print("KNOWN-FINDING: property=%s %s (first seen in run %d)"
                % (prop, f["text"], seen[fid]))
    evidence(prop, tier, seed, params, results, search_s, time.time() - t0,
             violations, nworkers)
    print("%s: %d runs, %.0f runs/h, %d distinct schedules, exit %d" % (
      prop, len(results), len(results) / max(search_s, 1e-9) * 3600,
      len({str(r.get("digest")) for _, _, r in results}), rc))
    return rc
  finally:
    session.close()


def evidence(prop, tier, seed, params, results, search_s, wall, violations, nworkers):
  distinct, kinds, fired, probes, sched, sites = set(), {}, {}, {}, {}, {}
  nontrivial = set()
  steps = switches = points = simtime = preempt = 0
  for i, plan, r in results:
    kinds[r["status"]] = kinds.get(r["status"], 0) + 1
    d = json.dumps([r.get("digest"), r.get("info")])
    distinct.add(d)
    if r.get("nontrivial"):
      nontrivial.add(d)
    steps += r.get("steps", 0)
    switches += r.get("switches", 0)
    points += r.get("points", 0)
    simtime += r.get("simtime", 0)
    preempt += sum(len(c) for c in r.get("choices", ()))
    for f in r.get("fired", ()):
      k = "%s:%s" % (f[0], f[2])
      fired[k] = fired.get(k, 0) + 1
    for k, v in r.get("probes", {}).items():
      probes[k] = probes.get(k, 0) + v
    for k, v in r.get("sites", {}).items():
      sites[k] = sites.get(k, 0) + v
    s = plan.get("sched", {}) if plan else {}
    k = s.get("kind", "?") + ("+line" if s.get("line_p") else "") + \
        ("+async" if s.get("tap") == "async" else "")
    sched[k] = sched.get(k, 0) + 1
  samples = []
  for i, plan, r in results[:40:13]:
    samples.append({"run": i, "plan": plan, "digest": r.get("digest"),
                    "status": r["status"], "faults_fired": r.get("fired"),
                    "preemptions": sum(len(c) for c in r.get("choices", ()))})
  repeated = [r["repeatable"] for _, _, r in results if "repeatable" in r]
  doc = {
    "property": prop, "tier": tier, "seed": seed, "level": params.get("level", "exploration"),
    "wall_s": round(wall, 2), "violations": violations,
    "assumptions": params.get("assumptions", []),
    "coverage": {
      "evaluations": len(results),
      "distinct_nontrivial": len(nontrivial),
      "rule": params["rule"],
      "samples": samples,
      "runs_per_hour": round(len(results) / max(search_s, 1e-9) * 3600),
      "seeds": "VERIF_SEED=%d, one derived seed per run (plan:%s:%d:<run>)" % (
        seed, params["property"], seed),
      "seeds_explored": len(results),
      "simulated_steps": steps,
      "simulated_seconds": round(simtime, 3),
      "scheduling_decisions": points,
      "preemptions": preempt,
      "task_switches": switches,
      "distinct_histories": len(distinct),
      "distinct_measure": "hash of the complete event log of a run (every "
                          "scheduling point, switch and fault in order) and of "
                          "its configuration summary",
      "faults_injected": fired,
      "fault_sites_visited": sites,
      "probes": probes,
      "schedulers": sched,
      "outcomes": kinds,
      "determinism_checks": {"runs_repeated_in_process": len(repeated),
                             "identical": sum(map(bool, repeated))},
      "workers": nworkers,
      "real_components": params.get("real", []),
      "stub_components": params.get("stubs", []),
    },
  }
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
  with open(tmp, "w") as f:
    json.dump(doc, f, indent=1, default=str)
  os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))


def replay(path):
  with open(path) as f:
    doc = json.load(f)
  session = runner.Session(doc["check"], "replay", doc.get("seed", 0),
                           {"property": doc["property"]})
  try:
    p = runner.Prober(session, None, time.time() + 600, 300)
    res = p.run(doc.get("prefix", []) + [doc["plan"]], fresh=True)
    p.close()
  finally:
    session.close()
  same = res.get("digest") == doc.get("digest")
  print(json.dumps({k: res.get(k) for k in ("status", "kind", "msg", "digest", "fired")},
                   indent=1, default=str))
  if runner.same(res, None):
    print("the history is %s as recorded" % ("exactly the same" if same else "NOT the same"))
    print("VIOLATION property=%s replay=%s" % (doc["property"], path))
    return 1
  return 0 if res["status"] in ("ok", "known", "skip") else 2


def selftest(prop, n):
  """Determinism: the same runs in other processes, orders and hash seeds."""
  P = load_params(prop)
  params = dict(P.get("common", {}), **P["quick"], property=prop)
  session = runner.Session(P["module"], "quick", int(os.environ.get("VERIF_SEED", "1")), params)
  outs = []
  try:
    for order, hs in ((1, "0"), (-1, "77"), (3, "random")):
      w = session.new_worker(hs)
      assert w.start() is None
      got = {}
      idx = list(range(n))
      if order == 3:
        idx = idx[::3] + idx[1::3] + idx[2::3]
      elif order == -1:
        idx = idx[::-1]
      for i in idx:
        _, r = w.ask({"seed": session.seed, "i": i, "tier": "quick"}, 300)
        got[i] = (r["status"], r.get("digest"), r.get("choices"), r.get("fired"))
      w.kill()
      outs.append(got)
  finally:
    session.close()
  diff = [i for i in range(n) if not outs[0][i] == outs[1][i] == outs[2][i]]
  print("%s: %d runs in 3 processes, %d differ %s" % (prop, n, len(diff), diff[:10]))
  return 1 if diff else 0


def main(argv):
  if argv[0] == "check":
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(argv[1], tier)
  if argv[0] == "replay":
    return replay(argv[1])
  if argv[0] == "selftest":
    return selftest(argv[1], int(argv[2]) if len(argv) > 2 else 40)
  raise SystemExit(__doc__)


if __name__ == "__main__":
  sys.exit(main(sys.argv[1:]))
