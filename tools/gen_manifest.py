"""Writes MANIFEST.json and dsim/checks.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REAL = ["jax_sgmc (all of it, unmodified)", "XLA compiled programs on the CPU backend",
        "numpy/h5py/ujson/zipfile", "the file system below a scratch directory"]
STUB = ["thread scheduling (seeded baton passing)", "threading locks/conditions/events of jax_sgmc",
        "delivery of id_tap callbacks (immediate or queued per device with seeded delay)",
        "entry and exit of io_callback (scheduling points)",
        "file writes (scheduling and fault points on top of real files)",
        "h5py data set access (scheduling and fault points, in-memory files)",
        "clock and uuid4"]
ASSUME = ["callbacks of one device arrive in program order (host_callback contract)",
          "one simulated chain per XLA device; code between two scheduling points runs atomically, "
          "scheduling points are seams and (in part of the runs) single source lines of jax_sgmc",
          "JAX 0.4.18 / CPU backend"]

CHECKS = {}
def add(pid, module, rule, quick, thorough, note, technique=None, level="exploration", **common):
  common.setdefault("real", REAL)
  common.setdefault("stubs", STUB)
  common.setdefault("assumptions", ASSUME)
  common.update(rule=rule, level=level)
  CHECKS[pid] = {"module": module, "common": common, "quick": quick, "thorough": thorough,
                 "note": note,
                 "technique": technique or "deterministic simulation with seeded schedules and fault injection"}

exec(open(os.path.join(ROOT, "tools", "checks_table.py")).read())

json.dump({k: {a: b for a, b in v.items() if a not in ("note", "technique")} for k, v in CHECKS.items()},
          open(os.path.join(ROOT, "dsim", "checks.json"), "w"), indent=1)
NA = {
 "C19": "An asymptotic statement about distributions: simulated runs are finite samples of one seed each and can neither establish nor refute a limit (its finite part for the exact samplers is C21); the exact ingredients (random numbers, batches, update, acceptance) are decided in C13, C14 and C15.",
 "C20": "Pure functions of their inputs without state, schedule, fault or I/O.",
}
notes = "check.sh ID TIER runs a check, check.sh replay FILE replays a violation, check.sh selftest ID N compares event logs across processes and hash seeds. Known findings and repairs: known_findings.txt."
man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [], "notes": notes}
for pid, c in CHECKS.items():
  man["checks"].append({"property": pid, "quick_cmd": "./check.sh %s quick" % pid,
                        "thorough_cmd": "./check.sh %s thorough" % pid,
                        "technique": c["technique"], "level": c["common"]["level"],
                        "level_note": c["note"]})
claimed = set(CHECKS)
for line in open(os.path.join(ROOT, "properties.jsonl")):
  pid = json.loads(line)["id"]
  if pid not in claimed:
    man["not_applicable"].append({"property": pid, "reason": NA.get(pid, "check under construction")})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
