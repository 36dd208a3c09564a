"""Worker process: executes plans read as JSON lines from stdin."""
import importlib
import json
import os
import random
import sys


def main():
  real = os.fdopen(os.dup(1), "w")
  os.dup2(2, 1)                     # nothing else may write to the channel
  sys.stdin_lines = sys.stdin
  name = sys.argv[1]
  scratch = sys.argv[2]
  sut = os.environ.get("DSIM_SUT", "/repo")
  sys.path.insert(0, sut)
  from dsim import seams, kernel, core
  seams.SCRATCH = os.path.realpath(scratch)
  seams.install()
  import jax
  kernel.TRACE_CLEAN = jax.core.trace_state_clean
  import jax_sgmc
  got = os.path.realpath(os.path.dirname(jax_sgmc.__file__))
  if got != os.path.realpath(os.path.join(sut, "jax_sgmc")):
    raise SystemExit("wrong jax_sgmc: %s" % got)
  check = importlib.import_module("dsim.checks.%s" % name)
  check_group = getattr(check, "GROUP", 60)
  real.write(json.dumps({"ready": True}) + "\n")
  real.flush()
  for line in sys.stdin:
    req = json.loads(line)
    if "plan" in req:
      plan = req["plan"]
    else:
      rng = random.Random("plan:%s:%s:%s" % (name, req["seed"], req["i"]))
      rng.group = random.Random("group:%s:%s:%s" % (name, req["seed"], req["i"] // check_group))
      plan = check.gen(rng, req["tier"], req["i"])
      plan.setdefault("seed", "%s/%s" % (req["seed"], req["i"]))
    plan.setdefault("sched", {"seed": plan.get("seed", 0), "kind": "serial"})
    if req.get("describe"):
      real.write(json.dumps({"plan": plan}) + "\n")
      real.flush()
      continue
    real.write(json.dumps({"start": req.get("i"), "plan": plan}) + "\n")
    real.flush()
    res = core.execute(check, plan)
    res["i"] = req.get("i")
    if req.get("repeat"):
      again = core.execute(check, plan)
      res["repeatable"] = (again["digest"] == res["digest"]
                           and again["status"] == res["status"])
    real.write(json.dumps(res, default=str) + "\n")
    real.flush()


if __name__ == "__main__":
  main()
