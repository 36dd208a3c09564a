"""Runs plan i of a check twice in this process and diffs the logs; profiles."""
import sys, os, random, json, time, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("JAX_PLATFORMS","cpu")
os.environ["XLA_FLAGS"]="--xla_force_host_platform_device_count=8 --xla_cpu_multi_thread_eigen=false"
sys.path.insert(0,os.environ.get("DSIM_SUT","/repo"))
from dsim import seams, kernel, core
seams.SCRATCH=os.path.realpath(tempfile.mkdtemp()); seams.install()
import jax; kernel.TRACE_CLEAN=jax.core.trace_state_clean
import importlib
name=sys.argv[1]; seed=os.environ.get("VERIF_SEED","1")
check=importlib.import_module("dsim.checks."+name)
logs=[]
real_init=kernel.Sim.__init__
sims=[]
def init(self,*a,**k):
  real_init(self,*a,**k); sims.append(self)
kernel.Sim.__init__=init
for arg in sys.argv[2:]:
  i=int(arg)
  rng=random.Random("plan:%s:%s:%s"%(name,seed,i)); rng.group=random.Random("group:%s:%s:%s"%(name,seed,i//getattr(check,"GROUP",60)))
  plan=check.gen(rng,"quick",i); plan.setdefault("seed","%s/%s"%(seed,i)); plan.setdefault("sched",{"seed":0,"kind":"serial"})
  out=[]
  for k in range(2):
    sims.clear(); t=time.time(); r=core.execute(check,plan); dt=time.time()-t
    out.append([list(s.log) for s in sims])
    print(i,k,r["status"],r.get("kind"),r.get("msg"),"%.2f"%dt,r["digest"] if k==0 else "",plan["sched"].get("kind") if k==0 else "", r["fired"])
    if r["status"] in("violation","error"): print(r.get("traceback"))
  for a,b in zip(*out):
    for n,(x,y) in enumerate(zip(a,b)):
      if x!=y:
        print("DIFF at",n); print(*a[n-3:n+4],sep="\n"); print("--"); print(*b[n-3:n+4],sep="\n"); break
    else:
      if len(a)!=len(b): print("LEN",len(a),len(b))
