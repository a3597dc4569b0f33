"""dev helper: dbg.py ID regex [file to exec first] — runs the proof bodies whose name matches in this process."""
import os, sys
sys.path[:0] = ["/verif/vlib", "/verif/props"]
os.environ["PYVC_ONLY"] = sys.argv[2]
sys.setrecursionlimit(int(os.environ.get("REC", 20000)))
import importlib
from pyvc import Verifier
V = Verifier(os.environ.get("SUMO_REPO", "/repo"), sys.argv[1], "quick", 1)
import pyvc, traceback
_ef = pyvc._engine_fault
def ef(ex):
    r = _ef(ex)
    tb = traceback.format_exc().splitlines()
    print("\n".join(l[:200] for l in tb[-24:]))
    return r
pyvc._engine_fault = ef
if len(sys.argv) > 3:
    exec(open(sys.argv[3]).read())
importlib.import_module(sys.argv[1].lower()).prove(V)
for o in V.obs:
    if o.status != "discharged":
        print(o.status, o.name, str(o.detail)[:300])
for u in V.undecided:
    print("undecided", u)
print(len(V.obs), "obligations,", sum(o.status == "discharged" for o in V.obs), "discharged")
