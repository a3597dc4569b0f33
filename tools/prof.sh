#!/bin/bash
# prof.sh ID regex : profile the deductive part of one property
cd /verif
PYVC_ONLY="$2" timeout ${3:-120} python3-vt -c "
import sys,cProfile,pstats,os,signal,time
sys.path[:0]=['vlib','props']
import pyvc,importlib
V=pyvc.Verifier('/repo','$1')
m=importlib.import_module('$1'.lower())
pr=cProfile.Profile()
def out(*a):
    pr.disable()
    s=V.summary(); print({k:v for k,v in s.items() if k in('obligations','discharged')}, V.undecided[:5], V.solver_time, V.paths)
    for o in V.obs:
        if o.status!='discharged': print(o.status,o.name,str(o.detail)[:200])
    pstats.Stats(pr).sort_stats('cumtime').print_stats(28)
    os._exit(0)
signal.signal(signal.SIGALRM,out); signal.alarm(${3:-120}-10)
pr.enable()
m.prove(V)
out()
" 2>&1 | cut -c1-150
