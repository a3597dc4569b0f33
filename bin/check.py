#!/opt/veriftools/pyvenv/bin/python
"""check.py <ID> [--tier quick|thorough] [--replay FILE]

Decides one property on /repo's current working tree:
  1. deductive part   props/<id>.py: obligations generated from the current
                      source and discharged (ring / z3 / cvc5);
  2. replay part      rt/<id>.py: the same contracts evaluated on the compiled
                      real code, on the counterexamples of refuted obligations
                      and on generated inputs (bounded; never counted as proof).
Exit 0: held.  Exit 1: a line VIOLATION property=<id> replay=<path>.
"""
import argparse
import importlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SUMO_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
sys.path.insert(0, os.path.join(VERIF, "vlib"))
sys.path.insert(0, os.path.join(VERIF, "props"))


def shell_env(extra):
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    env = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
    env.update(extra)
    return env


def prove_worker(prop, tier, seed, q, scratch):
    """Runs the deductive part; sends its result to the parent."""
    import warnings
    warnings.simplefilter("ignore")
    import faulthandler
    faulthandler.enable()
    sys.setrecursionlimit(20000)
    res = {"obligations": [], "undecided": [], "functions": {}, "trusted": [], "assumptions": [], "solver_s": 0.0,
           "paths": 0, "notes": [], "engine_error": None}
    try:
        from pyvc import Verifier
        V = Verifier(REPO, prop, tier, seed)
        V.parallel(scratch)
        mod = importlib.import_module(prop.lower())
        try:
            mod.prove(V)
        except BaseException as ex:
            V.undecided.append((prop, "engine: %s: %s" % (type(ex).__name__, ex)))
            traceback.print_exc()
        V.join()
        q.put(dump(V))
    except BaseException as ex:
        res["engine_error"] = traceback.format_exc()
        q.put(res)


def dump(V):
    return {"obligations": [{"name": o.name, "fn": o.fn, "status": o.status, "backend": o.backend,
                             "time": round(o.time or 0, 4), "detail": o.detail, "case": o.case,
                             "inputs": clean(o.inputs)} for o in V.obs],
            "undecided": [list(map(str, u)) for u in V.undecided], "functions": V.functions,
            "trusted": V.trusted, "assumptions": V.assumptions, "solver_s": round(V.solver_time, 3),
            "paths": V.paths, "notes": V.notes, "engine_error": None}


def clean(d):
    if d is None:
        return None
    return {k: (v if isinstance(v, (int, float, bool, str)) else str(v)) for k, v in d.items()}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-rt", action="store_true")
    ap.add_argument("-v", action="count", default=0)
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop.upper()
    scratch = tempfile.mkdtemp(prefix="sumo-verif-")
    try:
        rc = run(a, prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def start_build(scratch, mods):
    src = os.path.join(scratch, "sumo-api")
    shutil.copytree(os.path.join(REPO, "sumo-api"), src, symlinks=True, ignore=shutil.ignore_patterns(
        "*.so", "build", "__pycache__", "*.o", ".git"))
    # generated .cpp beside a .pyx is a build product: never trusted
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(".cpp") and f[:-4] + ".pyx" in fs:
                os.unlink(os.path.join(d, f))
    tools = os.path.join(REPO, "tools")
    if os.path.isdir(tools):
        shutil.copytree(tools, os.path.join(scratch, "tools"))
    ccache = os.path.join(scratch, "ccache")
    env = shell_env({"CCACHE_DIR": ccache})
    if not mods:
        return None, env
    log = open(os.path.join(scratch, "build.log"), "w")
    p = subprocess.Popen([VENV_PY, os.path.join(VERIF, "vlib", "build_ext.py")] + mods, cwd=src, env=env, stdout=log, stderr=log)
    return p, env


def run(a, prop, tier, seed, scratch, t0):
    rtfile = os.path.join(VERIF, "rt", prop.lower() + ".py")
    mods = []
    for line in open(rtfile):
        if line.startswith("MODULES"):
            mods = eval(line.split("=", 1)[1])
            break
    have_proof = os.path.exists(os.path.join(VERIF, "props", prop.lower() + ".py")) and not a.no_proof and not a.replay
    build, env = start_build(scratch, mods)

    proof = None
    if have_proof:
        q = multiprocessing.Queue()
        pr = multiprocessing.Process(target=prove_worker, args=(prop, tier, seed, q, scratch))
        pr.start()
        limit = 300 if tier == "quick" else 1500
        end = time.time() + limit
        while time.time() < end:
            try:
                proof = q.get(timeout=1)
            except Exception:
                pass
            if not pr.is_alive():
                break
        while True:
            try:
                proof = q.get(timeout=0.2)
            except Exception:
                break
        if pr.is_alive():
            pr.terminate()
            pr.join(5)
            if pr.is_alive():
                pr.kill()
            if proof is None:
                proof = {"obligations": [], "undecided": [], "functions": {}, "trusted": [], "assumptions": [],
                         "solver_s": 0, "paths": 0, "notes": [], "engine_error": None}
            proof["undecided"].append([prop, "time limit of the deductive part reached"])
        if proof is None:
            proof = {"obligations": [], "undecided": [[prop, "deductive part died (exit %s)" % pr.exitcode]], "functions": {},
                     "trusted": [], "assumptions": [], "solver_s": 0, "paths": 0, "notes": [], "engine_error": None}
    if build is not None:
        if build.wait() != 0:
            sys.stdout.write(open(os.path.join(scratch, "build.log")).read()[-3000:])
            print("ERROR: the current tree does not build")
            return 2

    # ---- replay part -------------------------------------------------------
    refuted = [o for o in (proof["obligations"] if proof else []) if o["status"] == "refuted"]
    cases = []
    if a.replay:
        rep = json.load(open(a.replay))
        if rep.get("case"):
            cases = [rep["case"]]
        else:
            print("the replay file names an obligation without an input:", rep.get("obligation"))
    seen = set()
    for o in refuted:
        if o["case"] is not None:
            k = json.dumps(o["case"], sort_keys=True)
            if k not in seen and len(seen) < 40:
                seen.add(k)
                cases.append(o["case"])
    inp = os.path.join(scratch, "cases.json")
    out = os.path.join(scratch, "out.json")
    json.dump({"cases": cases, "only": bool(a.replay)}, open(inp, "w"))
    rt = {"evaluations": 0, "distinct": 0, "failures": [], "known": [], "samples": [], "per_check": {}, "error": None}
    if not a.no_rt:
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        env.update({"PYTHONPATH": ":".join([env.get("PYTHONPATH", ""), os.path.join(scratch, "sumo-api"), os.path.join(VERIF, "rt")]),
                    "SUMO_SRC": os.path.join(scratch, "sumo-api"), "SUMO_TOOLS": os.path.join(scratch, "tools"),
                    "PYTHONDONTWRITEBYTECODE": "1", "MPLCONFIGDIR": os.path.join(scratch, "mpl"), "OMP_NUM_THREADS": "1",
                    "OPENBLAS_NUM_THREADS": "1", "TMPDIR": work, "HOME": work})
        r = subprocess.run([VENV_PY, os.path.join(VERIF, "rt", "runner.py"), prop.lower(), str(seed), tier, inp, out],
                           cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if a.v:
            print(r.stdout[-6000:])
        if os.path.exists(out):
            rt = json.load(open(out))
        else:
            print(r.stdout[-4000:])
            print("ERROR: the replay runner did not finish (exit %s)" % r.returncode)
            return 2
    if rt["error"]:
        print(rt["error"])
        print("ERROR: the replay harness failed to start")
        return 2

    # ---- known findings ----------------------------------------------------
    known = {}
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            if line.startswith("finding: property=%s " % prop):
                kid = line.split("id=", 1)[1].split()[0]
                known[kid] = line.split("id=", 1)[1].split(None, 1)[1].strip()
    for k in rt["known"]:
        if k["id"] in known:
            k["listed"] = True
        else:
            rt["failures"].append({"case": k["case"], "message": k["message"]})
    shown = set()
    for k in rt["known"]:
        if k.get("listed") and k["id"] not in shown:
            shown.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k["id"]]))

    # ---- verdict -----------------------------------------------------------
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    violations = 0
    rc = 0
    nobs = len(proof["obligations"]) if proof else 0
    if rt["failures"]:
        f = rt["failures"][0]
        # name the failed obligations together with the concrete input
        path = os.path.join(evdir, "replay", prop + ".json")
        json.dump({"property": prop, "case": f["case"], "message": f["message"],
                   "failed_obligations": [{k: o[k] for k in ("name", "fn", "backend", "detail", "inputs")} for o in refuted][:20],
                   "other_failures": rt["failures"][1:6],
                   "how": "bin/check.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
        print("failed on the real code: %s" % f["message"][:600])
        for o in refuted[:5]:
            print("refuted obligation: %s [%s]" % (o["name"], o["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        violations = len(rt["failures"])
        rc = 1
    else:
        # refuted obligations: a counterexample which the real code passes when
        # replayed is spurious (real vs float arithmetic): undecided, no alarm.
        hard = [o for o in refuted if o["case"] is None]
        if hard and not a.replay:
            o = hard[0]
            path = os.path.join(evdir, "replay", prop + ".json")
            json.dump({"property": prop, "case": None, "obligation": o["name"], "function": o["fn"],
                       "verifier_output": o, "all": hard[:20]}, open(path, "w"), indent=1)
            print("refuted obligation: %s [%s]" % (o["name"], o["detail"]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
            violations = len(hard)
            rc = 1

    # ---- evidence ----------------------------------------------------------
    sys.path.insert(0, os.path.join(VERIF, "vlib"))
    import meta
    m = meta.META.get(prop, {})
    level = m.get("level", "exploration")
    cov = {"evaluations": rt["evaluations"], "distinct_nontrivial": rt["distinct"],
           "rule": rt.get("rule", ""), "samples": rt["samples"][:3], "evaluations_per_contract": rt["per_check"],
           "bounded_part": "evaluations of the contracts on the compiled code; bounded by the generator, never counted as proved"}
    if proof is not None:
        disc = [o for o in proof["obligations"] if o["status"] == "discharged"]
        backends = {}
        for o in disc:
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        cov.update({"obligations": nobs, "discharged": len(disc), "discharged_by": backends,
                    "refuted": [o["name"] for o in refuted], "unknown": [o["name"] for o in proof["obligations"] if o["status"] == "unknown"],
                    "undecided": proof["undecided"], "functions_under_contract": proof["functions"],
                    "paths_explored": proof["paths"], "solver_s": proof["solver_s"],
                    "checker_cmd": "bin/check.py %s --tier %s" % (prop, tier), "trusted_base": proof["trusted"],
                    "notes": proof["notes"],
                    "obligation_names": sorted(set(o["name"] for o in proof["obligations"]))[:200]})
    if not a.replay:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": (proof["assumptions"] if proof else []) + m.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": violations}
        json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    if proof is not None:
        und = len(proof["undecided"]) + sum(o["status"] == "unknown" for o in proof["obligations"])
        print("%s: %d obligations, %d discharged, %d refuted, %d undecided; %d contract evaluations, %d failures; %.1fs" % (
            prop, nobs, sum(o["status"] == "discharged" for o in proof["obligations"]), len(refuted), und, rt["evaluations"],
            len(rt["failures"]), time.time() - t0))
        for u in proof["undecided"]:
            print("  undecided: %s: %s" % (u[0], u[1][:300]))
        for o in [o for o in proof["obligations"] if o["status"] != "discharged"][:None if a.v > 1 else 5]:
                print("  %s: %s %s %s" % (o["status"], o["name"], " ".join(str(o["detail"]).split())[:110], str(o["inputs"])[:200] if a.v else ""))
        if proof["engine_error"]:
            print(proof["engine_error"])
    else:
        print("%s: %d contract evaluations, %d failures; %.1fs" % (prop, rt["evaluations"], len(rt["failures"]), time.time() - t0))
    return rc


if __name__ == "__main__":
    main()
