"""Evaluates the contracts of one property on the compiled real code.

The parent starts a child process that runs the cases; a child that dies by a
signal or hangs is a failure of the case it was running (memory safety and
termination are part of every contract).  Runs under /opt/venv/bin/python.
"""
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

CASE_LIMIT = 150


def child(prop, seed, tier, inp, out, start, log):
    import common
    spec = json.load(open(inp))
    try:
        mod = importlib.import_module(prop)
        if hasattr(mod, "setup"):
            mod.setup()
    except Exception:
        json.dump({"error": traceback.format_exc()}, open(out, "w"))
        return
    budget = getattr(mod, "BUDGET", 25) if tier == "quick" else getattr(mod, "BUDGET_THOROUGH", 300)
    res = {"evaluations": 0, "failures": [], "known": [], "samples": [], "per_check": {}, "error": None, "keys": [],
           "rule": getattr(mod, "RULE", ""), "done": False}
    t0 = time.time()

    def all_cases():
        for c in spec["cases"]:
            yield c
        if not spec["only"]:
            rnd = random.Random(seed)
            for c in mod.cases(rnd, tier):
                yield {"check": c[0], "args": c[1]}

    lf = open(log, "a")
    per_sample = {}
    for n, c in enumerate(all_cases()):
        if n < start:
            continue
        if time.time() - t0 > budget and n >= len(spec["cases"]):
            break
        lf.write(json.dumps({"n": n, "case": c}) + "\n")
        lf.flush()
        if len(res["failures"]) >= 5:
            break
        # the code under test sees what a file round trip of the case gives
        args = json.loads(json.dumps(c["args"]))
        try:
            mod.CHECKS[c["check"]](**args)
        except common.Known as ex:
            res["known"].append({"id": ex.id, "case": c, "message": str(ex)})
        except common.Skip:
            continue
        except Exception as ex:
            tb = traceback.format_exc()
            res["failures"].append({"case": c, "message": "%s: %s: %s" % (c["check"], type(ex).__name__, str(ex)[:1500]), "traceback": tb[-3000:]})
        res["evaluations"] += 1
        res["per_check"][c["check"]] = res["per_check"].get(c["check"], 0) + 1
        res["keys"].append(hashlib.md5(json.dumps(c, sort_keys=True).encode()).hexdigest()[:12])
        if per_sample.get(c["check"], 0) < 1 and len(res["samples"]) < 6:
            s = json.dumps(c)
            if len(s) < 3000:
                per_sample[c["check"]] = 1
                res["samples"].append(c)
    res["done"] = True
    json.dump(res, open(out, "w"))


def main():
    if sys.argv[1] == "--child":
        _, _, prop, seed, tier, inp, out, start, log = sys.argv
        child(prop, int(seed), tier, inp, out, int(start), log)
        return
    prop, seed, tier, inp, out = sys.argv[1:6]
    log = out + ".log"
    tmp = out + ".child"
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--child", prop, seed, tier, inp, tmp, "0", log])
    last, since = None, time.time()
    hung = False
    while True:
        try:
            p.wait(timeout=1)
            break
        except subprocess.TimeoutExpired:
            pass
        size = os.path.getsize(log) if os.path.exists(log) else 0
        if size != last:
            last, since = size, time.time()
        elif time.time() - since > CASE_LIMIT:
            hung = True
            p.kill()
            p.wait()
            break
    if os.path.exists(tmp):
        res = json.load(open(tmp))
        if res.get("error"):
            res = {"evaluations": 0, "distinct": 0, "failures": [], "known": [], "samples": [], "per_check": {}, "error": res["error"]}
        else:
            res["distinct"] = len(set(res.pop("keys")))
    else:
        lines = open(log).read().split("\n") if os.path.exists(log) else []
        lines = [l for l in lines if l.endswith("}")]
        if not lines:
            json.dump({"evaluations": 0, "distinct": 0, "failures": [], "known": [], "samples": [], "per_check": {},
                       "error": "child died before the first case (exit %s)" % p.returncode}, open(out, "w"))
            return
        c = json.loads(lines[-1])
        if p.returncode == -9 and not hung:
            err = "child was killed"
            json.dump({"evaluations": len(lines), "distinct": 0, "failures": [], "known": [], "samples": [], "per_check": {}, "error": err}, open(out, "w"))
            return
        msg = "%s: %s" % (c["case"]["check"], "no result after %d s" % CASE_LIMIT if hung else "process died with exit status %s (crash)" % p.returncode)
        res = {"evaluations": len(lines), "distinct": len(set(lines)), "failures": [{"case": c["case"], "message": msg}], "known": [],
               "samples": [c["case"]], "per_check": {}, "error": None, "rule": ""}
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main()
