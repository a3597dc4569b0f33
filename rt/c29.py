MODULES = []
import io
import json
import os
import runpy
import shutil
import sys
import tempfile
import types
import zipfile

import numpy as np

from common import *

BUDGET = 20
RULE = ("selections of 1 to 4 archives; a first run that is killed, interrupted by the user, or hit by a network error or short transfer at every single file-system "
        "and network event (complete), then runs without faults; repeated faults at random events; distinct by fault position")
TOOL = os.path.join(os.environ.get("SUMO_TOOLS", "/repo/tools"), "download_sumo_datasets.py")


class Fault(Exception):
    pass


def archive(name, k):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for i in range(k % 3 + 1):
            z.writestr(zipfile.ZipInfo("%s/f%d.txt" % (name[:-4], i)), ("%s %d " % (name, i)) * (50 * k + 1))
    return b.getvalue()


def contents(name, k):
    return {"%s/f%d.txt" % (name[:-4], i): (("%s %d " % (name, i)) * (50 * k + 1)).encode() for i in range(k % 3 + 1)}


def run(dest, selection, extra, kind, at, log):
    """One run of the tool in a child process with a fault at event number `at`.
    Returns the number of events, or None when the child was killed."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            n = tool(dest, selection, extra, kind, at, log)
            os.write(w, str(n).encode())
            code = 0
        except BaseException as ex:
            os.write(w, ("error %s %s" % (type(ex).__name__, ex)).encode()[:2000])
        finally:
            os._exit(code)
    os.close(w)
    out = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 9:
        return None
    require(not out.startswith(b"error"), "the tool ended with %s", out.decode())
    return int(out)


def tool(dest, selection, extra, kind, at, log):
    count = [0]
    fired = [False]

    def event(what, chunk=False):
        if fired[0] and kind != "kill":
            count[0] += 1
            return
        n = count[0]
        count[0] += 1
        if at is None or n != at:
            return
        fired[0] = True
        if kind == "kill":
            os._exit(9)
        if kind == "interrupt":
            raise KeyboardInterrupt()
        if kind in ("error", "short"):
            raise Fault()

    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    files = {n: archive(n, k) for k, n in enumerate(selection + extra)}

    class Response:
        def __init__(self, data, ok=True):
            self.data, self.ok, self.status_code = data, ok, 200 if ok else 404
            self.headers = {"content-length": str(len(data))}

        def json(self):
            return json.loads(self.data.decode())

        @property
        def content(self):
            return self.data

        def iter_content(self, chunk_size=1):
            step = max(1, len(self.data) // 3)
            for i in range(0, len(self.data), step):
                try:
                    event("chunk")
                except Fault:
                    if kind == "short":
                        return
                    raise ConnectionError("network fault")
                yield self.data[i:i + step]

    def get(url, stream=False, **k):
        if url.endswith("config/sumochallenge.json"):
            h = len(selection) // 2
            return Response(json.dumps({"training_input": selection[:h], "training_ground_truth": selection[h:], "validation": extra}).encode())
        name = url.split("/training/")[1]
        with open(log, "a") as f:
            f.write(name + "\n")
        try:
            event("get")
        except Fault:
            return Response(b"", False)
        return Response(files[name]) if name in files else Response(b"", False)

    rq = types.ModuleType("requests")
    rq.get = get
    rq.exceptions = types.SimpleNamespace(RequestException=OSError, ConnectionError=ConnectionError)
    sys.modules["requests"] = rq
    import multiprocessing

    class Pool:
        def __init__(self, *a, **k):
            pass

        def map_async(self, f, xs, *a, **k):
            for x in xs:
                f(x)
            return self

        def map(self, f, xs, *a, **k):
            return [f(x) for x in xs]

        def get(self, *a):
            return None

        wait = close = join = terminate = lambda self, *a: None
    multiprocessing.Pool = Pool
    shutil.disk_usage = lambda p: (1 << 60, 0, 1 << 60)
    real = dict(remove=os.remove, unlink=os.unlink, rename=os.rename, replace=os.replace, mkdir=os.mkdir)

    def hook(name):
        def f(*a, **k):
            soft(name + " before")
            x = real[name](*a, **k)
            soft(name + " after")
            return x
        return f

    def soft(what):
        # network faults happen only in the network
        if kind in ("kill", "interrupt"):
            event(what)
    import builtins
    real_open = builtins.open

    class File:
        """Counts the writes to a file below the destination."""

        def __init__(self, f):
            self._f = f

        def write(self, b):
            soft("write")
            self._f.write(b[:len(b) // 2])
            self._f.flush()
            soft("half written")
            self._f.write(b[len(b) // 2:])
            self._f.flush()
            return len(b)

        def __enter__(self):
            self._f.__enter__()
            return self

        def __exit__(self, *a):
            return self._f.__exit__(*a)

        def __getattr__(self, n):
            return getattr(self._f, n)

    def open_(p, mode="r", *a, **k):
        if isinstance(p, str) and p.startswith(dest) and any(c in mode for c in "wax+"):
            soft("open")
            f = File(real_open(p, mode, *a, **k))
            soft("opened")
            return f
        return real_open(p, mode, *a, **k)
    for n in real:
        setattr(os, n, hook(n))
    builtins.open = open_
    sys.argv = ["download_sumo_datasets.py", dest, "http://server/"]
    runpy.run_path(TOOL, run_name="__main__")
    return count[0]


def tree(dest):
    out = {}
    for d, _, fs in os.walk(dest):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, dest)] = open(p, "rb").read()
    return out


def finished(dest, selection):
    """Archives that are completely there: fetched whole, or gone again after all their files were extracted."""
    t = tree(dest)
    out = set()
    for k, n in enumerate(selection):
        if n in t:
            if t[n] == archive(n, k):
                out.add(n)
        elif all(t.get(p) == b for p, b in contents(n, k).items()):
            out.add(n)
    return out


def fetched(log):
    try:
        return open(log).read().split()
    except FileNotFoundError:
        return []


def complete(dest, selection, what):
    t = tree(dest)
    for k, n in enumerate(selection):
        for p, b in contents(n, k).items():
            require(t.get(p) == b, "%s: file %s of %s is %s", what, p, n, "missing" if p not in t else "damaged")
        require(n not in t, "%s: archive %s is left over", what, n)
    want = {p for k, n in enumerate(selection) for p in contents(n, k)}
    for p in t:
        require(p in want or p.startswith(".cache") or not p.endswith((".txt", ".zip")), "%s: unexpected file %s", what, p)


def names(n, order=0):
    """Names of archives, some of them inside others."""
    x = ["a0.zip", "0.zip", "in.cache2.zip", "ba0.zip"]
    return [x[(i + order) % 4] for i in range(n)]


def history(n, faults, order=0):
    """Runs with the given faults, then runs without."""
    selection = names(n, order)
    extra = ["other.zip", "xa0.zip"]
    tmp = tempfile.mkdtemp()
    dest = os.path.join(tmp, "dest")
    try:
        for i, (kind, at) in enumerate(faults + [["none", None], ["none", None]]):
            log = os.path.join(tmp, "log%d" % i)
            done = finished(dest, selection) if os.path.isdir(dest) else set()
            end = run(dest, selection, extra, kind, at, log)
            got = fetched(log)
            what = "run %d of %s" % (i, faults)
            for f in got:
                require(f in selection, "%s fetched %s, which is not requested", what, f)
                require(f not in done, "%s fetched %s again, which was complete", what, f)
            if kind == "none":
                complete(dest, selection, what)
                require(len(set(got)) == len(got), "%s fetched a file twice: %s", what, got)
                require(set(got) == set(selection) - done, "%s fetched %s, missing were %s", what, got, sorted(set(selection) - done))
            elif kind in ("error", "short"):
                # a single network fault is overcome by the retries of the same run
                complete(dest, selection, what)
        require(fetched(os.path.join(tmp, "log%d" % (len(faults) + 1))) == [], "a further run fetched something")
    finally:
        shutil.rmtree(tmp)


def every(n, kind, part, parts, order=0):
    """A single fault at every event of a run."""
    selection = names(n, order)
    tmp = tempfile.mkdtemp()
    try:
        total = run(os.path.join(tmp, "d"), selection, [], kind, None, os.path.join(tmp, "log"))
    finally:
        shutil.rmtree(tmp)
    require(total > 3 * n, "only %d events", total)
    for at in range(part, total, parts):
        history(n, [[kind, at]], order)


CHECKS = {"every": every, "history": history}


def cases(rnd, tier):
    yield "history", {"n": 3, "faults": []}
    yield "history", {"n": 0, "faults": []}
    for n in (1, 2, 4):
        for kind in ("kill", "interrupt", "error", "short"):
            for part in range(4):
                yield "every", {"n": n, "kind": kind, "part": part, "parts": 4, "order": 0 if n > 2 else 3 * (part % 2)}
    for i in range(5000):
        yield "history", {"n": rnd.randint(1, 4), "order": rnd.randrange(4), "faults": [[rnd.choice(["kill", "kill", "interrupt"]), rnd.randrange(80)] for _ in range(rnd.randint(1, 4))]}
