"""seed(...): writes /verif/seeded/<id>/ from an edit of /repo's current files (the files are not touched)."""
import json
import os
import subprocess
import tempfile
REPO = "/repo"
OUT = "/verif/seeded"
SH = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="$PYTHONPATH:$PWD/sumo-api:$PWD:$d"
exec "$PY" -W ignore "$d/demo.py"
'''


def seed(sid, prop, edits, needs, breaks, demo, extra={}):
    d = os.path.join(OUT, sid)
    os.makedirs(d, exist_ok=True)
    diff = ""
    for f in dict.fromkeys(e[0] for e in edits):
        src = open(os.path.join(REPO, f), newline="").read()
        crlf = "\r\n" in src
        new = src
        for g, a, b in edits:
            if g == f:
                if crlf:
                    a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
                assert new.count(a) == 1, (sid, f, a, new.count(a))
                new = new.replace(a, b)
        with tempfile.TemporaryDirectory() as t:
            for side, text in (("a", src), ("b", new)):
                p = os.path.join(t, side, f)
                os.makedirs(os.path.dirname(p))
                open(p, "w", newline="").write(text)
            diff += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, capture_output=True).stdout.decode()
    open(os.path.join(d, "patch.diff"), "w", newline="").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    for n, t in extra.items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
