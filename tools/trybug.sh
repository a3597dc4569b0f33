#!/bin/bash
# trybug.sh ID... : in a private mount namespace with a copy of /repo over /repo, applies each planted bug,
# builds, runs the stable tests, its demo (before and after) and its property's check.
for id in "$@"; do
  s=/verif/seeded/$id; c=$(mktemp -d /tmp/try.XXXXXX); log=/tmp/try-$id.log
  cp -a /repo "$c/repo"
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  unshare -m bash -c "
    mount --bind $c/repo /repo; cd /repo
    bash $s/demo.sh >$log 2>&1 && echo -n 'demo-ok ' || echo -n 'DEMO-FAILS-CLEAN '
    git apply $s/patch.diff || { echo NOAPPLY; exit; }
    bash /opt/vp/build.sh >$c/build.log 2>&1 && echo -n 'build-ok ' || { echo BUILD-FAILS; tail -5 $c/build.log; }
    bash $s/demo.sh >>$log 2>&1 && echo -n 'DEMO-PASSES-BUG ' || echo -n 'demo-fails '
    flock /tmp/try.lock bash /opt/vp/test.sh $c/o.json >/dev/null 2>&1
    python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$c/o.json'))
x=set(b['stable'])-set(o['passed']); print('tests-ok' if not x else 'TESTS-FAIL %s'%sorted(x)[:3], end=' ')\"
    cd /verif; python3-vt bin/check.py $prop >>$log 2>&1; echo -n \"check-rc=\$? \"; grep -c VIOLATION $log" 2>&1 | sed "s/^/$id: /"
  rm -rf "$c"
done
