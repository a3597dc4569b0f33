#!/bin/bash
# dev helper: mut.sh <ID> <file under sumo-api/sumo or repo path> <python-regex> <replacement> [check args]
# runs a check against a mutated scratch copy of /repo (never /repo itself)
set -e
id=$1 f=$2 pat=$3 rep=$4; shift 4
d=$(mktemp -d /tmp/mut-XXXX)
mkdir -p $d/repo; (cd /repo && tar cf - --exclude='*.so' --exclude=build --exclude=.git .) | tar xf - -C $d/repo
python3 - "$d/repo/$f" "$pat" "$rep" <<'PY'
import re,sys
p,a,b=sys.argv[1:]
s=open(p).read(); n,k=re.subn(a,b,s,count=1,flags=re.S)
assert k==1 and n!=s, "pattern did not apply"
open(p,'w').write(n)
PY
set +e
SUMO_REPO=$d/repo /verif/bin/check.py $id "$@"; rc=$?
rm -rf "$d"
echo "rc=$rc"
