#!/bin/bash
# seedtest.sh ID [check seconds|0] [props...]: applies seeded/ID/patch.diff in a scratch copy of /repo; builds, runs the stable tests and demo there; undoes it;
# then runs the property's check against the patched copy. Nothing in /repo changes.
set -u
ID=$1; SECS=${2:-60}; shift; shift
D=/verif/seeded/$ID
S=/tmp/rs/$ID
mkdir -p /tmp/rs
rm -rf "/tmp/rs/$ID"
cp -a /repo "$S"
git -C "$S" checkout -q -- .
sed "s#/repo#$S#g" /opt/vp/build.sh > /tmp/rs/build.$ID.sh
sed "s#\"/repo\"#\"$S\"#" /opt/vp/runtests.py > /tmp/rs/runtests.$ID.py
res=""
bash /tmp/rs/build.$ID.sh > /tmp/rs/$ID.log 2>&1 || { echo "$ID: unpatched copy does not build"; tail -5 /tmp/rs/$ID.log; exit 1; }
DD=/tmp/rs/demo.$ID; rm -rf "$DD"; mkdir -p "$DD"; cp -r "$D"/. "$DD"/; rm -f "$DD"/*.diff "$DD"/*.patch "$DD"/meta.json
(cd "$S" && timeout 300 bash "$DD/demo.sh") > /tmp/rs/$ID.demo0 2>&1; r0=$?
git -C "$S" apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash /tmp/rs/build.$ID.sh > /tmp/rs/$ID.log 2>&1 || { echo "$ID: patched copy does not build"; tail -5 /tmp/rs/$ID.log; exit 1; }
(cd "$S" && timeout 300 bash "$DD/demo.sh") > /tmp/rs/$ID.demo1 2>&1; r1=$?
if [ -z "${NOTEST:-}" ]; then
mkdir -p "$S/_build/results/work"; rm -rf "$S/_build/results/work"; mkdir -p "$S/_build/results/work"
/opt/vp/venv/bin/python /tmp/rs/runtests.$ID.py "$S/_build/results/work" > /tmp/rs/$ID.lines 2>/dev/null
miss=$(python3 - "$ID" <<'P'
import json,sys
st=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ok=set(l.split(None,1)[1].strip() for l in open("/tmp/rs/%s.lines"%sys.argv[1]) if l.startswith("PASS "))
print(",".join(sorted(st-ok)) or "none")
P
)
else miss="(not run)"; fi
echo "$ID: demo unpatched rc=$r0 patched rc=$r1; stable tests missing: $miss"
if [ "$SECS" != 0 ]; then
  PROPS="$*"; [ -z "$PROPS" ] && PROPS=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  for P in $PROPS; do
    VERIF_REPO=$S VERIF_BUILD=/tmp/rs/build timeout 900 python3 /verif/sim/check.py --prop $P --seconds $SECS > /tmp/rs/$ID.$P.check 2>&1
    echo "$ID: check $P rc=$? $(grep -c '^VIOLATION' /tmp/rs/$ID.$P.check) $(tail -n 3 /tmp/rs/$ID.$P.check | cut -c1-200 | tr '\n' '|')"
  done
fi
rm -rf "/tmp/rs/$ID" "/tmp/rs/demo.$ID"
