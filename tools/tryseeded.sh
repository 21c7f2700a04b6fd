#!/bin/bash
# tryseeded.sh [-c] ID...   confirm seeded changes in a scratch copy: applies, builds, tests pass, demo 0 then nonzero; -c: also run the property's check
C=0; [ "${1:-}" = -c ] && { C=1; shift; }
T=$(mktemp -d /tmp/seed.XXXXXX); trap "rm -rf $T" EXIT
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  if [ -z "${NOTEST:-}" ]; then
    git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
    cp -r $D $T/d; rm -f $T/d/patch.diff $T/d/meta.json
    (cd /repo && bash $T/d/demo.sh > $T/o1 2>&1); r1=$?
    git -C /repo apply $D/patch.diff || { echo "$id does not apply"; continue; }
    bash /opt/vp/build.sh > $T/b 2>&1 || echo "$id BUILD FAILED"
    (cd /repo && bash $T/d/demo.sh > $T/o2 2>&1); r2=$?
    bash /opt/vp/test.sh $T/out.json > /dev/null 2>&1
    ok=$(python3 - <<PY
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$T/out.json'))
m=sorted(b-set(o['passed'])); print('tests-ok' if not m else 'TESTS-FAIL:'+','.join(m)[:200])
PY
)
    git -C /repo checkout -q -- .
    lines=$(git -C /repo apply --numstat $D/patch.diff | awk '{a+=$1;d+=$2}END{print "+"a" -"d}')
    [ $r1 = 0 ] && [ $r2 != 0 ] && v=good || v=BAD
    echo "$id [$P] demo $r1/$r2 $v $ok $lines :: $(tail -1 $T/o2 | cut -c1-100)"
    rm -rf $T/d
  fi
  [ $C = 1 ] && bash /verif/tools/trypatch.sh $D/patch.diff $P ${EXTRA:-}
done
bash /opt/vp/build.sh > /dev/null 2>&1
