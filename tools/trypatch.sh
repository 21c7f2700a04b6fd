#!/bin/bash
# trypatch.sh PATCH PROP...   run checks against a scratch copy of /repo with a patch applied (development aid)
# PATCH may be "-R:<commit>" to undo one commit of /repo.
P=$1; shift
T=$(mktemp -d /tmp/try.XXXXXX)
cp -a ${BASE_REPO:-/repo} $T/repo
if [[ $P == -R:* ]]; then git -C /repo show ${P#-R:} | git -C $T/repo apply -R || { echo "does not apply"; rm -rf $T; exit 3; }
else git -C $T/repo apply $P || { echo "does not apply"; rm -rf $T; exit 3; }; fi
mkdir -p $T/build; for d in x86 x86-fine x86-opt arm; do cp -a ${VERIF_DIR:-/verif}/build/$d $T/build/; done 2>/dev/null
for p in "$@"; do
  VERIF_REPO=$T/repo VERIF_BUILD=$T/build VERIF_EVIDENCE=$T/ev python3 ${VERIF_DIR:-/verif}/check.py $p > $T/out 2>&1; rc=$?
  echo "$P $p rc=$rc $(grep -v "^KNOWN-FINDING" $T/out | grep -v '^VIOLATION\|workers=' | head -${LINES_OUT:-1} | cut -c1-${COLS_OUT:-260})"
done
rm -rf $T
