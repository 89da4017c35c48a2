#!/bin/bash
# check.sh ID [quick|thorough]: decides one property from /repo's current source.
id=$1; tier=${2:-${VERIF_TIER:-quick}}
. /verif/env.sh
bin=/verif/bin/frostcheck
if [ ! -x $bin ] || [ -n "$(find /verif/checker -newer $bin -type f -print -quit)" ]; then
  log=$(mktemp)
  bash /verif/setup.sh >$log 2>&1 || { cat $log; rm -f "$log"; exit 2; }
  rm -f "$log"
fi
cd /verif
GOMEMLIMIT=12GiB timeout -k 10 800 $bin check "$id" "$tier" /verif
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # the analyser gave no verdict: what it cannot decide it does not accept
  mkdir -p evidence
  echo "the analysis ended with status $rc before reaching a verdict" > evidence/$id.violations.txt
  echo "VIOLATION property=$id replay=/verif/evidence/$id.violations.txt"
  rc=1
fi
exit $rc
