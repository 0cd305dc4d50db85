#!/bin/bash
# chk.sh SEED CHECK... : run checks on a copy with the seed applied
id=$1; shift
wt=/tmp/seed/c_$id
rm -rf $wt; cp -a /repo $wt; git -C $wt apply /verif/seeded/$id/patch.diff || exit 9
mkdir -p /tmp/seed/o_$id; ln -sfn /verif/KNOWN_FINDINGS /tmp/seed/o_$id/KNOWN_FINDINGS
for c in "$@"; do
  s=$(date +%s)
  GPEG_REPO=$wt VERIF_OUT=/tmp/seed/o_$id timeout 900 bash /verif/check.sh $c > /tmp/seed/o_$id/$c.log 2>&1; rc=$?
  echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION /tmp/seed/o_$id/$c.log) $(grep -m1 -A3 VIOLATION /tmp/seed/o_$id/$c.log | tr '\n' ' ' | cut -c1-200)"
done
rm -rf $wt
