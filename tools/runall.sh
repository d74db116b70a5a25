#!/bin/bash
# Runs every claimed check and prints one line each.
cd "$(dirname "$0")/.."
for d in harness/c[0-9][0-9]; do
  id=$(basename $d | tr c C)
  [ $# -gt 0 ] && [[ " $* " != *" $id "* ]] && continue
  s=$(date +%s.%N)
  out=$(timeout 900 ./check.sh $id 2>&1); rc=$?
  e=$(date +%s.%N)
  printf "%s rc=%d %.1fs %s\n" $id $rc $(echo "$e-$s"|bc) "$(echo "$out" | grep -a -m2 -E 'VIOLATION|false' | tr '\n' ' ')"
done
