#!/bin/bash
# soak.sh ID SCALE SEED...: run a check at several seeds, printing only alarms
id=$1; scale=$2; shift 2
for s in "$@"; do
  out=$(/verif/run.py "$id" --seed "$s" --scale "$scale" 2>&1); rc=$?
  if [ $rc -ne 0 ]; then echo "== $id seed $s rc $rc"; echo "$out" | tail -25; else echo "$id seed $s ok $(echo "$out" | grep wall)"; fi
done
