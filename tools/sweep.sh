#!/bin/bash
# tools/sweep.sh SEED_FROM SEED_TO ID...   run the quick checks with several seeds, printing the outcome of each
a=$1; b=$2; shift 2
for i in "$@"; do for s in $(seq "$a" "$b"); do
  VERIF_SEED=$s "$(dirname "$0")/../run.sh" "$i" quick 2>&1 | grep -E "VIOL|^M..:|^M.. quick|^error|KNOWN"
done; done
