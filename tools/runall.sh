#!/bin/sh
# tools/runall.sh [tier] [seed...]: every built check, 2 at a time, one line each
cd "$(dirname "$0")/.." || exit 2
tier=${1:-quick}; [ $# -gt 0 ] && shift
for seed in ${*:-1}; do for f in checks/c[0-9][0-9].py; do echo "$seed $(basename "$f" .py | tr c C)"; done; done |
xargs -P 2 -L 1 sh -c 's=$1; c=$2; out=$(VERIF_SEED=$s ./check $c '"$tier"' 2>&1); rc=$?; [ $rc = 0 ] && printf "%s\n" "$out" | tail -1 || printf "!!! %s seed %s rc=%s\n%s\n" "$c" "$s" "$rc" "$(printf "%s\n" "$out" | tail -5 | cut -c1-600)"' sh
