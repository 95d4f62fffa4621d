#!/bin/bash
# The same seeds with different numbers of workers and hash seeds of the driver must give the same executions.
# usage: tools/determinism.sh RUNS [C01 C02 ...]
cd "$(dirname "$0")/.." || exit 1
n=${1:-24}; shift
out=$(mktemp -d)
for p in "${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C24}"; do for q in $p; do
    k=0
    for how in "1 0" "3 1" "8 7"; do
        set -- $how
        VSIM_HASHSEED=$2 python3 check.py "$q" --runs "$n" --workers "$1" --seed 7 --survey --hashes "$out/$q.$k" >/dev/null 2>&1
        k=$((k + 1))
    done
    python3 - "$out" "$q" <<'P'
import json, sys
a, b, c = (json.load(open(f'{sys.argv[1]}/{sys.argv[2]}.{k}')) for k in range(3))
same = sum(a[i] == b.get(i) == c.get(i) for i in a)
print(sys.argv[2], f'{same} of {len(a)} executions identical', flush=True)
P
done; done
rm -rf "$out"
