#!/bin/bash
# matrix.sh [own|all] [ids...]   run the checks against the planted bugs (scratch copy); own: only the bug's own property
set -u
mode=$1; shift
all="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26"
[ -f /verif/MANIFEST.json ] && all=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
ids=${*:-$(ls /verif/seeded)}
for b in $ids; do
    p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
    [ $mode = own ] && run=$p || run=$all
    out=$(NOREG=1 /verif/tools/lab.sh ${LAB:-/tmp/lab/m} /verif/seeded/$b/patch.diff $run 2>&1)
    own=$(echo "$out" | grep "^$p " | grep -o 'rc=[0-9]*')
    echo "$b [$p $own] caught by: $(echo "$out" | grep 'rc=1' | cut -d' ' -f1 | tr '\n' ' ') $(echo "$out" | grep -E 'FAILED|rc=[2-9]|rc=1[0-9]' | head -3)"
done
