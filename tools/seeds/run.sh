#!/bin/bash
# run.sh [id...]: applies each planted bug to /repo in turn, runs the check of its property (and, with ALL=1, every other) and reports.
cd /verif || exit 1
[ $# -eq 0 ] && set -- $(ls seeded)
for b in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
    git -C /repo apply "/verif/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
    list=$p
    [ -n "${ALL:-}" ] && list="$p $(seq -f C%02g 1 26 | grep -v $p)"
    r=""
    for c in $list; do
        s=$(date +%s)
        out=$(bin/check $c 2>&1); rc=$?
        e=$(( $(date +%s) - s ))
        v=$(echo "$out" | grep -c "VIOLATION property=$c")
        if [ $rc = 1 ] && [ $v -gt 0 ]; then r="$r $c(${e}s)"; elif [ $rc != 0 ]; then r="$r $c:rc=$rc!"; fi
        [ "$c" = "$p" ] && { if [ $rc = 1 ]; then echo -n "$b CAUGHT ${e}s: "; echo "$out" | grep VIOLATION | head -1; else echo "$b MISSED rc=$rc ${e}s"; echo "$out" | tail -3; fi; }
    done
    [ -n "${ALL:-}" ] && echo "   all:$r"
    git -C /repo checkout -q -- .
done
