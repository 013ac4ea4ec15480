#!/bin/bash
# Development aid: run the given checks (default all) with the given seeds.
cd "$(dirname "$0")/.."
for s in ${SEEDS:-1}; do
    for c in ${@:-$(python3-vt check.py list)}; do
        VERIF_SEED=$s timeout 900 python3-vt check.py $c > /tmp/runall.out 2>&1
        r=$?
        echo "$c seed=$s rc=$r $(tail -1 /tmp/runall.out)"
        [ $r = 0 ] || cp /tmp/runall.out /tmp/runall-$c-$s.out
    done
done
