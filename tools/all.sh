#!/bin/sh
# run every quick check, print the non-zero ones:  all.sh [ARGS of check.py]
cd /verif && for i in $(python3 -c "import json;[print(json.loads(l)['id']) for l in open('properties.jsonl')]"); do echo $i; done | xargs -P 4 -I{} sh -c 'o=$(VERIF_SEED=${VERIF_SEED:-1} python3-vt check.py {} '"$*"' 2>&1); c=$?; echo "$o" | tail -1; [ $c = 0 ] || echo "EXIT $c $o"'
