#!/bin/bash
# seedcheck.sh SEED [PROPERTY]: applies a planted change to /repo, runs the
# check of its property and undoes the change.
s=/verif/seeded/$1
p=${2:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $s/meta.json)}
git -C /repo apply $s/patch.diff || exit 3
(cd /verif && VERIF_SEED=1 ./check.py $p ${TIER:-quick}) > /tmp/seedcheck.$1.log 2>&1
rc=$?
git -C /repo checkout -- .
echo "$1 $p rc=$rc $(grep -c ^VIOLATION /tmp/seedcheck.$1.log) violations: $(grep -m1 -B0 '^pgvm\|^build\|^[a-zA-Z_.]*: ' /tmp/seedcheck.$1.log | cut -c1-200)"
