#!/bin/bash
# plant_run.sh ID [PROP...]: run the check(s) against /repo with the planted bug applied to a scratch copy
id=$1; shift; d=/verif/seeded/$id; w=/tmp/prun.$id.$$; mkdir -p $w; cp -a /repo $w/repo; git -C $w/repo apply $d/patch.diff || exit 9
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
for p in $props; do SIM_REPO=$w/repo python3 /verif/tools/check.py $p > $w/log 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -m1 '^violation of\|^ERROR' $w/log | cut -c1-230)"; done
rm -rf "/tmp/prun.$id.$$"
