#!/bin/bash
# PLANT_REPO: a copy of /repo to use instead (then "nosuite").
# plant.sh ID [nosuite]: validate one planted bug: demo on clean tree, suite with patch, demo with patch, check with patch.
id=$1; d=/verif/seeded/$id; R=${PLANT_REPO:-/repo}; prop=$(/usr/bin/python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C $R status --porcelain)" ] || { echo "repo dirty"; exit 1; }
cd $R
bash $d/demo.sh >/tmp/plant.$id.clean 2>&1; a=$?
git apply $d/patch.diff || exit 1
trap 'git -C $R checkout -q -- .' EXIT
bash $d/demo.sh >/tmp/plant.$id.bug 2>&1; b=$?
s=skipped; [ "$2" = nosuite ] || s=$(bash /verif/tools/suite.sh 2>&1 | tail -2 | tr '\n' ' ')
c=$(DST_REPO=$R DST_OUT=/tmp/plantout /verif/check.sh $prop 2>&1 | grep -E 'VIOLATION|quiet|OK|exit' | cut -c1-300 | head -3)
echo "$id $prop demo clean=$a bug=$b suite=[$s] check: $c"
