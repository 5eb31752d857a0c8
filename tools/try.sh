#!/bin/bash
# try.sh ID...: applies each planted bug to /repo, runs the check of its property (or PROPS), and undoes it.
for id in "$@"; do
 d=/verif/seeded/$id
 p=${PROPS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
 git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
 git -C /repo apply $d/patch.diff || { echo "$id: no apply"; continue; }
 for q in $p; do
  (cd /verif && VERIF_SEED=${VERIF_SEED:-1} bash check.sh $q quick > /tmp/try.$id.$q 2>&1); r=$?
  echo "$id: $q exit=$r $(grep -m1 -A0 '^  "' /tmp/try.$id.$q | cut -c1-160)"
 done
 git -C /repo checkout -q -- .
done
