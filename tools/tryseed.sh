#!/bin/bash
# tryseed.sh ID [CHECK...]   Runs the checks against a planted bug.
D=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo apply "$D/patch.diff" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
for c in ${@:-$P}; do
  (cd /verif && timeout 900 ./check $c > /tmp/try.out 2>&1; r=$?; echo "$(basename $D) $c rc=$r $(grep -c '^VIOLATION' /tmp/try.out) violations; $(tail -1 /tmp/try.out)")
done
