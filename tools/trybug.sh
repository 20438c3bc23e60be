#!/bin/bash
# trybug.sh ID [PROPERTY...]: run checks against a planted bug
id=$1; d=/verif/seeded/$id; shift
props=${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || exit 3
git -C /repo apply $d/patch.diff || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif
for p in $props; do
timeout 900 python3 check.py $p > /tmp/try.$id.$p 2>&1; echo "$id $p exit $? $(grep -c VIOLATION /tmp/try.$id.$p)"
done
