#!/bin/bash
# trybug2.sh ID: like seed.sh, but only with /tmp/bug, without touching /repo
id=$1; d=/verif/seeded/$id
if grep -q demolib $d/demo.py; then cp /verif/tools/demo/demolib.py /verif/yang/vx.yang /verif/yang/vy.yang $d/; fi
cd /repo && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python $d/demo.py; echo "unchanged: $?"
cd /tmp/bug && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python $d/demo.py; echo "bug: $?"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; NCDIFF_SRC=/tmp/bug/src timeout 900 python3 check.py $p > /tmp/tb.out 2>&1; echo "check $p: $?"; grep -c VIOLATION /tmp/tb.out; grep counterexample /tmp/tb.out | head -3; tail -1 /tmp/tb.out
