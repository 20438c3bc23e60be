#!/bin/bash
# seed.sh ID: /tmp/bug is a copy of /repo with the planted change, demo.py and
# meta.json are in /verif/seeded/ID. Confirms the bug and writes patch.diff.
set -e
id=$1; d=/verif/seeded/$id
[ -f $d/demo.py ]
if grep -q demolib $d/demo.py; then cp /verif/tools/demo/demolib.py /verif/yang/vx.yang /verif/yang/vy.yang $d/; fi
[ -f $d/demo.sh ] || cat > $d/demo.sh <<'X'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 exec timeout 200 /opt/venv/bin/python "$here/demo.py"
X
git -C /tmp/bug diff > $d/patch.diff
[ -s $d/patch.diff ]
cd /repo && git diff --quiet
bash $d/demo.sh || { echo "demo fails on the unchanged tree"; exit 1; }
git apply $d/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh
if bash $d/demo.sh; then echo "demo passes with the bug"; exit 1; fi
bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.log 2>&1 || true
python3 - <<'X'
import json,sys
o=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
want=set(b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests'))
miss=want-set(o['passed'])
print(len(miss),'baseline tests fail',list(miss)[:3]); sys.exit(bool(miss))
X
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; set +e
timeout 900 python3 check.py $p > /tmp/seed.out 2>&1; rc=$?
echo "$id: check $p exit $rc: $(grep -c VIOLATION /tmp/seed.out) violations"; tail -2 /tmp/seed.out
