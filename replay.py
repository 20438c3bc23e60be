"""Replay counterexamples on the unmodified ncdiff of /repo.

replay.py FILE.json            prints the outcome, exit 1 when it still fails
replay.py --batch IN OUT       used by the checks"""
import importlib
import json
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0' or \
        sys.executable != '/opt/venv/bin/python':
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python',
              os.path.abspath(__file__)] + sys.argv[1:],
              dict(os.environ, PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1'))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('NCDIFF_SRC', '/repo/src'))
logging.disable(logging.CRITICAL)
sys.setrecursionlimit(5000)

from symex import runner  # noqa: E402
from symex.ctx import ConcCtx, SkipRun  # noqa: E402


def run(prop, items, known):
    mod = importlib.import_module('props.' + prop)
    scn = {s.name: s for s in mod.SCENARIOS}
    env = mod.setup()
    out = []
    for it in items:
        c = ConcCtx(it['inputs'], 'thorough', known)
        skipped = False
        try:
            runner.run_harness(scn[it['scenario']], c, env)
        except SkipRun:
            skipped = True
        out.append({'failed': c.failed, 'notes': c.notes,
                    'checked': c.checked, 'skipped': skipped})
    if hasattr(mod, 'teardown'):
        mod.teardown(env)
    return out


def main():
    if sys.argv[1] == '--batch':
        with open(sys.argv[2]) as f:
            j = json.load(f)
        out = run(j['property'], j['items'], j['known'])
        tmp = sys.argv[3] + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(out, f)
        os.rename(tmp, sys.argv[3])
        return 0
    with open(sys.argv[1]) as f:
        j = json.load(f)
    if j['scenario'] == '(setup)':
        run(j['property'], [], [])
        print('passes')
        return 0
    r = run(j['property'], [j], [])[0]
    for n in r['notes']:
        print(n)
    for msg, _ in r['failed']:
        print('FAILED: ' + msg)
    if not r['failed']:
        print('passes')
    return 1 if r['failed'] else 0


rc = main()
sys.stdout.flush()
os._exit(rc)
