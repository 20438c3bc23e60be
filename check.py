"""check.py PROPERTY [--tier T] [--only SCENARIO,...] [--budget S]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or \
        sys.executable != '/opt/venv/bin/python' or \
        not os.environ.get('PYTHONDONTWRITEBYTECODE'):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    os.execve('/opt/venv/bin/python',
              ['/opt/venv/bin/python', os.path.abspath(__file__)] +
              sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse  # noqa: E402
import logging  # noqa: E402
logging.disable(logging.CRITICAL)
from symex import runner  # noqa: E402

a = argparse.ArgumentParser()
a.add_argument('property')
a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
a.add_argument('--only')
a.add_argument('--budget', type=float)
a.add_argument('--jobs', type=int)
o = a.parse_args()
sys.stdout.reconfigure(line_buffering=True)
sys.setrecursionlimit(5000)
rc = runner.main(o.property, o.tier, o.budget, o.jobs,
                 o.only.split(',') if o.only else None)
sys.stdout.flush()
os._exit(rc)
