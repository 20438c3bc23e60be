"""setup: nothing to build; makes sure that the interpreter of the repository
and the solver work together."""
import subprocess
import sys
sys.exit(subprocess.call(
    ['/opt/venv/bin/python', '-B', '-c',
     'import sys; sys.path.insert(0, "."); from symex import engine;'
     'z = engine.z3; s = z.Solver(); x = z.Int("x"); s.add(x > 3, x < 4);'
     'assert s.check() == z.unsat; print("solver", z.get_version_string())']))
