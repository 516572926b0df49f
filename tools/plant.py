"""Plants, confirms and stores a seeded bug (dev tool).

plant.py SPEC.py where SPEC defines ID, PROPERTY, NEEDS, BREAKS,
EDITS=[(file, old, new)], DEMO (Python text).  plant.py --check ID cNN.. runs
checks against a copy of /repo with the patch.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''"""Exits 0 when the property holds, 1 when it is broken."""
import importlib.util, os, sys
sys.dont_write_bytecode = True
spec = importlib.util.spec_from_file_location(
    'meterstick', os.path.join(os.getcwd(), '__init__.py'),
    submodule_search_locations=[os.getcwd()])
mod = importlib.util.module_from_spec(spec)
sys.modules['meterstick'] = mod
spec.loader.exec_module(mod)
import numpy as np
import pandas as pd
from meterstick import *
from meterstick import sql, utils
'''
SH = '''#!/bin/bash
# Run with cwd /repo.
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def copy():
  d = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
  shutil.copytree('/repo', d + '/meterstick', ignore=shutil.ignore_patterns(
      '__pycache__'))
  return d


def tests(d):
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', MPLBACKEND='agg', PYTHONHASHSEED='0')
  p = subprocess.run(
      ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
       '-c', '/dev/null', '--rootdir=' + d, '-n', '8', '--tb=line', '-x',
       d + '/meterstick'], cwd=d, env=env, text=True, stdout=subprocess.PIPE,
      stderr=subprocess.STDOUT)
  return p.returncode == 0, p.stdout[-1500:]


def demo(folder, repo):
  t = tempfile.mkdtemp(prefix='demo_', dir='/tmp')
  for f in ('demo.sh', 'demo.py'):
    shutil.copy(os.path.join(folder, f), t)
  p = subprocess.run(['bash', t + '/demo.sh'], cwd=repo, text=True,
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  shutil.rmtree(t)
  return p.returncode, p.stdout[-800:]


def plant(path):
  spec = importlib.util.spec_from_file_location('spec', path)
  s = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(s)
  d = copy()
  r = d + '/meterstick'
  for f, old, new in s.EDITS:
    t = open(r + '/' + f).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(r + '/' + f, 'w').write(t.replace(old, new))
  out = os.path.join(VERIF, 'seeded', s.ID)
  os.makedirs(out, exist_ok=True)
  diff = subprocess.run(['git', 'diff'], cwd=r, text=True,
                        stdout=subprocess.PIPE).stdout
  open(out + '/patch.diff', 'w').write(diff)
  open(out + '/demo.py', 'w').write(PRE + s.DEMO)
  open(out + '/demo.sh', 'w').write(SH)
  os.chmod(out + '/demo.sh', 0o755)
  json.dump(dict(property=s.PROPERTY, needs=s.NEEDS, what_it_breaks=s.BREAKS),
            open(out + '/meta.json', 'w'), indent=1)
  a, b = demo(out, '/repo'), demo(out, r)
  print(s.ID, 'demo clean', a[0], 'patched', b[0], b[1][-300:])
  if a[0] != 0:
    print(a[1])
  ok, log = tests(d)
  print('tests', ok, '' if ok else log)
  good = ok and a[0] == 0 and b[0] != 0
  if not good:
    shutil.rmtree(out)
    print('DROPPED', s.ID)
  shutil.rmtree(d)
  return good


def check(bid, checks):
  d = copy()
  r = d + '/meterstick'
  subprocess.check_call(['git', 'apply', os.path.join(
      VERIF, 'seeded', bid, 'patch.diff')], cwd=r)
  for c in checks:
    p = subprocess.run(['./run.sh'] + c.split(), cwd=VERIF, text=True,
                       env=dict(os.environ, METERSTICK_REPO=r),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(bid, c, 'exit', p.returncode)
    lines = [l for l in p.stdout.splitlines() if 'KNOWN' not in l]
    print('\n'.join(l[:300] for l in lines[:4] + lines[-2:]))
  shutil.rmtree(d)


if __name__ == '__main__':
  if sys.argv[1] == '--check':
    check(sys.argv[2], sys.argv[3:])
  else:
    for f in sys.argv[1:]:
      plant(f)
