"""Scenario environments, the parallel runner, replay, evidence and verdicts.

A scenario is a Python function of an `env`.  In a SymEnv its reals are
symbolic and every check is decided by the solver on every feasible path; in a
ConcEnv the very same function runs on plain float64 pandas with the values of
a solver model, which is how counterexamples are replayed against the real
code.
"""
import hashlib
import contextlib
import importlib
import importlib.util
import io
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import numpy as np
import pandas as pd

from symx import core
from symx.core import Sym, isnan

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('METERSTICK_REPO', '/repo')


def load_meterstick():
  """Imports the package from /repo's working tree."""
  if 'meterstick' in sys.modules:
    return sys.modules['meterstick']
  sys.dont_write_bytecode = True
  spec = importlib.util.spec_from_file_location(
      'meterstick', os.path.join(REPO, '__init__.py'),
      submodule_search_locations=[REPO])
  mod = importlib.util.module_from_spec(spec)
  sys.modules['meterstick'] = mod
  spec.loader.exec_module(mod)
  for sub in ('utils', 'sql', 'metrics', 'operations', 'diversity', 'models',
              'confidence_interval_display'):
    importlib.import_module('meterstick.' + sub)
  return mod


class CheckFailed(Exception):
  pass


def rnum(x):
  """Normalises a cell: nulls to nan, numpy scalars to Python floats."""
  if x is None:
    return float('nan')
  if isinstance(x, Sym):
    return x
  if isinstance(x, (bool, np.bool_)):
    return bool(x)
  if isinstance(x, (int, float, np.number, core.Frac)):
    return float(x)
  if x is pd.NA or x is pd.NaT:
    return float('nan')
  return x


def norm_key(k):
  if isinstance(k, tuple):
    return tuple(norm_key(x) for x in k)
  if isinstance(k, (np.integer,)):
    return int(k)
  if isinstance(k, (np.floating, float)):
    f = float(k)
    return int(f) if f == int(f) else f
  return k


def cells(obj):
  """A frame/series/scalar as {(row key, column key): cell}, plus a shape."""
  if isinstance(obj, pd.DataFrame):
    out = {}
    idx = [norm_key(i) for i in obj.index]
    cols = [norm_key(c) for c in obj.columns]
    dup = {}
    for i, r in enumerate(idx):
      for j, c in enumerate(cols):
        k = (r, c)
        n = dup.get(k, 0)
        dup[k] = n + 1
        if n:
          k = k + (n,)
        out[k] = obj.iat[i, j]
    return out
  if isinstance(obj, pd.Series):
    return cells(pd.DataFrame({'value': obj}))
  if isinstance(obj, dict):
    return {norm_key(k): v for k, v in obj.items()}
  if isinstance(obj, (list, tuple, np.ndarray)):
    return {i: v for i, v in enumerate(obj)}
  return {(): obj}


class Env(object):
  """What scenarios see."""
  symbolic = None

  def real(self, name, pos=False, nonneg=False):
    raise NotImplementedError

  def choose(self, name, n):
    raise NotImplementedError

  def pick(self, name, options):
    return options[self.choose(name, len(options))]

  def assume(self, cond):
    raise NotImplementedError

  def reals(self, prefix, n, **kw):
    return [self.real('%s%d' % (prefix, i), **kw) for i in range(n)]

  def series(self, xs):
    raise NotImplementedError

  def frame(self, cols):
    return pd.DataFrame({k: self.series(v) for k, v in cols.items()})

  # Generic scalar functions, valid in both environments.
  def sqrt(self, x):
    if isnan(x):
      return float('nan')
    if isinstance(x, Sym):
      return core.sqrt(x)
    if self.symbolic:
      return core.sqrt(Sym._coerce(x))
    return math.sqrt(x) if x >= 0 else float('nan')

  def log(self, x):
    if isnan(x):
      return float('nan')
    if isinstance(x, Sym):
      return core.uf('log', x)
    if self.symbolic:
      return core.uf('log', Sym._coerce(x))
    return math.log(x) if x > 0 else float('-inf')

  def intern(self, x):
    """x, as a variable of its own in symbolic runs that ask for it."""
    if isinstance(x, Sym) and self.eng.intern:
      return core.intern(x)
    return x

  def pow(self, a, b):
    if isnan(a) or isnan(b):
      return float('nan')
    if self.symbolic:
      return core.power(Sym._coerce(a), Sym._coerce(b))
    try:
      r = float(a)**float(b)
      return float('nan') if isinstance(r, complex) else r
    except ZeroDivisionError:
      return float('inf')

  def div(self, a, b):
    if isnan(a) or isnan(b):
      return float('nan')
    if self.symbolic:
      a, b = Sym._coerce(a), Sym._coerce(b)
      if isinstance(a, str) or isinstance(b, str):
        return float('nan')
      return core.div(a, b)
    a, b = float(a), float(b)
    if b == 0:
      return float('nan') if a == 0 or a != a else math.copysign(
          float('inf'), a)
    return a / b

  def abs(self, x):
    return float('nan') if isnan(x) else abs(x)

  def check_eq(self, label, got, want):
    """Structure and every cell of got equal those of want."""
    try:
      g, w = cells(got), cells(want)
    except core.Unsupported:
      raise
    if set(map(repr, g)) != set(map(repr, w)):
      return self.fail(
          label, 'shape: got %s want %s' % (sorted(map(repr, g)),
                                            sorted(map(repr, w))))
    w = {repr(k): v for k, v in w.items()}
    for k, v in g.items():
      self.check_cell('%s@%s' % (label, (k,)), v, w[repr(k)])

  def check(self, label, cond, detail=''):
    raise NotImplementedError

  def check_cell(self, label, a, b):
    raise NotImplementedError

  def fail(self, label, detail):
    raise NotImplementedError


class SymEnv(Env):
  symbolic = True

  def __init__(self, eng):
    self.eng = eng
    self.failures = []  # (label, detail, extra constraint or None)
    self.unknowns = []
    self.checked = 0
    self.labels = []
    self.reals_declared = []

  def real(self, name, pos=False, nonneg=False):
    v = self.eng.real(name)
    if name not in self.reals_declared:
      self.reals_declared.append(name)
      if pos:
        self.eng.assume(v > 0)
      if nonneg:
        self.eng.assume(v >= 0)
    return v

  def choose(self, name, n):
    return self.eng.choose(name, n)

  def assume(self, cond):
    if isinstance(cond, core.SymBool):
      self.eng.assume(cond)
    else:
      self.eng.assume(bool(cond))

  def series(self, xs):
    xs = list(xs)
    if any(isinstance(x, Sym) for x in xs):
      a = np.empty(len(xs), dtype=object)
      for i, x in enumerate(xs):
        a[i] = np.nan if x is None else x
      return pd.Series(a)
    return pd.Series(xs)

  def fail(self, label, detail, extra=None):
    self.failures.append((label, detail, extra))

  def check_cell(self, label, a, b):
    self.checked += 1
    if len(self.labels) < 40:
      self.labels.append(label)
    a, b = rnum(a), rnum(b)
    na, nb = isnan(a), isnan(b)
    if na or nb:
      if na != nb:
        self.fail(label, 'null mismatch: got %s want %s' % (_s(a), _s(b)))
      return
    if not isinstance(a, Sym) and not isinstance(b, Sym):
      if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if not _close(float(a), float(b), 1e-9):
          self.fail(label, 'got %r want %r' % (a, b))
      elif a != b:
        self.fail(label, 'got %r want %r' % (a, b))
      return
    a2, b2 = Sym._coerce(a), Sym._coerce(b)
    if a2 is None or b2 is None or isinstance(a2, str) or isinstance(b2, str):
      self.fail(label, 'got %s want %s' % (_s(a), _s(b)))
      return
    t = core.diff_term(a2, b2)
    # Two non-negative roots are equal iff their squares are.
    r, m = self.eng.decide_zero(t)
    if r == 'sat':
      self.fail(label, 'values differ', t != 0)
    elif r == 'unknown':
      self.unknowns.append(label)

  def check(self, label, cond, detail=''):
    self.checked += 1
    if len(self.labels) < 40:
      self.labels.append(label)
    if isinstance(cond, core.SymBool):
      e = core.z3.Not(cond.e)
      r, m = self.eng.decide(e)
      if r == 'sat':
        self.fail(label, detail or 'condition false', e)
      elif r == 'unknown':
        self.unknowns.append(label)
    elif not cond:
      self.fail(label, detail or 'condition false')


def _s(x):
  s = repr(x)
  return s if len(s) < 120 else s[:117] + '...'


def _close(a, b, rtol=1e-6):
  if a == b:
    return True
  if math.isinf(a) or math.isinf(b):
    return False
  return abs(a - b) <= rtol * max(1.0, abs(a), abs(b))


class ConcEnv(Env):
  symbolic = False

  def __init__(self, values, choices):
    self.values = values
    self.choices = choices
    self.failures = []
    self.checked = 0
    self.used_default = False

  def real(self, name, pos=False, nonneg=False):
    if name not in self.values:
      self.used_default = True
      self.values[name] = 1.0 + (len(self.values) * 37 % 11) / 4.0
    return float(self.values[name])

  def choose(self, name, n):
    if name not in self.choices:
      self.used_default = True
    v = self.choices.get(name, 0)
    if v >= n:
      raise CheckFailed('choice out of range')
    return v

  def assume(self, cond):
    if not cond:
      raise core.PathAbort('assumption false in replay')

  def series(self, xs):
    xs = list(xs)
    if all(x is None or isinstance(x, (int, float)) for x in xs) and any(
        isinstance(x, float) for x in xs):
      return pd.Series([np.nan if x is None else x for x in xs], dtype=float)
    return pd.Series(xs)

  def fail(self, label, detail, extra=None):
    self.failures.append((label, detail))

  def check_cell(self, label, a, b):
    self.checked += 1
    a, b = rnum(a), rnum(b)
    na, nb = isnan(a), isnan(b)
    if na or nb:
      if na != nb:
        self.fail(label, 'null mismatch: got %s want %s' % (_s(a), _s(b)))
      return
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
      if not _close(float(a), float(b)):
        self.fail(label, 'got %r want %r' % (a, b))
    elif a != b:
      self.fail(label, 'got %r want %r' % (a, b))

  def check(self, label, cond, detail=''):
    self.checked += 1
    if not bool(cond):
      self.fail(label, detail or 'condition false')


class Scenario(object):

  def __init__(self, name, fn, **opts):
    self.name = name
    self.fn = fn
    self.opts = opts


def run_concrete(scn, values, choices):
  """Returns (status, failures); status in ok|fail|skip."""
  env = ConcEnv(dict(values), dict(choices))
  try:
    with np.errstate(all='ignore'):
      with contextlib.redirect_stdout(io.StringIO()):
        scn.fn(env)
  except core.PathAbort as e:
    return 'skip', [('assume', str(e))]
  except Exception as e:  # pylint: disable=broad-except
    return 'fail', [('raises', '%s: %s' % (type(e).__name__, str(e)[:300]))]
  if env.failures:
    return 'fail', env.failures
  return 'ok', []


def _trim_tb(e):
  tb = traceback.extract_tb(e.__traceback__)
  return ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
          for f in tb[-8:]]


def run_scenario(scn, defaults):
  """Explores one scenario symbolically; returns a plain dict."""
  from symx import pdshim
  pdshim.install()
  t0 = time.time()
  o = dict(defaults)
  o.update(scn.opts)
  eng = core.Engine(
      timeout_ms=o.get('timeout_ms', 10000),
      branch_timeout_ms=o.get('branch_timeout_ms', 1500),
      zero_div=o.get('zero_div', 'assume'),
      sqrt_domain=o.get('sqrt_domain', 'assume'),
      log_domain=o.get('log_domain', 'assume'),
      max_paths=o.get('max_paths', 3000), intern=o.get('intern', False),
      deadline=t0 + o.get('budget_s', 120))
  max_twins = o.get('twins', 2)
  out = dict(name=scn.name, paths=0, aborted=0, checked=0, twins=0,
             violations=[], inconclusive=[], samples=[], assumed=0,
             reached=0)
  seen_viol = set()

  def confirm(models, choices, label, detail):
    tried = 0
    last = None
    for vals in models:
      tried += 1
      st, fails = run_concrete(scn, vals, choices)
      if st == 'fail':
        return dict(scenario=scn.name, label=label, detail=detail,
                    values=vals, choices=choices, failures=fails[:5])
      last = (st, fails)
    return None

  try:
    for n, res, err in eng.explore(_bind(scn)):
      out['paths'] += 1
      env = eng.current_env
      choices = dict(eng.choices)
      out['assumed'] += len(eng.assumptions)
      if isinstance(err, core.PathAbort):
        out['aborted'] += 1
        continue
      out['checked'] += env.checked
      if err is not None:
        models = list(eng.models())
        if not models:
          if eng.wit is not None and eng.wit_ok:
            models = [eng.witness_floats()]
        v = confirm(models, choices, 'raises',
                    '%s: %s' % (type(err).__name__, str(err)[:200]))
        if v:
          out['violations'].append(v)
        elif models:
          out['inconclusive'].append(
              dict(scenario=scn.name, kind='unsupported',
                   detail='%s: %s' % (type(err).__name__, str(err)[:300]),
                   tb=_trim_tb(err), choices=choices))
        else:
          r, _ = eng._solve([], eng.timeout_ms)
          if r == core.z3.unsat:
            out['aborted'] += 1
          else:
            out['inconclusive'].append(
                dict(scenario=scn.name, kind='error-no-model',
                     detail='%s: %s' % (type(err).__name__, str(err)[:300]),
                     tb=_trim_tb(err), choices=choices))
        if len(out['violations']) + len(out['inconclusive']) > 4:
          break
        continue
      for label, detail, extra in env.failures[:6]:
        if label in seen_viol:
          continue
        models = list(eng.models(extra))
        if not models:
          r, _ = eng._solve([extra] if extra is not None else [],
                            eng.timeout_ms)
          if r == core.z3.unsat:
            continue
        v = confirm(models, choices, label, detail)
        if v:
          seen_viol.add(label)
          out['violations'].append(v)
          break
        out['inconclusive'].append(
            dict(scenario=scn.name, kind='not-reproduced', label=label,
                 detail=detail, choices=choices,
                 values=models[0] if models else None))
      if env.unknowns:
        # Undecided: the models of the path may still show a violation.
        v = confirm(list(eng.models()), choices, env.unknowns[0],
                    'solver undecided')
        if v:
          seen_viol.add(env.unknowns[0])
          out['violations'].append(v)
          continue
      for label in env.unknowns[:3]:
        out['inconclusive'].append(
            dict(scenario=scn.name, kind='solver-unknown', label=label,
                 choices=choices))
      if not env.failures and env.checked:
        # Reachability witness and concrete twin (validates the encoding).
        if out['twins'] < max_twins or out['reached'] == 0:
          bad = []
          for vals in eng.models():
            out['reached'] += 1
            st, fails = run_concrete(scn, vals, choices)
            if st == 'skip':
              continue
            out['twins'] += 1
            if st == 'fail':
              # One model may sit on a singular point where rounding decides;
              # two independent ones are a violation.
              if any(b[0] == vals for b in bad):
                continue
              bad.append((vals, fails))
              if len(bad) < 2:
                continue
              out['violations'].append(
                  dict(scenario=scn.name, label='twin',
                       detail='fails on the concrete twin of a path the '
                       'solver passed', values=vals, choices=choices,
                       failures=fails[:5]))
            if len(out['samples']) < 1:
              out['samples'].append(
                  dict(scenario=scn.name, choices=choices, values=vals,
                       path_condition=[str(f)[:120] for f in eng.facts[:6]],
                       assertions=env.labels[:6]))
            break
      if len(out['violations']) >= o.get('max_violations', 2):
        break
  except core.Budget as e:
    out['inconclusive'].append(
        dict(scenario=scn.name, kind='budget', detail=str(e)))
  if not out['violations'] and not out['inconclusive'] and (
      not out['reached'] or not out['checked']) and not o.get('may_be_empty'):
    out['inconclusive'].append(
        dict(scenario=scn.name, kind='vacuous',
             detail='no path reached an assertion with a model'))
  out['stats'] = eng.stats.as_dict()
  out['wall_s'] = time.time() - t0
  return out


def _bind(scn):

  def fn(eng):
    env = SymEnv(eng)
    eng.current_env = env
    with np.errstate(all='ignore'):
      with contextlib.redirect_stdout(io.StringIO()):
        scn.fn(env)
    return env

  return fn


# ----------------------------------------------------------------- runner


def _worker(args):
  modname, i, defaults, tier, seed, hard_s = args
  mod = importlib.import_module(modname)
  scn = _SCN[i]

  def alarm(*_):
    raise core.Budget('hard time limit')

  signal.signal(signal.SIGALRM, alarm)
  signal.alarm(int(hard_s))
  try:
    return run_scenario(scn, defaults)
  except core.Budget as e:
    return dict(name=scn.name, paths=0, aborted=0, checked=0, twins=0,
                violations=[], samples=[], assumed=0, reached=0,
                inconclusive=[dict(scenario=scn.name, kind='budget',
                                   detail=str(e))],
                stats=core.Stats().as_dict(), wall_s=hard_s)
  except Exception as e:  # pylint: disable=broad-except
    return dict(name=scn.name, paths=0, aborted=0, checked=0, twins=0,
                violations=[], samples=[], assumed=0, reached=0,
                inconclusive=[dict(scenario=scn.name, kind='harness-error',
                                   detail='%s: %s' % (type(e).__name__, e),
                                   tb=_trim_tb(e))],
                stats=core.Stats().as_dict(), wall_s=0)
  finally:
    signal.alarm(0)


_SCN = []


def known_findings(prop):
  path = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    data = json.load(f)
  return [k for k in data.get('findings', []) if k['property'] == prop]


def main(modname):
  """Entry point of a check: `python -m checks.<mod>`."""
  mod = importlib.import_module(modname)
  prop = mod.PROPERTY
  tier = os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1'))
  if len(sys.argv) > 2 and sys.argv[1] == '--replay':
    sys.exit(replay(mod, sys.argv[2]))
  only = None
  if len(sys.argv) > 2 and sys.argv[1] == '--only':
    only = sys.argv[2]
  t0 = time.time()
  load_meterstick()
  from symx import pdshim
  pdshim.install()
  global _SCN
  _SCN = mod.scenarios(tier, seed)
  if only:
    _SCN = [s for s in _SCN if only in s.name]
  names = [s.name for s in _SCN]
  assert len(set(names)) == len(names), [
      n for n in names if names.count(n) > 1]
  defaults = dict(getattr(mod, 'DEFAULTS', {}))
  if tier == 'thorough':
    defaults.update(getattr(mod, 'THOROUGH', {}))
  hard = defaults.get('budget_s', 120) * 2 + 30
  jobs = [(modname, i, defaults, tier, seed, hard) for i in range(len(_SCN))]
  # Longest first when known.
  jobs.sort(key=lambda j: -_SCN[j[1]].opts.get('cost', 1))
  results = []
  nproc = int(os.environ.get('VERIF_JOBS', '8'))
  ctx = mp.get_context('fork')
  total_budget = float(os.environ.get('VERIF_BUDGET_S', '800' if tier ==
                                      'quick' else '3300'))
  with ctx.Pool(nproc, maxtasksperchild=25) as pool:
    it = pool.imap_unordered(_worker, jobs, chunksize=1)
    done = set()
    while len(results) < len(jobs):
      try:
        r = it.next(timeout=max(1, total_budget - (time.time() - t0)))
      except mp.TimeoutError:
        for s in _SCN:
          if s.name not in done:
            results.append(
                dict(name=s.name, paths=0, aborted=0, checked=0, twins=0,
                     violations=[], samples=[], assumed=0, reached=0,
                     inconclusive=[dict(scenario=s.name, kind='budget',
                                        detail='total time budget')],
                     stats=core.Stats().as_dict(), wall_s=0))
        pool.terminate()
        break
      done.add(r['name'])
      results.append(r)
      if os.environ.get('VERIF_FIRST') and r['violations'] and not any(
          r['name'] in f['scenarios'] for f in known_findings(prop)):
        pool.terminate()  # For developing: the first violation is enough.
        break
      if os.environ.get('VERIF_VERBOSE'):
        print('%-60s paths=%d checked=%d q=%d solver=%.1fs wall=%.1fs %s' %
              (r['name'], r['paths'], r['checked'], r['stats']['queries'],
               r['stats']['solver_s'], r['wall_s'],
               'VIOL' if r['violations'] else
               ('INC' if r['inconclusive'] else '')), flush=True)
  sys.exit(report(mod, prop, tier, seed, results, t0))


def replay_file(prop, v):
  d = os.path.join(VERIF, 'replays')
  os.makedirs(d, exist_ok=True)
  h = hashlib.sha1(
      json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
  path = os.path.join(d, '%s-%s.json' % (prop, h))
  with open(path, 'w') as f:
    json.dump(v, f, indent=1, default=str)
  return path


def replay(mod, path):
  load_meterstick()
  with open(path) as f:
    v = json.load(f)
  for tier in ('quick', 'thorough'):
    for s in mod.scenarios(tier, int(os.environ.get('VERIF_SEED', '1'))):
      if s.name == v['scenario']:
        st, fails = run_concrete(s, v['values'], v['choices'])
        print('replay of %s: %s' % (v['scenario'], st))
        for f in fails[:8]:
          print('  %s: %s' % tuple(f))
        return 1 if st == 'fail' else 0
  print('no scenario named %s' % v['scenario'])
  return 2


def report(mod, prop, tier, seed, results, t0):
  known = known_findings(prop)
  stats = core.Stats()
  viol, inc = [], []
  known_hit = {}
  for r in results:
    stats.merge(r['stats'])
    for v in r['violations']:
      k = None
      for kf in known:
        if v['scenario'] in kf.get('scenarios', []) and all(
            f[0].startswith(kf.get('label', '')) and
            kf.get('detail', '') in f[1] for f in v['failures']):
          k = kf
      if k:
        known_hit[k['id']] = k
      else:
        viol.append(v)
    inc.extend(r['inconclusive'])
  for kf in known:
    print('KNOWN-FINDING: property=%s %s%s' %
          (prop, kf['what'], '' if kf['id'] in known_hit else
           ' (not hit in this run)'))
  # Confirm in fresh processes without the shims before reporting.
  confirmed = []
  unconf = []
  for v in viol[:6]:
    path = replay_file(prop, v)
    import subprocess
    p = subprocess.run(
        [sys.executable, '-m', mod.__name__ if mod.__name__ != '__main__' else
         mod.__spec__.name, '--replay', path],
        cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 1:
      confirmed.append((v, path))
      print('VIOLATION property=%s replay=%s' % (prop, path))
      print('  scenario %s' % v['scenario'])
      for f in v['failures'][:3]:
        print('  %s: %s' % tuple(f))
    else:
      unconf.append((v, p.stdout[-2000:]))
  for v, outp in unconf:
    inc.append(dict(scenario=v['scenario'], kind='not-reproduced-in-process',
                    detail=outp))
  functions = getattr(mod, 'FUNCTIONS', [])
  samples = []
  for r in sorted(results, key=lambda r: r['name']):
    samples.extend(r['samples'])
  cov = dict(
      explanation=getattr(mod, 'EXPLANATION', ''),
      functions_encoded=functions,
      bounds=getattr(mod, 'BOUNDS', {}).get(tier) if isinstance(
          getattr(mod, 'BOUNDS', {}), dict) else mod.BOUNDS,
      outside=getattr(mod, 'OUTSIDE', []),
      scenarios=len(results),
      scenarios_with_reachability_witness=sum(
          1 for r in results if r['reached']),
      paths_explored=stats.paths,
      paths_cut_by_assumptions=sum(r['aborted'] for r in results),
      branch_points=stats.branches,
      domain_assumptions=sum(r['assumed'] for r in results),
      assertions_decided=sum(r['checked'] for r in results),
      queries_discharged=stats.queries,
      queries_unsat=stats.unsat,
      queries_sat=stats.sat,
      queries_unknown=stats.unknown,
      solver_time_s=round(stats.solver_s, 2),
      concrete_twins_replayed=sum(r['twins'] for r in results),
      scenarios_undecided=len(set(i['scenario'] for i in inc)),
      inconclusive=inc[:20],
      # Level-specific counts.
      states=stats.paths,
      transitions=stats.branches,
      traces_validated_against_impl=sum(r['twins'] for r in results),
      programs=len(results),
      disagreements_checked=sum(r['checked'] for r in results),
      samples=samples[:6],
  )
  ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
            assumptions=getattr(mod, 'ASSUMPTIONS', []),
            wall_s=round(time.time() - t0, 2), violations=len(confirmed))
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  print('%s [%s]: %d scenarios, %d paths, %d assertions, %d queries '
        '(%.1fs solver), %d twins, %d violations, %d inconclusive, %.1fs' %
        (prop, tier, len(results), stats.paths, cov['assertions_decided'],
         stats.queries, stats.solver_s, cov['concrete_twins_replayed'],
         len(confirmed), len(inc), time.time() - t0))
  for i in inc[:8]:
    print('INCONCLUSIVE: %s' % json.dumps(i, default=str)[:900])
  if confirmed:
    return 1
  if inc:
    # Scenarios that were not decided are listed as such (here and in the
    # evidence) and are not part of what was explored.  When they are most of
    # the check, it has no answer.
    undecided = len(set(i['scenario'] for i in inc))
    print('UNDECIDED: %d of %d scenarios' % (undecided, len(results)))
    return 2 if 2 * undecided > len(results) else 0
  return 0
