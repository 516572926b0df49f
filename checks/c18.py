"""P18: magic mode computes the coefficients of the direct fit."""
import contextlib
import io
import math
import re

from checks import c13, catalog
from checks.c12 import avg, fixed
from checks.c13 import (U2, U3, U3R, U4, U5, U6, XA, XB, by_slice, build,
                        intercept_of, labels, moments, values)
from symx import core, harness, opcheck, sqltv
from symx.core import Sym
from symx.harness import Scenario
from symx.opcheck import as_list

PROPERTY = 'P18'
LEVEL = 'translation_validation'
ms = catalog.ms
TOL = 1 / 64.

# Centred, their norms are rational.
SQ1, SQ2 = [1, 1, 3, 3], [8, 0, 2, 2]


class Random(object):
  """numpy.random whose numbers are variables."""

  def __init__(self, env, pins=None):
    self.env, self.calls, self.pins = env, [], pins or {}

  def seed(self, *a, **k):
    pass

  def random(self, *shape, **k):
    import numpy as np
    del k
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
      shape = tuple(shape[0])
    i = len(self.calls)
    out = np.empty(shape, dtype=object)
    flat = out.reshape(-1)
    for j in range(flat.size):
      pin = self.pins.get(j // shape[-1])
      if pin:
        flat[j] = fixed(self.env, pin)[j % shape[-1]]
        continue
      flat[j] = self.env.real('init%d_%d' % (i, j))
      self.env.assume(bounded(self.env, flat[j], 4))
    self.calls.append(out.copy())
    return out if self.env.symbolic else out.astype(float)

  def rand(self, *shape):
    return self.random(shape)

  random_sample = uniform = standard_normal = normal = random

  def default_rng(self, *a, **k):
    return self

  RandomState = default_rng


@contextlib.contextmanager
def starting_points(env, pins=None):
  """The iterations of models.py start from arbitrary numbers."""
  models = ms().models
  base = models.np
  rng = Random(env, pins)

  class Numpy(object):
    random = rng

    def __getattr__(self, name):
      return getattr(base, name)

  models.np = Numpy()
  try:
    yield rng
  finally:
    models.np = base


@contextlib.contextmanager
def any_solution(env):
  """np.linalg.solve answers with free numbers and remembers what it solved."""
  import numpy as np
  la, calls = np.linalg, []
  orig = la.solve

  def solve(a, b, *args, **kw):
    n = len(b)
    d = np.empty(n, dtype=object)
    for j in range(n):
      d[j] = env.real('d%d_%d' % (len(calls), j))
      env.assume(bounded(env, d[j], 4))
    calls.append((a, b, d))
    return d if env.symbolic else d.astype(float)

  la.solve = solve
  try:
    yield calls
  finally:
    la.solve = orig


def run_sql(env, op, df, split, execute=None, pins=None):
  """(result, whether it said that it did not converge, starting points)"""
  said = io.StringIO()
  execute = execute or sqltv.executor(env, {'T': df}, [])
  with starting_points(env, pins) as rng, contextlib.redirect_stdout(said):
    got = op.compute_on_sql('T', split, execute, mode='magic')
  return got, "didn't converge" in said.getvalue(), rng.calls


def refuted(cond):
  return (not cond) if isinstance(cond, bool) else ~cond


def all_of(conds):
  r = True
  for c in conds:
    r = c & r if not isinstance(c, bool) else (r & c)
  return r


def bounded(env, x, b):
  return all_of([x <= b, -x <= b])


def near_subgradient(env, g, w, l1, l2, tau):
  """|d| <= tau for a d in g + l2 w + l1 sign(w) (decided by the sign of w)."""
  s = g + l2 * w
  if bool(w > 0):
    return bounded(env, s + l1, tau)
  if bool(w < 0):
    return bounded(env, s - l1, tau)
  return bounded(env, s, l1 + tau)


def number(v):
  return float(v.const_value()) if isinstance(v, Sym) else float(v)


def largest(gram):
  """The largest eigenvalue of a matrix of numbers."""
  import numpy as np
  return float(np.linalg.eigvalsh(np.array([[number(v) for v in r]
                                            for r in gram])).max())


def optimum(gram, rhs, l1, l2):
  """Coordinate descent on numbers, rounded to 24 binary digits."""
  k, w = len(rhs), [0.] * len(rhs)
  for _ in range(500):
    for j in range(k):
      s = number(rhs[j]) - sum(
          number(gram[j][q]) * w[q] for q in range(k) if q != j)
      w[j] = (max(s - l1, 0) + min(s + l1, 0)) / (number(gram[j][j]) + l2)
  return [round(v * 2**24) / 2**24 for v in w]


def slices(env, t, y, x, group, split, rows=None):
  for sk, rs in t.groups(split, rows).items():
    cells = t.groups(group, rs)
    yield (sk, [c13.YS[y][1](env, t, r) for r in cells.values()],
           [[f(env, t, r) for r in cells.values()]
            for f in c13.XS[x][1].values()])


def elastic(name, cls, y, x, ks, split=None, group='u', alpha=.25,
            l1_ratio=.5, intercept=True, normalize=False, steps=1,
            near=False, where=None, pin=None, **opts):
  """What converged satisfies the optimality conditions of

  |y - Xw - b|^2 / 2n + l1 |w|_1 + l2 |w|^2 / 2.
  pin: the responses of all slices but this one are generic numbers and their
  starting points are close to the optimum.
  """

  def fn(env):
    m = ms()
    n = len(next(iter(ks.values())))
    vals = values(env, n, ())
    if normalize and intercept:
      by = [as_list(split) and ks['g'][i] for i in range(n)]
      for c, q in (('x1', SQ1), ('x2', SQ2)):
        vals[c] = fixed(env, [
            (1 + 'bac'.index(by[i] or 'b')) * q[by[:i].count(by[i])]
            for i in range(n)])
    if pin is not None:
      some = fixed(env, [.75 - 2.5 * (i % 3) + 1.125 * i for i in range(n)])
      vals['y'] = [v if ks['g'][i] == pin else some[i]
                   for i, v in enumerate(vals['y'])]
    t = opcheck.Table(env, ks, vals)
    sp, gb = as_list(split), as_list(group)
    rows = [i for i in range(n) if where[1](t, i)] if where else None
    kw = dict(tol=TOL, max_iter=steps)
    l1r = 1 if cls == 'Lasso' else l1_ratio
    if cls == 'ElasticNet':
      kw['l1_ratio'] = l1_ratio
    op = build(m, cls, y, x, group, alpha, intercept, normalize,
               where and where[0], **kw)
    a = fixed(env, [alpha * l1r, alpha * (1 - l1r), TOL])
    l1, l2, tol = a
    data = list(slices(env, t, y, x, gb, sp, rows))
    stats, pins = [], {}
    for sk, ys, xs in data:
      gram, rhs = moments(env, ys, xs, intercept)
      k, norm = len(xs), None
      if normalize and intercept:
        norm = [env.sqrt(gram[j][j]) for j in range(k)]
        gram = [[env.div(gram[i][j], norm[i] * norm[j]) if i != j else 1
                 for j in range(k)] for i in range(k)]
        rhs = [env.div(v, s) for v, s in zip(rhs, norm)]
      gram = [[env.div(v, len(ys)) for v in r] for r in gram]
      rhs = [env.div(v, len(ys)) for v in rhs]
      top = largest(gram) if not norm else max(
          k / float(len(ys)), 1e-9)  # A bound: the trace.
      if intercept:
        top = max(top, 1.)
      if pin is not None and sk != pin and sk != (pin,):
        w = optimum(gram, rhs, float(alpha * l1r), float(alpha * (1 - l1r)))
        pins[len(stats)] = [number(avg(env, ys))] * bool(intercept) + w
      stats.append((gram, rhs, norm, top))
    if near:
      # Close to the optimum at the start.
      i = 0
      for (sk, ys, xs), (gram, rhs, norm, top) in zip(data, stats):
        k = len(xs)
        w0 = [env.real('init%d_%d' % (i, j))
              for j in range(k + bool(intercept))]
        eps = fixed(env, [1 / 4096. * min(1., top)])[0]
        if intercept:
          env.assume(bounded(env, w0[0] - avg(env, ys), eps))
          w0 = w0[1:]
        for j in range(k):
          g = sum(gram[j][q] * w0[q] for q in range(k)) - rhs[j]
          env.assume(near_subgradient(env, g, w0[j], l1, l2, eps))
        i += 1
    got, gave_up, calls = run_sql(env, op, t.df(), split, pins=pins)
    del calls
    lab = labels(cls, y, x, intercept)
    if list(got.columns) != lab:
      return env.fail('columns', 'got %s want %s' % (list(got.columns), lab))
    if sp and list(got.index.names) != sp:
      return env.fail('index', 'got %s' % list(got.index.names))
    keys = [opcheck.tup(harness.norm_key(k)) for k in got.index] if sp else [()]
    want = [opcheck.tup(harness.norm_key(sk)) for sk, _, _ in data]
    if sorted(keys, key=repr) != sorted(want, key=repr) or len(got) != len(
        want):
      return env.fail('slices', 'got %s want %s' % (keys, want))
    if near and gave_up:
      env.fail('stopping', 'started at the optimum but did not converge')
    for sk, (_, ys, xs), (gram, rhs, norm, top) in zip(want, data, stats):
      r = got.iloc[keys.index(sk)]
      w = list(r)
      k = len(xs)
      if intercept:
        b, w = w[0], w[1:]
        env.check_cell('intercept@%s' % (sk,), b,
                       intercept_of(env, ys, xs, w))
      if norm:
        w = [v * s for v, s in zip(w, norm)]
      if near:
        for j in range(k):
          w0 = env.real('init%d_%d' % (want.index(sk), j + bool(intercept)))
          env.check('stays@%s[%d]' % (sk, j), bounded(
              env, w[j] - w0, fixed(env, [2. ** -9])[0]))
      elif not gave_up:
        tau = fixed(env, [2 * top])[0] * tol
        for j in range(k):
          g = sum(gram[j][q] * w[q] for q in range(k)) - rhs[j]
          env.check('optimal@%s[%d]' % (sk, j),
                    near_subgradient(env, g, w[j], l1, l2, tau))

  return Scenario('%s:%s' % (cls[:6], name), fn, **opts)


# --- logistic regression ----------------------------------------------------
def sigmoid(env, z):
  if env.symbolic:
    z = Sym._coerce(z)
    e = core.uf('exp', z)
    return core.div(e, e + 1)
  return 1 / (1 + math.exp(-z))


class Stop(Exception):
  pass


class Queries(object):
  """Runs the queries and keeps the cells of the one with EXP."""

  def __init__(self, env, df):
    self.env = env
    self.real = sqltv.executor(env, {'T': df}, [], {'merge': True})
    self.cells = []  # [value, answer, used]

  def __call__(self, text):
    df = self.real(text)
    if 'EXP(' not in str(text).upper():
      return df
    for c in df.columns:
      for v in df[c]:
        self.cells.append([v, v, False])
    raise Stop()

  def same(self, a, b):
    if self.env.symbolic:
      a, b = Sym._coerce(a), Sym._coerce(b)
      return isinstance(a, Sym) and core.is_zero_poly(core.diff_term(a, b))
    return abs(a - b) <= 1e-7 * max(1e-3, abs(b))

  def find(self, q):
    """The answer given for the quantity q, or None."""
    for c in self.cells:
      if not c[2] and self.same(c[0], q):
        c[2] = True
        return c[1]
    return None


def a_number(name):
  """A generic value of a starting point."""
  i, j = name[4:].split('_')
  return .37 + .11 * int(i) - .23 * int(j)


class Cut(Queries):
  """Answers the query with EXP by free numbers.

  Which cell is which is found by running the query on numbers; what the
  iterations do is decided for any answer.
  """

  def __init__(self, env, df):
    self.env = env
    self.num = harness.ConcEnv({}, {})
    self.plain = sqltv.executor(env, {'T': df}, [])
    df = df.copy()
    for c in df.columns:
      df[c] = [float(v.const_value()) if isinstance(v, Sym) else v
               for v in df[c]]
    self.real = sqltv.executor(self.num, {'T': df}, [])
    self.cells = []
    self.queries = 0

  def number(self, v):
    import z3
    if not isinstance(v, Sym):
      return v
    names = [n for n in self.env.eng.var_order if n.startswith('init')]
    f = z3.simplify(z3.substitute(v.z3(), *[
        (z3.Real(n), z3.RealVal(str(a_number(n)))) for n in names]))
    return float(f.as_fraction())

  def __call__(self, text):
    text = str(text)
    if 'EXP(' not in text.upper():
      return self.plain(text)
    self.queries += 1
    if self.queries > 1:
      raise AssertionError('more than one iteration')
    df = self.real(re.sub('\u27e6(\\d+)\u27e7', lambda t: '(%r)' % self.number(
        self.env.eng.formats[int(t.group(1))][0]), text))
    cols = {}
    for c in df.columns:
      cols[c] = []
      for v in df[c]:
        r = self.env.real('cut%d' % len(self.cells))
        self.env.assume(bounded(self.env, r, 64))
        self.cells.append([v, r, False])
        cols[c].append(r)
    return self.env.frame(cols)

  def same(self, a, b):
    return abs(a - b) <= 1e-9 * max(1e-3, abs(b))


def objective(env, xs, ys, w0, penalty, C, k):
  """(gradient, Hessian) of the averaged objective at w0, l1 part excluded."""
  n = len(ys)
  grad = [0] * len(xs)
  hess = [[0] * len(xs) for _ in xs]
  for r in range(n):
    z = 0
    for c, v in zip(xs, w0):
      z = z + c[r] * v
    p = sigmoid(env, z)
    for a in range(len(xs)):
      grad[a] = grad[a] + xs[a][r] * (p - ys[r])
      for b in range(len(xs)):
        hess[a][b] = hess[a][b] + xs[a][r] * xs[b][r] * p * (1 - p)
  if penalty == 'l2':
    cc = fixed(env, [1 / C])[0]
    for j in range(k):
      grad[j] = grad[j] + w0[j] * cc
      hess[j][j] = hess[j][j] + cc
  return ([env.div(v, n) for v in grad],
          [[env.div(v, n) for v in r] for r in hess])


def gradients(name, y01, ks, x='one', split=None, penalty='l2', C=1.,
              l1_ratio=None, intercept=True, free=(), where=None, **opts):
  """The first query of the iterations computes the gradient (and Hessian) of

  the documented objective at any starting point.
  """

  def fn(env):
    m = ms()
    n = len(next(iter(ks.values())))
    vals = values(env, n, free)
    vals['y'] = list(y01)
    t = opcheck.Table(env, ks, vals)
    sp = as_list(split)
    rows = [i for i in range(n) if where[1](t, i)] if where else None
    kw = dict(penalty=penalty, C=C, tol=TOL, max_iter=1)
    if where:
      kw['where'] = where[0]
    if l1_ratio is not None:
      kw['l1_ratio'] = l1_ratio
    op = m.models.LogisticRegression(
        m.Max('y'), c13.XS[x][0](m), 'u', fit_intercept=intercept, **kw)
    q = Queries(env, t.df())
    start = None
    with starting_points(env) as rng:
      try:
        op.compute_on_sql('T', split, q, mode='magic')
        return env.fail('iterations', 'no query with EXP')
      except Exception as e:  # pylint: disable=broad-except
        while e is not None and not isinstance(e, Stop):
          if isinstance(e, (core.Unsupported, core.PathAbort)):
            raise
          last, e = e, e.__cause__ or e.__context__
        if e is None:
          raise last
      start = rng.calls[0]
    for i, (sk, rs) in enumerate(t.groups(sp, rows).items()):
      cells = t.groups(['u'], rs)
      ys = [t.vals['y'][r[0]] for r in cells.values()]
      xs = [[f(env, t, r) for r in cells.values()]
            for f in c13.XS[x][1].values()]
      k = len(xs)
      if intercept:
        xs = xs + [[1] * len(ys)]
      w0 = list(start[i]) if env.symbolic else [float(v) for v in start[i]]
      grad, hess = objective(env, xs, ys, w0, penalty, C, k)
      for a in range(len(xs)):
        env.check('gradient@%s[%d]' % (sk, a), q.find(grad[a]) is not None)
      if penalty in (None, 'l2'):
        for a in range(len(xs)):
          for b in range(a, len(xs)):
            env.check('hessian@%s[%d][%d]' % (sk, a, b),
                      q.find(hess[a][b]) is not None)

  return Scenario('gradient:%s' % name, fn, **opts)


def logistic(name, y01, ks, x='one', split=None, penalty='l2', C=1.,
             l1_ratio=None, intercept=True, free=(), **opts):
  """One step from arbitrary coefficients.

  The gradient (and Hessian) of the documented objective at the starting point
  must be among what the queries compute.  Without an l1 penalty the step
  solves H (w0 - w1) = g.  With one, if it stops, the optimality conditions
  hold.
  """

  def fn(env):
    m = ms()
    n = len(next(iter(ks.values())))
    vals = values(env, n, free)
    vals['y'] = list(y01)
    t = opcheck.Table(env, ks, vals)
    sp = as_list(split)
    kw = dict(penalty=penalty, C=C, tol=TOL, max_iter=1)
    if l1_ratio is not None:
      kw['l1_ratio'] = l1_ratio
    op = m.models.LogisticRegression(
        m.Max('y'), c13.XS[x][0](m), 'u', fit_intercept=intercept, **kw)
    cut = Cut(env, t.df())
    with any_solution(env) as solved:
      got, gave_up, calls = run_sql(env, op, t.df(), split, cut)
    cols = list(c13.XS[x][1])
    lab = ['LogisticRegression(max(y) ~ %s) Coefficient: %s' % (
        ' + '.join(cols), c) for c in ['intercept'] * intercept + cols]
    if list(got.columns) != lab:
      return env.fail('columns', 'got %s want %s' % (list(got.columns), lab))
    start = calls[0]
    groups = list(t.groups(sp).items())
    keys = [opcheck.tup(harness.norm_key(k)) for k in got.index] if sp else [()]
    if len(got) != len(groups) or len(start) != len(groups):
      return env.fail('slices', 'got %s' % keys)
    l1_like = penalty in ('l1', 'elasticnet')
    within, beyond = True, True
    for i, (sk, rs) in enumerate(groups):
      sk = opcheck.tup(harness.norm_key(sk))
      if sk not in keys:
        return env.fail('slices', 'got %s want %s' % (keys, sk))
      cells = t.groups(['u'], rs)
      n_obs = len(cells)
      ys = [t.vals['y'][r[0]] for r in cells.values()]
      xs = [[f(env, t, r) for r in cells.values()]
            for f in c13.XS[x][1].values()]
      k = len(xs)
      w1 = list(got.iloc[keys.index(sk)])
      if intercept:  # Kept last by the iterations.
        xs = xs + [[1] * n_obs]
        w1 = w1[1:] + w1[:1]
      w0 = list(start[i]) if env.symbolic else [float(v) for v in start[i]]
      at = [a_number('init0_%d' % (i * len(xs) + j)) if env.symbolic else
            w0[j] for j in range(len(xs))]
      num = lambda v: float(Sym._coerce(v).const_value()) if isinstance(
          v, Sym) else float(v)
      grad, hess = objective(cut.num, [[num(v) for v in c] for c in xs],
                             [num(v) for v in ys], at, penalty, C, k)
      g = [cut.find(v) for v in grad]
      if None in g:
        return env.fail('gradient', 'coefficient %d of slice %s' % (
            g.index(None), sk))
      if l1_like:
        if gave_up:
          continue
        ratio = 1 if penalty == 'l1' else l1_ratio
        l1, l2 = fixed(env, [ratio / C / n_obs, (1 - ratio) / C / n_obs])
        gram = [[sum(p * q for p, q in zip(a, b)) for b in xs] for a in xs]
        top = max(largest(gram) / 4 / n_obs, 1e-9)
        tau = fixed(env, [2 * top * TOL])[0]
        for j in range(k):
          env.check('optimal@%s[%d]' % (sk, j), near_subgradient(
              env, g[j], w1[j], l1, l2, tau))
        if intercept:
          env.check('optimal@%s intercept' % (sk,), bounded(env, g[k], tau))
        continue
      h = [[None] * len(xs) for _ in xs]
      for a in range(len(xs)):
        for b in range(a, len(xs)):
          h[a][b] = h[b][a] = cut.find(hess[a][b])
          if h[a][b] is None:
            return env.fail('hessian', '[%d][%d] of slice %s' % (a, b, sk))
      d = [a - b for a, b in zip(w0, w1)]
      if len(solved) == len(groups):
        # Whatever solves the system is the step.
        for a in range(len(xs)):
          env.check_cell('system@%s' % (sk,), solved[i][1][a], g[a])
          env.check_cell('step@%s[%d]' % (sk, a), d[a], solved[i][2][a])
          for b in range(len(xs)):
            env.check_cell('system@%s' % (sk,), solved[i][0][a][b], h[a][b])
      for a in range(len(xs) if len(solved) != len(groups) else 0):
        s = 0
        for hh, v in zip(h[a], d):
          s = s + hh * v
        env.check_cell('step@%s[%d]' % (sk, a), s, g[a])
      lo, hi = fixed(env, [TOL * 63 / 64, TOL * 65 / 64])
      within = all_of([within] + [bounded(env, v, lo) for v in d])
      beyond = all_of([beyond] + [bounded(env, v, hi) for v in d])
    if not l1_like:
      if gave_up:
        env.check('small step converges', refuted(within))
      else:
        env.check('large step does not converge', beyond)

  return Scenario('logistic:%s' % name, fn, **opts)


EXPR = "IF(g = 'a', 'p', 'q')"


def odd(*us):
  """Slices by an expression."""
  ks = by_slice(*us)
  return dict(ks, **{EXPR: ['p' if g == 'a' else 'q' for g in ks['g']]})


def scenarios(tier, seed):
  del seed
  out = []
  for cls in ('LinearRegression', 'Ridge'):
    A = lambda *a, cls=cls, **k: out.append(
        c13.scn(a[0], cls, *a[1:], mode='magic', **k))
    al = {} if cls == 'LinearRegression' else {'alpha': .5}
    for icpt in (True, False):
      for nz in (True, False):
        tag = ' no intercept' * (not icpt) + ' normalized' * nz
        kw = dict(intercept=icpt, normalize=nz, **al)
        A('free' + tag, 'sum', 'one', U3R, free=['x1'], cost=5, **kw)
        A('free by g' + tag, 'mean', 'mean', by_slice(U3, U3R), 'g',
          free=['x1'], cost=6, **kw)
        A('two' + tag, 'diff', 'two', U5, cost=3, **kw)
        A('three' + tag, 'sum', 'three', U6, cost=4, **kw)
        A('metriclist by two' + tag, 'sum', 'metriclist',
          by_slice(U5, U6, U4), ['k', 'g'], cost=5, **kw)
        A('where by g' + tag, 'sum', 'one', by_slice(U6, U6), 'g', where=(
            'x2 > 1.6', lambda t, i: t.vals['x2'][i] > 1.6), cost=5, **kw)
        A('one of two free' + tag, 'sum', 'two', U4, free=['x1'], cost=6, **kw)
        if cls == 'Ridge':
          A('any alpha' + tag, 'sum', 'two', U4, cost=4,
            **dict(kw, alpha='free'))
    for x in c13.XS:
      A('x ' + x, 'sum', x, U6 if x == 'three' else U5, **al)
    A('two groupings by g', 'sum', 'one',
      dict(by_slice(U4, U4), v=[1, 1, 2, 2, 1, 2, 2, 2]), 'g',
      group=['u', 'v'], normalize=True, **al)
    A('named', 'sum', 'two', by_slice(U5, U4), 'g', label='my model', **al)
    A('odd names', 'sum', 'one', odd(U4, U4), EXPR, normalize=True, **al)
    A('odd names two', 'sum', 'two', odd(U4, U4), [EXPR, 'g'], **al)
    A('text groups', 'sum', 'two', dict(u=['b', 'd', 'a', 'c', 'b']), **al)
  for nz in (True, False):
    out.append(elastic('odd names' + ' normalized' * nz, 'Lasso', 'sum', 'one',
                       odd(U4, U4), EXPR, intercept=False,
                       normalize=nz))
  for cls in ('Lasso', 'ElasticNet'):
    E = lambda *a, cls=cls, **k: out.append(elastic(a[0], cls, *a[1:], **k))
    for icpt in (True, False):
      for nz in (True, False):
        tag = ' no intercept' * (not icpt) + ' normalized' * nz
        kw = dict(intercept=icpt, normalize=nz)
        for near in (False, True):
          tg = tag + ' near' * near
          kn = dict(kw, near=near)
          E('one' + tg, 'sum', 'one', U4, cost=3, **kn)
          for p in [None] * (tier == 'thorough') + (
              [] if near else ['b' if icpt else 'a']):
            E('one by g' + tg + ' pin %s' % p, 'mean', 'one',
              by_slice(U4, U4), 'g', cost=5, pin=p, **kn)
          E('two' + tg, 'sum', 'two', U4, cost=6, **kn)
        E('two steps' + tag, 'sum', 'one', U4, steps=2, cost=6, **kw)
        E('strong' + tag, 'sum', 'one', U4, alpha=2., cost=3, **kw)
        for p in ([None, 'a'] if tier == 'thorough' else ['b']):
          E('metriclist by g' + tag + ' pin %s' % p, 'sum', 'metriclist',
            by_slice(U4, U4), 'g', cost=9, pin=p, **kw)
        if cls == 'ElasticNet' and (icpt == nz or tier == 'thorough'):
          for l in (.25, 1):
            E('ratio %s' % l + tag, 'sum', 'two', U4, cost=6, l1_ratio=l, **kw)
  for icpt in (True, False):
    for pen in ('l2', None, 'l1', 'elasticnet'):
      kw = dict(penalty=pen, intercept=icpt)
      if pen == 'elasticnet':
        kw['l1_ratio'] = .25
      tag = ' %s' % pen + ' no intercept' * (not icpt)
      G = lambda n, *a, **k: out.append(gradients(n + tag, *a, **dict(kw, **k)))
      L = lambda n, *a, **k: out.append(logistic(n + tag, *a, **dict(kw, **k)))
      for A in (G, L):
        A('one', [0, 1, 1], U3, cost=5)
        A('C', [0, 1, 1], U3, C=.25, cost=5)
        A('four', [0, 1, 1, 0], U4, cost=8)
        if A is G or not icpt or tier == 'thorough':
          if A is G or pen != 'l1' or tier == 'thorough':
            A('two', [1, 0, 1], U3, 'two', cost=8)
          A('by g', [0, 1, 1, 0], by_slice(U2, U2), split='g', cost=8)
      if pen in ('l2', None):
        G('free', [0, 1, 1], U3, free=['x1'], cost=5)
      G('repeated', [0, 1, 0, 1, 1], U3R, cost=5)
      G('metriclist', [0, 1, 1, 0], U4, 'metriclist', cost=5)
      G('number slices', [0, 1, 1, 0], dict(
          by_slice(U2, U2), k=[7, 3, 7, 3]), split='k', cost=8)
      G('odd names', [0, 1, 1, 0], odd(U2, U2), split=EXPR, cost=8)
      G('quotes', [0, 1, 1, 0], dict(by_slice(U2, U2), k=[
          'say "a"', "b's", 'say "a"', "b's"]), split='k', cost=8)
      G('backslash', [0, 1, 1, 0], dict(by_slice(U2, U2), k=[
          'a\\n', 'b', 'a\\n', 'b']), split='k', cost=8)
      G('where', [0, 1, 1, 0, 1, 1], by_slice(U3, U3), where=(
          'g == "a"', lambda t, i: t.keys['g'][i] == 'a'), cost=5)
  return out


DEFAULTS = dict(zero_div='assume', max_paths=800, budget_s=90)
THOROUGH = dict(budget_s=400, max_paths=8000)
FUNCTIONS = [
    'models.Model.compute_through_sql, '
    '{LinearRegression, Ridge, Lasso, ElasticNet, LogisticRegression}'
    '.compute_on_sql_magic_mode',
    'models.get_sufficient_stats_elements, get_data, '
    'apply_algorithm_to_sufficient_stats_elements, compute_ridge_coefs, '
    'compute_coef_for_normalize_ridge, compute_coef_for_elastic_net, center_x, '
    'fista_for_elastic_net, soft_thresholding, compute_normalized_coef, '
    'fista_for_logistic_regression, newtons_method, sig_minus_b',
    'metrics.MetricList.to_sql and sql.* below it',
]
EXPLANATION = (
    'compute_on_sql(mode=magic) runs with an executor that gives the generated '
    'SQL BigQuery semantics over symbolic tables. Closed forms must equal the '
    'normal equations of the data. The iterative solvers start from arbitrary '
    'numbers: whenever they say they converged the optimality conditions of '
    'the documented objective hold up to the tolerance, near the optimum they '
    'stop, and the Newton step of logistic regression solves the true Hessian '
    'system (EXP is an uninterpreted positive function with '
    'exp(-z) exp(z) = 1).')
BOUNDS = (
    'Up to 15 rows, 2-6 observations per fit, 1-3 regressors, up to 3 slices. '
    'Lasso and ElasticNet: fixed regressors, any response, any starting point, '
    '1-2 iterations. LogisticRegression: fixed regressors and labels, any '
    'starting point, one iteration.')
OUTSIDE = (
    'The rate of convergence after the first two iterations (momentum); '
    'collinear designs; null observations; rounding.')
ASSUMPTIONS = 'Every fit and every quotient is regular; see DESIGN.md.'

if __name__ == '__main__':
  harness.main('checks.c18')
