"""P13: linear models are the least-squares solution on every path."""
import contextlib

from checks import catalog
from checks.c12 import avg, det, fixed
from symx import harness, opcheck, ref, sqltv
from symx.harness import Scenario
from symx.opcheck import as_list

PROPERTY = 'P13'
LEVEL = 'other'
ms = catalog.ms
MODEL = {'LinearRegression': 'OLS', 'Ridge': 'Ridge', 'Lasso': 'Lasso',
         'ElasticNet': 'ElasticNet', 'LogisticRegression': 'LogisticRegression'}


# --- the definition ---------------------------------------------------------
def moments(env, ys, xs, intercept):
  """(x'x, x'y) about the mean, or about zero without an intercept."""
  dot = lambda a, b: sum(p * q for p, q in zip(a[1:], b[1:])) + a[0] * b[0]
  if intercept:
    my = avg(env, ys)
    ys = [v - my for v in ys]
    xs = [[v - m for v in c] for c, m in zip(xs, [avg(env, c) for c in xs])]
  gram = [[dot(a, b) for b in xs] for a in xs]
  return gram, [dot(a, ys) for a in xs]


def intercept_of(env, ys, xs, w):
  b = avg(env, ys)
  for c, v in zip(xs, w):
    b = b - avg(env, c) * v
  return b


def solution(env, ys, xs, alpha, intercept, normalize):
  """Coefficients (with the intercept first) that minimise the objective

  |y - Xw - b|^2 + alpha |w|^2, w in units of the normalised columns if
  normalize.
  """
  gram, rhs = moments(env, ys, xs, intercept)
  n = len(xs)
  for j in range(n):
    if normalize and intercept:
      gram[j][j] = gram[j][j] * (1 + alpha)
    else:
      gram[j][j] = gram[j][j] + alpha
  d = det(gram)
  w = []
  for j in range(n):
    w.append(env.div(
        det([r[:j] + [b] + r[j + 1:] for r, b in zip(gram, rhs)]), d))
  return ([intercept_of(env, ys, xs, w)] if intercept else []) + w


# --- tables -----------------------------------------------------------------
XA = [3., 1., 4., 1.5, 5., 9., 2., 6., 5.5, 3.5, 8., 9.5, 7., 9.25, 3.25, 2.5]
XA += [6.25, 1.75, 4.5, 7.75]
XB = [2., 7., 1., 8., 2.5, 8.5, 1.25, 8.25, 4., 5., 9., .5, 4.5, 2.25, 3., 6.]
XB += [3.75, .25, 8.75, 5.5]
XC = [1., 4., 1.5, 4.25, 2., 1.75, 3., 5., 6., 2.5, 3.25, .5, 7., 4., 8., 9.]
XC += [2.25, 6.75, .75, 3.5]

U2 = dict(u=[2, 1])
U3 = dict(u=[2, 1, 3])
U3R = dict(u=[2, 1, 2, 3, 1])
U4 = dict(u=['d', 'a', 'c', 'b'])
U5 = dict(u=[5, 1, 4, 2, 3, 4, 1])
U6 = dict(u=[6, 1, 4, 2, 3, 5])


def by_slice(*parts):
  """Rows of the parts, interleaved, slices in g and k."""
  rows = []
  for i in range(max(len(p['u']) for p in parts)):
    for g, p in zip('bac', parts):
      if i < len(p['u']):
        rows.append((g, p['u'][i]))
  return dict(g=[r[0] for r in rows], u=[r[1] for r in rows],
              k=[1 + 'bac'.index(r[0]) // 2 for r in rows])


SUM = lambda c: lambda e, t, r: ref.total(e, t.col(c, r))
MEAN = lambda c: lambda e, t, r: ref.mean(e, t.col(c, r))
# How x is handed over: maker, {label: formula}
XS = {
    'one': (lambda m: m.Sum('x1'), {'sum(x1)': SUM('x1')}),
    'mean': (lambda m: m.Mean('x1', name='m'), {'m': MEAN('x1')}),
    'list of one': (lambda m: [m.Sum('x1')], {'sum(x1)': SUM('x1')}),
    'two': (lambda m: [m.Sum('x1'), m.Sum('x2')],
            {'sum(x1)': SUM('x1'), 'sum(x2)': SUM('x2')}),
    'metriclist': (lambda m: m.MetricList([m.Mean('x2', name='b'),
                                           m.Sum('x1', name='a')]),
                   {'b': MEAN('x2'), 'a': SUM('x1')}),
    'three': (lambda m: [m.Sum('x1'), m.Mean('x2'), m.Sum('x3')],
              {'sum(x1)': SUM('x1'), 'mean(x2)': MEAN('x2'),
               'sum(x3)': SUM('x3')}),
    'composite': (lambda m: [(m.Sum('x1') - 2 * m.Mean('x2')).set_name('c')],
                  {'c': lambda e, t, r: SUM('x1')(e, t, r) - 2 * MEAN('x2')(
                      e, t, r)}),
    'filtered': (lambda m: [m.Sum('x1', where='x2 > 1.1', name='f')],
                 {'f': lambda e, t, r: ref.total(e, [
                     t.vals['x1'][i] for i in r if t.vals['x2'][i] > 1.1])}),
}
X_NAMES = {
    'composite': ['c'], 'filtered': ['f'], 'metriclist': ['b', 'a'],
    'mean': ['m'],
}
YS = {
    'sum': (lambda m: m.Sum('y'), SUM('y'), 'sum(y)'),
    'mean': (lambda m: m.Mean('y', name='r'), MEAN('y'), 'r'),
    'diff': (lambda m: (m.Sum('y') - m.Sum('x3')).set_name('d'),
             lambda e, t, r: SUM('y')(e, t, r) - SUM('x3')(e, t, r), 'd'),
}


def values(env, n, free):
  """x1, x2, x3 fixed or (named in free) variable; y always variable."""
  vals = {'y': env.reals('y', n)}
  for c, fx in (('x1', XA), ('x2', XB), ('x3', XC)):
    vals[c] = env.reals(c, n) if c in free else fixed(env, fx[:n])
  return vals


def build(m, cls, y, x, group, alpha, intercept, normalize, where, call='on',
          **kw):
  args = dict(fit_intercept=intercept)
  if cls != 'LogisticRegression':
    args['normalize'] = normalize
  if where:
    args['where'] = where
  if cls not in ('LinearRegression', 'LogisticRegression'):
    args['alpha'] = alpha
  args.update(kw)
  mod = getattr(m.models, cls)
  if call == 'called':
    x = XS[x][0](m)
    xs = list(x) if isinstance(x, (list, m.MetricList)) else [x]
    return mod(group_by=group, **args)(m.MetricList([YS[y][0](m)] + xs))
  return mod(YS[y][0](m), XS[x][0](m), group, **args)


def labels(cls, y, x, intercept, name=None):
  cols = list(XS[x][1])
  top = name or '%s(%s ~ %s)' % (MODEL[cls], YS[y][2], ' + '.join(cols))
  return ['%s Coefficient: %s' % (top, c)
          for c in (['intercept'] if intercept else []) + cols]


def expected(env, t, cls, y, x, group, split, alpha, intercept, normalize,
             rows=None, name=None, solver=None):
  out = {}
  lab = labels(cls, y, x, intercept, name)
  for sk, rs in t.groups(split, rows).items():
    cells = t.groups(group, rs)
    ys = [YS[y][1](env, t, r) for r in cells.values()]
    xs = [[f(env, t, r) for r in cells.values()] for f in XS[x][1].values()]
    if solver:
      co = solver(sk, ys, xs)
    else:
      co = solution(env, ys, xs, 0 if cls == 'LinearRegression' else alpha,
                    intercept, normalize)
    for c, v in zip(lab, co):
      out[(sk, c)] = v
  return out


def scn(name, cls, y, x, ks, split=None, group='u', alpha=1, intercept=True,
        normalize=False, free=(), where=None, call='on', label=None, dup=False,
        mode=None, **opts):

  def fn(env):
    m = ms()
    n = len(next(iter(ks.values())))
    t = opcheck.Table(env, ks, values(env, n, free))
    sp, gb = as_list(split), as_list(group)
    rows = None
    if where:
      rows = [i for i in range(n) if where[1](t, i)]
    if alpha == 'free':
      a = env.real('alpha', nonneg=True)
    else:
      a = fixed(env, [alpha])[0]
    op = build(m, cls, y, x, group, a, intercept, normalize,
               where and where[0], call, **({'name': label} if label else {}))
    df = t.df(index=[3] * n if dup else None)
    before = df.copy()
    if mode:
      ex = sqltv.executor(env, {'T': df}, [])
      got = op.compute_on_sql('T', split, ex, mode=mode)
    elif call == 'melted':
      got = m.utils.unmelt(op.compute_on(df, split, melted=True))
    elif call == 'twice':
      first = op.compute_on(df, split)
      again = op.compute_on(df, split)
      env.check_eq('again', again, first)
      got = again
    else:
      got = op.compute_on(df, split)
    want = expected(env, t, cls, y, x, gb, sp, a, intercept, normalize, rows,
                    label)
    opcheck.expect(env, name, got, want, sp or [None],
                   labels(cls, y, x, intercept, label), absent_ok=False)
    env.check_eq('input frame', df, before)

  full = '%s:%s' % (cls[:6], name)
  return Scenario(full, fn, **opts)


# --- the penalised models: what is handed to sklearn, and what is done with it
@contextlib.contextmanager
def recorder(env, classes=1):
  """sklearn's fit returns arbitrary coefficients and remembers its input."""
  import numpy as np
  from sklearn import linear_model as lm
  calls = []

  def fit(self, X, y, *a, **kw):
    i = len(calls)
    k = np.asarray(X, dtype=object).shape[1]
    rows = [list(r) for r in np.asarray(X, dtype=object)]
    if isinstance(self, lm.LogisticRegression):
      co = np.empty((classes, k), dtype=object)
      b = np.empty(classes, dtype=object)
      for c in range(classes):
        b[c] = env.real('b%d_%d' % (i, c))
        for j in range(k):
          co[c, j] = env.real('w%d_%d_%d' % (i, c, j))
      self.classes_ = np.array(range(classes if classes > 1 else 2))
      self.coef_, self.intercept_ = co, b if self.fit_intercept else (
          np.zeros(classes))
    else:
      co = np.empty(k, dtype=object)
      for j in range(k):
        co[j] = env.real('w%d_%d' % (i, j))
      self.coef_ = co
      self.intercept_ = env.real('b%d' % i) if self.fit_intercept else 0.0
    if not env.symbolic:
      self.coef_ = self.coef_.astype(float)
      if classes > 1 or isinstance(self, lm.LogisticRegression):
        self.intercept_ = self.intercept_.astype(float)
    calls.append((self.get_params(), rows,
                  list(np.asarray(y, dtype=object).ravel()), self.coef_,
                  self.intercept_))
    return self

  saved = {}
  for c in (lm.ElasticNet, lm.Lasso, lm.LogisticRegression):
    saved[c] = c.__dict__.get('fit')
    c.fit = fit
  try:
    yield calls
  finally:
    for c, f in saved.items():
      if f is None:
        del c.fit
      else:
        c.fit = f


def handed_over(name, cls, y, x, ks, split=None, group='u', alpha=.5,
                intercept=True, normalize=False, free=(), where=None,
                classes=1, params=None, call='on', **opts):
  """The regressors, response and options given to sklearn are those of the

  documented objective, and its answer is reported in the units of x.
  """
  params = dict(params or {})

  def fn(env):
    m = ms()
    n = len(next(iter(ks.values())))
    t = opcheck.Table(env, ks, values(env, n, free))
    sp, gb = as_list(split), as_list(group)
    rows = [i for i in range(n) if where[1](t, i)] if where else None
    with recorder(env, classes) as calls:
      op = build(m, cls, y, x, group, alpha, intercept, normalize,
                 where and where[0], call, **params)
      got = op.compute_on(t.df(), split)
    slices = list(t.groups(sp, rows).items())
    if len(calls) != len(slices):
      return env.fail(name, '%d fits for %d slices' % (
          len(calls), len(slices)))
    want = {}
    lab = labels(cls, y, x, intercept)
    logit = cls == 'LogisticRegression'
    if classes > 1:
      top = lab[0].rsplit(': ', 1)[0]
      cols = [v.rsplit(': ', 1)[1] for v in lab]
      lab = ['%s: %s for class %s' % (top, c, k) for k in range(classes)
             for c in cols]
    for (sk, rs), (opt, xr, yr, co, b), i in zip(slices, calls, range(99)):
      ask = dict(fit_intercept=intercept)
      if not logit:
        ask['alpha'] = alpha
      if cls == 'ElasticNet':
        ask['l1_ratio'] = .5
      ask.update(params)
      for k, v in ask.items():
        if opt.get(k, v if cls == 'Lasso' and k == 'l1_ratio' else None) != v:
          env.fail(name, 'option %s is %r, not %r' % (k, opt.get(k), v))
      cells = t.groups(gb, rs)
      ys = [YS[y][1](env, t, r) for r in cells.values()]
      xs = [[f(env, t, r) for r in cells.values()] for f in XS[x][1].values()]
      norm = [1] * len(xs)
      given = xs
      if normalize and intercept:
        gram, _ = moments(env, ys, xs, True)
        norm = [env.sqrt(gram[j][j]) for j in range(len(xs))]
        given = [[env.div(v - avg(env, c), s) for v in c]
                 for c, s in zip(xs, norm)]
      if len(yr) != len(ys):
        return env.fail(name, '%d observations of %d' % (len(yr), len(ys)))
      for r in range(len(ys)):
        env.check_cell('y[%d] of fit %d' % (r, i), yr[r], ys[r])
        for j in range(len(xs)):
          env.check_cell('x[%d][%d] of fit %d' % (r, j, i), xr[r][j],
                         given[j][r])
      if logit:
        out = []
        for c in range(classes):
          if intercept:
            out.append(b[c])
          out += list(co[c])
      else:
        w = [env.div(v, s) for v, s in zip(co, norm)]
        out = list(w)
        if intercept:
          out = [intercept_of(env, ys, xs, w) if normalize else
                 b] + out
      for c, v in zip(lab, out):
        want[(sk, c)] = v
    opcheck.expect(env, name, got, want, sp or [None], lab, absent_ok=False)

  return Scenario('%s:%s' % (cls[:6], name), fn, **opts)


# --- sufficient statistics --------------------------------------------------
def plain_functions(name, fn_, **opts):
  return Scenario('algebra:' + name, fn_, **opts)


def symmetrize(n):
  def fn(env):
    import numpy as np
    m = ms()
    xs = env.reals('m', n * (n + 1) // 2)
    got = m.models.symmetrize_triangular(list(xs))
    want, it = {}, iter(xs)
    for i in range(n):
      for j in range(i, n):
        want[i, j] = want[j, i] = next(it)
    if np.shape(got) != (n, n):
      return env.fail('shape', str(np.shape(got)))
    for (i, j), v in want.items():
      env.check_cell('[%d][%d]' % (i, j), got[i][j], v)
  return fn


def stats_of(env, ys, xs, with_n=True, intercept=True):
  """The averages that get_sufficient_stats_elements documents."""
  d = {}
  k = len(xs)
  if intercept:
    for i in range(k):
      d['x%d' % i] = avg(env, xs[i])
  for i in range(k):
    for j in range(i, k):
      d['x%dx%d' % (i, j)] = avg(env, [a * b for a, b in zip(xs[i], xs[j])])
  if intercept:
    d['y'] = avg(env, ys)
  for i in range(k):
    d['x%dy' % i] = avg(env, [a * b for a, b in zip(xs[i], ys)])
  if with_n:
    d['n_obs'] = len(ys)
  return d


def from_stats(cls, k, n, alpha, intercept, normalize, free, as_frame):
  """The coefficients computed from averages are those of the data."""
  def fn(env):
    import pandas as pd
    m = ms()
    v = values(env, n, free)
    xs = [v['x%d' % (i + 1)] for i in range(k)]
    d = stats_of(env, v['y'], xs, True, intercept)
    a = env.real('alpha', nonneg=True) if alpha == 'free' else fixed(
        env, [alpha])[0]
    df = env.frame({c: [x] for c, x in d.items()})
    cols = m.sql.Columns([m.sql.Column('x%d' % i, alias='c%d' % i)
                          for i in range(k)])
    mod = build(m, cls, 'sum', {1: 'one', 2: 'two', 3: 'three'}[k], 'u', a,
                intercept, normalize, None)
    got = m.models.compute_ridge_coefs(
        df if as_frame else df.iloc[0], list(cols), mod)
    want = solution(env, v['y'], xs, 0 if cls == 'LinearRegression' else a,
                    intercept, normalize)
    names = (['intercept'] if intercept else []) + [
        'c%d' % i for i in range(k)]
    opcheck.expect(env, 'coef', got, {((), c): x for c, x in zip(names, want)},
                   [None], names)
    del pd
  return fn


def centering(k, n):
  def fn(env):
    m = ms()
    v = values(env, n, ('x1', 'x2', 'x3'))
    xs = [v['x%d' % (i + 1)] for i in range(k)]
    d = stats_of(env, v['y'], xs, False)
    df = env.frame({c: [x] for c, x in d.items()})
    before = df.copy()
    got, ax, ay = m.models.center_x(df, k)
    gram, rhs = moments(env, v['y'], xs, True)
    env.check_eq('input', df, before)
    for i in range(k):
      env.check_cell('mean', ax['x%d' % i].iloc[0], avg(env, xs[i]))
      env.check_cell('x%d' % i, got['x%d' % i].iloc[0], 0)
      env.check_cell('x%dy' % i, got['x%dy' % i].iloc[0],
                     env.div(rhs[i], n))
      for j in range(i, k):
        env.check_cell('x%dx%d' % (i, j), got['x%dx%d' % (i, j)].iloc[0],
                       env.div(gram[i][j], n))
    env.check_cell('mean y', ay.iloc[0], avg(env, v['y']))
  return fn


def matrices(k, intercept, with_n):
  def fn(env):
    m = ms()
    v = values(env, 3, ('x1', 'x2', 'x3'))
    xs = [v['x%d' % (i + 1)] for i in range(k)]
    d = stats_of(env, v['y'], xs, with_n, intercept)
    df = env.frame({c: [x] for c, x in d.items()})
    a, b = m.models.construct_matrix_from_elements(df, intercept)
    cols = ([[1] * 3] if intercept else []) + xs
    for i, p in enumerate(cols):
      env.check_cell('b%d' % i, b[i], avg(
          env, [q * y for q, y in zip(p, v['y'])]))
      for j, q in enumerate(cols):
        env.check_cell('a%d%d' % (i, j), a[i][j], avg(
            env, [s * r for s, r in zip(p, q)]))
  return fn


def scenarios(tier, seed):
  del seed
  out = []
  for cls in ('LinearRegression', 'Ridge'):
    A = lambda *a, cls=cls, **k: out.append(scn(a[0], cls, *a[1:], **k))
    al = {} if cls == 'LinearRegression' else {'alpha': .5}
    for icpt in (True, False):
      for nz in (True, False):
        tag = ' no intercept' * (not icpt) + ' normalized' * nz
        kw = dict(intercept=icpt, normalize=nz, **al)
        A('free' + tag, 'sum', 'one', U3, free=['x1'], cost=3, **kw)
        A('free four' + tag, 'sum', 'one', U4, free=['x1'], cost=4, **kw)
        A('free repeated' + tag, 'mean', 'mean', U3R, free=['x1'], cost=4,
          **kw)
        A('free by g' + tag, 'sum', 'one', by_slice(U3, U3), 'g',
          free=['x1'], cost=5, **kw)
        A('two' + tag, 'sum', 'two', U5, **kw)
        A('two by g' + tag, 'sum', 'two', by_slice(U5, U4, U6), 'g', **kw)
        A('three' + tag, 'diff', 'three', U6, **kw)
        A('metriclist by two' + tag, 'sum', 'metriclist',
          by_slice(U5, U6, U4), ['k', 'g'], **kw)
        A('one of two free' + tag, 'sum', 'two', U4, free=['x1'], cost=6,
          **kw)
        if cls == 'Ridge':
          k2 = dict(kw, alpha='free')
          A('any alpha' + tag, 'sum', 'one', U3, free=['x1'], cost=4, **k2)
          A('any alpha two' + tag, 'sum', 'two', U4, cost=4, **k2)
          k2 = dict(kw, alpha=0)
          A('alpha 0' + tag, 'sum', 'two', U5, **k2)
        for call in ('called', 'melted', 'twice'):
          A(call + tag, 'sum', 'two', by_slice(U5, U4), 'g', call=call, **kw)
        for mode in ('magic',):
          A('magic' + tag, 'sum', 'one', U3R, mode=mode, free=['x1'], cost=5,
            **kw)
          A('magic two' + tag, 'sum', 'two', U5, mode=mode, cost=3, **kw)
          A('magic by g' + tag, 'mean', 'two', by_slice(U5, U6), 'g',
            mode=mode, cost=4, **kw)
    for x in XS:
      A('x ' + x, 'sum', x, U6 if x == 'three' else U5, **al)
      ks = dict(u=U4['u'] * 2)
      A('x %s by g' % x, 'diff', x, by_slice(
          *([ks, ks] if x == 'filtered' else [U6, U6])), 'g', **al)
    A('text groups', 'sum', 'two', dict(u=['b', 'd', 'a', 'c', 'b']), **al)
    A('two groupings', 'sum', 'two', dict(u=[1, 1, 2, 2, 3],
                                          v=[1, 2, 1, 2, 2]),
      group=['v', 'u'], **al)
    A('two groupings by g', 'sum', 'one',
      dict(by_slice(U4, U4), v=[1, 1, 2, 2, 1, 2, 2, 2]), 'g',
      group=['u', 'v'], normalize=True, **al)
    A('where key', 'sum', 'two', by_slice(U5, U4), where=(
        'g == "b"', lambda t, i: t.keys['g'][i] == 'b'), **al)
    A('where on fixed data by g', 'sum', 'one', by_slice(U6, U6), 'g',
      where=('x2 > 1.6', lambda t, i: t.vals['x2'][i] > 1.6), **al)
    A('named', 'sum', 'two', U5, label='my model', **al)
    A('duplicate index', 'sum', 'two', by_slice(U5, U4), 'g', dup=True, **al)
  P = lambda n, f, **k: out.append(plain_functions(n, f, **k))
  for n in (1, 2, 3, 4):
    P('symmetrize %d' % n, symmetrize(n))
  for k in (1, 2, 3):
    P('center %d' % k, centering(k, 3), cost=3)
    for icpt in (True, False):
      for wn in (True, False):
        P('matrices %d %s %s' % (k, icpt, wn), matrices(k, icpt, wn))
      for nz in (True, False):
        for cls, a in (('LinearRegression', 0), ('Ridge', .5),
                       ('Ridge', 'free')):
          for free in ((), ('x1',)):
            if k == 3 and (free or a == 'free'):
              continue
            for fr in (True, False):
              P('%s %d alpha %s intercept %s normalize %s free %s frame %s' % (
                  cls, k, a, icpt, nz, len(free), fr),
                from_stats(cls, k, k + 2, a, icpt, nz, free, fr),
                cost=4 if free else 2)
  for cls in ('Lasso', 'ElasticNet'):
    H = lambda *a, cls=cls, **k: out.append(handed_over(a[0], cls, *a[1:], **k))
    opt = dict(params=dict(tol=.01, max_iter=77, random_state=3))
    if cls == 'ElasticNet':
      opt['params']['l1_ratio'] = .3
    for icpt in (True, False):
      for nz in (True, False):
        tag = ' no intercept' * (not icpt) + ' normalized' * nz
        kw = dict(intercept=icpt, normalize=nz)
        H('free' + tag, 'sum', 'one', U3, free=['x1'], cost=4, **kw)
        H('two free' + tag, 'mean', 'two', U3R, free=['x1', 'x2'], cost=5, **kw)
        H('two by g' + tag, 'sum', 'two', by_slice(U5, U4), 'g', **kw)
        H('options' + tag, 'sum', 'three', U6, **dict(kw, **opt))
        H('called' + tag, 'sum', 'metriclist', by_slice(U4, U6, U5),
          ['k', 'g'], call='called', **dict(kw, **opt))
    H('where by g', 'diff', 'one', by_slice(U6, U6), 'g', where=(
        'x2 > 1.6', lambda t, i: t.vals['x2'][i] > 1.6))
  H = lambda *a, **k: out.append(handed_over(a[0], 'LogisticRegression',
                                             *a[1:], **k))
  for icpt in (True, False):
    for classes in (1, 3):
      tag = ' no intercept' * (not icpt) + ' %d classes' % classes
      kw = dict(intercept=icpt, classes=classes)
      H('two' + tag, 'sum', 'two', U5, free=['x1', 'x2'], **kw)
      H('by g' + tag, 'mean', 'two', by_slice(U5, U6, U4), 'g', **kw)
      H('options' + tag, 'sum', 'one', U4, params=dict(
          C=.3, tol=.01, max_iter=7, random_state=3), **kw)
      H('elastic net' + tag, 'sum', 'one', U4, params=dict(
          penalty='elasticnet', l1_ratio=.25, solver='saga'), **kw)
  return out


DEFAULTS = dict(zero_div='assume', max_paths=200, budget_s=90)
THOROUGH = dict(budget_s=400, max_paths=4000)
FUNCTIONS = [
    'models.Model.__init__, compute, __call__; LinearRegression, Ridge, Lasso, '
    'ElasticNet, LogisticRegression.__init__, LogisticRegression.compute',
    'models.compute_ridge_coefs, compute_coef_for_normalize_ridge, '
    'construct_matrix_from_elements, symmetrize_triangular, center_x, '
    'get_sufficient_stats_elements, '
    'apply_algorithm_to_sufficient_stats_elements',
    'operations.Operation.compute_on..., metrics.MetricList, Metric.compute_on',
]
EXPLANATION = (
    'The models run on tables whose response (and in part of the scenarios '
    'the regressors and alpha) are solver variables. The oracle solves the '
    'normal equations of the documented objective on the grouped child data '
    'of every slice; z3 decides equality of every coefficient. For Lasso, '
    'ElasticNet and LogisticRegression the check decides that sklearn is given '
    'the documented design, response and options and that any coefficients it '
    'answers come back in the units of x under the right names.')
BOUNDS = (
    'Up to 15 rows, 3-6 observations per fit, 1-3 regressors (free with one or '
    'two, otherwise fixed numbers), up to 3 slices in 0-2 split columns, 1-2 '
    'grouping columns.')
OUTSIDE = (
    'sklearn itself: LinearRegression and Ridge are replaced by the exact '
    'minimiser of their documented objective, the iterative models by '
    'arbitrary coefficients; collinear designs and constant regressors; null '
    'observations (sklearn rejects them).')
ASSUMPTIONS = 'Every fit and every quotient is regular; see DESIGN.md.'

if __name__ == '__main__':
  harness.main('checks.c13')
