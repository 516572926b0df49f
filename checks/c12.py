"""P12: CUPED and PrePost equal the regression-adjusted difference."""
from checks import catalog
from symx import data, harness, opcheck, ref
from symx.core import Sym
from symx.harness import Scenario
from symx.opcheck import NAN, as_list

PROPERTY = 'P12'
LEVEL = 'other'
ms = catalog.ms

TMPL = {'CUPED': '%s CUPED Change', 'PrePostChange': '%s PrePost Percent Change'}


# --- the definition ---------------------------------------------------------
def det(m):
  if not m:
    return 1
  tot = 0
  for j, c in enumerate(m[0]):
    minor = [r[:j] + r[j + 1:] for r in m[1:]]
    tot = tot + (1 if j % 2 == 0 else -1) * c * det(minor)
  return tot


def avg(env, xs):
  return env.div(sum(xs[1:], xs[0]), len(xs))


def fit(env, ys, xs):
  """(slopes, intercept) of the least squares fit of ys on the columns xs."""
  my = avg(env, ys)
  ms_ = [avg(env, c) for c in xs]
  yc = [v - my for v in ys]
  xc = [[v - m for v in c] for c, m in zip(xs, ms_)]
  dot = lambda a, b: sum(p * q for p, q in zip(a, b))
  gram = [[dot(a, b) for b in xc] for a in xc]
  rhs = [dot(a, yc) for a in xc]
  d = det(gram)
  w = []
  for j in range(len(xs)):
    m = [r[:j] + [b] + r[j + 1:] for r, b in zip(gram, rhs)]
    w.append(env.div(det(m), d))
  b = my
  for m, v in zip(ms_, w):
    b = b - m * v
  return w, b


def adjusted(env, cls, cells, cov_cells):
  """{condition: adjusted value} within one slice.

  cells: {(stratum, condition): value}, cov_cells: the same with one list of
  covariates each.
  """
  keys = list(cells)
  n_cov = len(cov_cells[keys[0]])
  center = [avg(env, [cov_cells[k][j] for k in keys]) for j in range(n_cov)]
  cov = {k: [cov_cells[k][j] - center[j] for j in range(n_cov)] for k in keys}
  conds = []
  for k in keys:
    if k[1] not in conds:
      conds.append(k[1])
  if cls == 'CUPED':
    w, _ = fit(env, [cells[k] for k in keys],
               [[cov[k][j] for k in keys] for j in range(n_cov)])
  out = {}
  for c in conds:
    ks = [k for k in keys if k[1] == c]
    y = [cells[k] for k in ks]
    x = [[cov[k][j] for k in ks] for j in range(n_cov)]
    if cls == 'CUPED':
      out[c] = avg(env, y)
      for j in range(n_cov):
        out[c] = out[c] - w[j] * avg(env, x[j])
    else:
      out[c] = fit(env, y, x)[1]
  return out


def expected(env, t, cls, cols, covs, strata, cond, base, split, include,
             rows=None):
  want = {}
  for sk, rs in t.groups(split, rows).items():
    cells = t.groups(strata + cond, rs)
    n = len(strata)
    cov_cells = {(k[:n], k[n:]): [f(env, t, r) for f in covs]
                 for k, r in cells.items()}
    for name, f in cols.items():
      val = {(k[:n], k[n:]): f(env, t, r) for k, r in cells.items()}
      adj = adjusted(env, cls, val, cov_cells)
      for c, v in adj.items():
        if c == base and not include:
          continue
        b = adj.get(base, NAN)
        if harness.isnan(b):
          r = NAN
        elif cls == 'CUPED':
          r = v - b
        else:
          r = (env.div(v, b) - 1) * 100
        want[(sk + c, TMPL[cls] % name)] = r
  return want


# --- scenarios --------------------------------------------------------------
SUM = lambda c: lambda e, t, r: ref.total(e, t.col(c, r))
MEAN = lambda c: lambda e, t, r: ref.mean(e, t.col(c, r))
CHILD = {
    'sum': (lambda m: m.Sum('x'), {'sum(x)': SUM('x')}),
    'mean': (lambda m: m.Mean('x', name='a'), {'a': MEAN('x')}),
    'list': (lambda m: m.MetricList([m.Sum('x', name='s'),
                                     m.Mean('w', name='a')]),
             {'s': SUM('x'), 'a': MEAN('w')}),
    'comp': (lambda m: (m.Sum('x') * 2 - m.Sum('w')).set_name('cc'),
             {'cc': lambda e, t, r: SUM('x')(e, t, r) * 2 - SUM('w')(e, t, r)}),
    'ratio': (lambda m: m.Ratio('x', 'w', name='r'), {
        'r': lambda e, t, r: e.div(SUM('x')(e, t, r), SUM('w')(e, t, r))}),
}
COV = {
    'sum': (lambda m: m.Sum('y'), [SUM('y')]),
    'mean': (lambda m: m.Mean('y'), [MEAN('y')]),
    'ratio': (lambda m: m.Ratio('y', 'z'), [
        lambda e, t, r: e.div(SUM('y')(e, t, r), SUM('z')(e, t, r))]),
    'list': (lambda m: [m.Sum('y')], [SUM('y')]),
    'two': (lambda m: [m.Sum('y'), m.Sum('z')], [SUM('y'), SUM('z')]),
    'metriclist': (lambda m: m.MetricList([m.Mean('z'), m.Sum('y')]),
                   [MEAN('z'), SUM('y')]),
    'three': (lambda m: [m.Sum('y'), m.Sum('z'), m.Mean('v')],
              [SUM('y'), SUM('z'), MEAN('v')]),
    'same name': (lambda m: m.Sum('y', name='sum(x)'), [SUM('y')]),
}
Y = [3., 1., 4., 1.5, 5., 9., 2., 6., 5.5, 3.5, 8., 9.5, 7., 9.25, 3.25, 2.5]
Z = [2., 7., 1., 8., 2.5, 8.5, 1.25, 8.25, 4., 5., 9., .5, 4.5, 2.25, 3., 6.]
V = [1., 4., 1.5, 4.25, 2., 1.75, 3., 5., 6., 2.5, 3.25, .5, 7., 4., 8., 9.]

Y += [7.25, 4.75, 1.25, 8.75, 6.5, .75, 5.75, 2.25]
Z += [3.5, 9.25, 6.75, 1.5, .25, 7.5, 4.25, 5.25]
V += [2.75, 8.5, .25, 5.25, 9.5, 6.25, 1.25, 7.5]


def fixed(env, xs):
  """Numbers as exact constants in symbolic runs."""
  return [Sym.const(x) for x in xs] if env.symbolic else list(xs)


def keys(strata, conds, rep=(), skip=(), **extra):
  """One row for each stratum and condition (one more for those in rep)."""
  rows = [(s, c) for s in strata for c in conds if (s, c) not in skip]
  rows += list(rep)
  rows = rows[1::2] + rows[::2]
  d = dict(s=[r[0] for r in rows], c=[r[1] for r in rows])
  for k, v in extra.items():
    d[k] = [v(i, r) for i, r in enumerate(rows)]
  return d


S2 = keys([2, 1], 'AB')
S3 = keys([3, 1, 2], 'AB')
S3R = keys([3, 1, 2], 'AB', rep=[(1, 'B'), (2, 'A')])
S3C = keys([0, 2, 1], 'BCA')
S3M = keys(['r', 'p', 'q'], 'AB', rep=[('p', 'A')], skip=[('r', 'B')])
S4 = keys([1, 2, 3, 4], 'AB')
S5 = keys([1, 2, 3, 4, 5], 'AB')


def by_slice(*parts):
  """Rows of the parts, interleaved, with the slice in g (and k)."""
  rows = []
  for i in range(max(len(p['s']) for p in parts)):
    for g, p in zip('bac', parts):
      if i < len(p['s']):
        rows.append((g, p['s'][i], p['c'][i]))
  return dict(g=[r[0] for r in rows], s=[r[1] for r in rows],
              c=[r[2] for r in rows], k=[1 + 'bac'.index(r[0]) // 2
                                         for r in rows])


def scn(name, cls, child, cov, ks, split=None, strata='s', cond='c', base='A',
        include=False, free=False, where=None, pos=(), call='on', **opts):
  make, cols = CHILD[child]
  make_cov, covs = COV[cov]

  def fn(env):
    m = ms()
    n = len(ks['s'])
    vals = {}
    vals['x'] = env.reals('x', n, pos='x' in pos)
    if child in ('list', 'comp'):
      vals['w'] = env.reals('w', n)
    elif child == 'ratio':
      vals['w'] = fixed(env, V[:n])
    vals['y'] = env.reals('y', n) if free else fixed(env, Y[:n])
    if cov != 'sum':
      vals['z'] = env.reals('z', n) if free == 'z' else fixed(env, Z[:n])
      vals['v'] = fixed(env, V[:n])
    t = opcheck.Table(env, ks, vals)
    sp, cd, st = as_list(split), as_list(cond), as_list(strata)
    b = base if isinstance(base, tuple) else (base,)
    rows, kw = None, {}
    if where:
      rows = [i for i in range(n) if where[1](t, i)]
      kw['where'] = where[0]
    df = t.df(index=[5] * n if opts.get('dup') else None)
    before = df.copy()
    op = getattr(m, cls)(cond, base, make(m), make_cov(m), strata,
                         include_base=include, **kw)
    if call == 'melted':
      got = m.utils.unmelt(op.compute_on(df, split, melted=True))
    elif call == 'called':
      op = getattr(m, cls)(cond, base, stratified_by=strata,
                           include_base=include, **kw)
      got = op(m.MetricList([make(m), m.MetricList(
          make_cov(m)) if isinstance(make_cov(m), list) else make_cov(
              m)])).compute_on(df, split)
    elif call == 'cached':
      other = getattr(m, cls)(cond, base, make(m), make_cov(m), strata,
                              include_base=not include, **kw)
      l = m.MetricList([m.Sum('x', name='first'), op])
      got = op.compute_on(df, split, cache_key='k')
      other.compute_on(df, split, cache_key='k')
      again = op.compute_on(df, split, cache_key='k')
      env.check_eq('again', again, got)
      del l
    else:
      got = op.compute_on(df, split)
    want = expected(env, t, cls, cols, covs, st, cd, b, sp, include, rows)
    opcheck.expect(env, name, got, want, sp + cd,
                   [TMPL[cls] % c for c in cols])
    env.check_eq('input frame', df, before)

  return Scenario('%s:%s' % (cls[:5], name), fn, **opts)


def jackknife(cls, ks, cov, base='A'):
  """Leave-one-unit-out standard errors of the adjusted change."""

  def fn(env):
    from checks import c08  # pylint: disable=g-import-not-at-top
    m = ms()
    n = len(ks['s'])
    t = opcheck.Table(env, ks, dict(x=env.reals('x', n), y=fixed(env, Y[:n]),
                                    z=fixed(env, Z[:n])))
    make_cov, covs = COV[cov]
    op = getattr(m, cls)('c', base, m.Sum('x'), make_cov(m), 's')
    got = m.Jackknife('u', op).compute_on(t.df())
    units = sorted(set(ks['u']))
    point = expected(env, t, cls, CHILD['sum'][1], covs, ['s'], ['c'],
                     (base,), [], False)
    reps = []
    for u in units:
      rows = [i for i in range(n) if ks['u'][i] != u]
      reps.append(expected(env, t, cls, CHILD['sum'][1], covs, ['s'], ['c'],
                           (base,), [], False, rows))
    del c08
    for (k, c), v in point.items():
      xs = [r[k, c] for r in reps]
      mean = avg(env, xs)
      var = env.div(sum((x - mean) * (x - mean) for x in xs) * (len(xs) - 1),
                    len(xs))
      env.check_cell('value@%s' % (k,), got[c, 'Value'].loc[k[0]], v)
      se = got[c, 'Jackknife SE'].loc[k[0]]
      env.check_cell('se@%s' % (k,), se, env.sqrt(var))

  return Scenario('%s:jackknife:%s' % (cls[:5], cov), fn, cost=5)


def scenarios(tier, seed):
  del seed
  out = []
  for cls in ('CUPED', 'PrePostChange'):
    pp = cls == 'PrePostChange'
    A = lambda *a, cls=cls, **k: out.append(scn(a[0], cls, *a[1:], **k))
    for cn in CHILD:
      A('%s on sum' % cn, cn, 'sum', S3R)
      A('%s on sum by g' % cn, cn, 'sum', by_slice(S3, S3R), 'g')
    for cv in COV:
      if cv == 'sum':
        continue
      ks = {'three': S5, 'two': S4, 'metriclist': S4}.get(cv, S3)
      A('sum on %s' % cv, 'sum', cv, ks)
      A('sum on %s by g' % cv, 'sum', cv, by_slice(ks, S3C if len(
          ks['s']) < 7 else S4) if cv != 'three' else by_slice(S5), 'g')
      if cv in ('two', 'metriclist', 'three'):
        A('list on %s' % cv, 'list', cv, ks)
    # The covariate is free as well.
    A('free two strata', 'sum', 'sum', S2, free=True, cost=4)
    A('free three strata', 'sum', 'sum', S3, free=True, cost=6)
    A('free missing', 'sum', 'sum', S3M, free=True, cost=6)
    A('free rows', 'sum', 'sum', keys([2, 1], 'AB', rep=[(1, 'A')]), free=True,
      cost=6)
    A('free mean', 'mean', 'mean', S2, free=True, cost=4)
    A('free by g', 'sum', 'sum', by_slice(S2, S2), 'g', free=True, cost=6)
    A('free by g, three', 'sum', 'sum', by_slice(S3, S3C), 'g', free=True,
      cost=6)
    A('free two covariates', 'sum', 'two', S3 if not pp else S4, free='z',
      cost=9)
    A('free one of two covariates', 'sum', 'two', S4, free=True, cost=9)
    A('free ratio', 'sum', 'ratio', S2, free=True, cost=4)
    A('free four strata', 'sum', 'sum', keys([1, 2, 3, 4], 'AB'), free=True,
      cost=6)
    A('free list', 'list', 'sum', S2, free=True, cost=6)
    # Conditions and strata.
    A('three conditions', 'sum', 'sum', S3C)
    A('base C', 'sum', 'sum', S3C, base='C')
    A('base B', 'sum', 'two', keys([4, 3, 2, 1], 'ABC'), base='B')
    A('include base', 'sum', 'sum', S3C, include=True)
    A('include base by g', 'list', 'sum', by_slice(S3, S3C), 'g', include=True)
    A('two splits', 'sum', 'sum', by_slice(S3, S3C, S3R), ['k', 'g'])
    A('missing cells', 'sum', 'sum', S3M)
    A('missing cells by g', 'sum', 'sum', by_slice(S3M, S3R), 'g')
    A('no baseline in b', 'sum', 'sum', by_slice(
        keys([1, 2, 3], 'BC'), S3), 'g')
    A('only baseline in b', 'sum', 'sum', by_slice(
        keys([1, 2, 3], 'A'), S3), 'g')
    A('number conditions', 'sum', 'sum', keys(['x', 'y', 'z'], [1, 0]), base=0)
    d = lambda i, r: r[1] % 2
    c4 = keys([1, 2, 3], [0, 1, 2, 3])
    c4 = dict(s=c4['s'], c=[v // 2 for v in c4['c']],
              d=[v % 2 for v in c4['c']])
    A('two condition columns', 'sum', 'sum', c4, cond=['c', 'd'], base=(0, 1))
    A('two condition columns base', 'sum', 'sum', c4, cond=['c', 'd'],
      base=(1, 0), include=True)
    two = dict(S4, r=[v % 2 for v in S4['s']], s=[v // 2 for v in S4['s']])
    A('two strata columns', 'sum', 'sum', two, strata=['s', 'r'])
    A('two strata columns, two covariates', 'sum', 'two', two,
      strata=['r', 's'])
    if not pp:
      A('no strata', 'sum', 'sum', S3C, strata=None)
      A('no strata by g', 'sum', 'sum', by_slice(S3C, S3C), 'g', strata=None)
      A('no strata, two conditions', 'sum', 'sum', c4, strata=None,
        cond=['c', 'd'], base=(0, 0))
      A('no strata, free', 'sum', 'sum', keys([1], 'ACB'), strata=None,
        free=True, cost=4)
    A('where on key', 'sum', 'sum', by_slice(S3R, S3), where=(
        'g == "b"', lambda t, i: t.keys['g'][i] == 'b'))
    A('where on data by g', 'sum', 'sum', by_slice(S3R, S4), 'g', where=(
        'y > 1.75', lambda t, i: t.vals['y'][i] > 1.75))
    A('duplicate index', 'sum', 'sum', by_slice(S3R, S3), 'g', dup=True)
    for call in ('melted', 'called', 'cached'):
      A(call, 'list', 'two', S4, call=call)
      A(call + ' by g', 'sum', 'sum', by_slice(S3, S3C), 'g', call=call,
        include=True)
    u = dict(S3R, u=[1 + i % 2 for i in range(len(S3R['s']))])
    big = keys([1, 2, 3], 'AB', rep=[(s, c) for s in (1, 2, 3) for c in 'AB'])
    seen = []
    for k in zip(big['s'], big['c']):
      seen.append(k)
    big['u'] = [seen[:i].count(k) for i, k in enumerate(seen)]
    out.append(jackknife(cls, big, 'sum'))
    del d, u
  return out


DEFAULTS = dict(zero_div='assume', max_paths=400, budget_s=90)
THOROUGH = dict(budget_s=400, max_paths=4000)
FUNCTIONS = [
    'operations.CUPED.__init__, compute_children, adjust_value',
    'operations.PrePostChange.__init__, compute_children, adjust_value',
    'operations.PercentChange/AbsoluteChange.compute_slices, '
    'Comparison.__init__',
    'metrics.Cov, metrics.Variance, metrics.MetricList, Metric.compute_on',
]
EXPLANATION = (
    'CUPED and PrePostChange run on tables whose metric inputs (and in part '
    'of the scenarios the covariates) are solver variables. The oracle fits '
    'the documented regressions by their normal equations on the aggregated '
    'cells of every slice; z3 decides that each reported change is equal for '
    'every value with a regular fit.')
BOUNDS = (
    'Up to 12 rows: 1-5 strata, 2-4 conditions in 1-2 columns, up to 3 slices '
    'in 0-2 split columns, 1-3 covariates (free with one covariate and up to 6 '
    'cells, otherwise fixed numbers), 1-2 child columns.')
OUTSIDE = (
    'sklearn itself with several covariates: its fit is replaced by the exact '
    'least squares solution; degenerate fits (collinear or constant '
    'covariates); nulls and cells lost to a filter of only the child or the '
    'covariate; the SQL versions (P15).')
ASSUMPTIONS = 'Every fit and every quotient is regular; see DESIGN.md.'

if __name__ == '__main__':
  harness.main('checks.c12')
