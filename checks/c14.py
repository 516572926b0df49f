"""P14: SQL of leaf, composite and list metrics computes what pandas does."""
from symx import data, harness, sqlcheck
from symx.harness import Scenario

PROPERTY = 'P14'
LEVEL = 'translation_validation'


def ms():
  return harness.load_meterstick()


G = [['b', 'a', 'a', 'b'], ['a', 'a', 'a', 'b']]
H = ['p', 'q', 'p', 'p']


def tv(name, make, splits=(None, 'g', ['g', 'h']), nulls=((),), pos=('w',),
       filt=None, prep=None, modes=(None,), n=4, gs=None, distinct=(),
       ints=(), **opts):
  """One metric tree: SQL result == pandas result for every content."""

  def fn(env):
    m = ms()
    cols = {'g': env.pick('g', gs or G)[:n], 'h': H[:n]}
    vals = {}
    for c in ('x', 'y', 'w'):
      vals[c] = env.reals(c, n, pos=c in pos)
    for c in distinct:
      for i in range(n):
        for j in range(i):
          env.assume(vals[c][i] != vals[c][j])
    if filt:
      # At least one row of the table passes every filter (an empty sum is 0
      # in pandas and NULL in SQL).
      for f in filt:
        env.assume(sqlcheck.any_of(
            [f(*[vals[c][i] for c in 'xyw'], H[i]) for i in range(n)]))
    if prep:
      prep(env, vals)
    vals['x'] = data.with_nulls(vals['x'], env.pick('null', list(nulls)))
    cols.update(vals)
    df = env.frame(cols)
    split = env.pick('split', list(splits))
    mode = env.pick('mode', list(modes))
    sqlcheck.run(env, df, lambda: make(m), split, mode=mode)

  return Scenario('tv:' + name, fn, **opts)


def scenarios(tier, seed):
  del seed
  out = []

  def add(*a, **k):
    if tier == 'thorough':
      k.setdefault('n', 5)
      k.setdefault('gs', [['b', 'a', 'a', 'b', 'a'], ['a', 'a', 'a', 'b', 'b'],
                          ['c', 'a', 'b', 'b', 'b']])
    out.append(tv(*a, **k))

  N = ((), (1,))
  NA = ((), (1,), (0, 3), (0, 1, 2, 3))
  # Leaves.
  add('Sum', lambda m: m.Sum('x'), nulls=N, gs=[['b', 'a', 'a', 'b']],
      splits=(None, 'g'))
  add('Sum2', lambda m: m.Sum('x'))
  add('Count', lambda m: m.Count('x'), nulls=NA)
  add('CountDistinct', lambda m: m.Count('x', distinct=True), nulls=N,
      splits=(None, 'g'))
  add('Mean', lambda m: m.Mean('x'), nulls=NA)
  add('WMean', lambda m: m.Mean('x', 'w'))
  add('Max', lambda m: m.Max('x'), nulls=NA)
  add('Min', lambda m: m.Min('x'), nulls=NA)
  add('Dot', lambda m: m.Dot('x', 'y'))
  add('DotNorm', lambda m: m.Dot('x', 'y', True), nulls=NA)
  add('Ratio', lambda m: m.Ratio('x', 'y'))
  add('RatioName', lambda m: m.Ratio('x', 'y', name='r %'))
  for u in (True, False):
    add('Var%s' % u, lambda m, u=u: m.Variance('x', u), nulls=NA)
    add('SD%s' % u, lambda m, u=u: m.StandardDeviation('x', u), nulls=NA)
    add('CV%s' % u, lambda m, u=u: m.CV('x', u), nulls=NA)
    def bigw(env, v):
      for w in v['w']:
        env.assume(w > 1)
    add('WVar%s' % u, lambda m, u=u: m.Variance('x', u, 'w'), prep=bigw,
        gs=G[:1])
    add('WSD%s' % u, lambda m, u=u: m.StandardDeviation('x', u, 'w'),
        prep=bigw, gs=G[:1], splits=(None, 'g'))
    add('Cov%s' % u, lambda m, u=u: m.Cov('x', 'y', u))
    add('WCov%s' % u, lambda m, u=u: m.Cov('x', 'y', u, weight='w'),
        gs=[['b', 'a', 'a', 'b']], splits=(None, 'g'))
    add('FCov%s' % u, lambda m, u=u: m.Cov('x', 'y', u, fweight='w'),
        gs=[['b', 'a', 'a', 'b']], splits=(None, 'g'), prep=bigw)
  add('Cov2', lambda m: m.Cov('x', 'y', ddof=2), gs=[['a', 'a', 'a', 'b']],
      splits=(None, 'g'), nulls=((),))
  add('WFCov', lambda m: m.Cov('x', 'y', weight='w', fweight='y'),
      gs=[['a', 'a', 'a', 'a']], splits=(None,), pos=('w', 'y'), n=3, cost=9)
  add('Corr', lambda m: m.Correlation('x', 'y'))
  add('WCorr', lambda m: m.Correlation('x', 'y', weight='w'),
      gs=[['b', 'a', 'a', 'b']], splits=('g',), cost=9)
  for k, asc, drop in ((0, True, False), (1, True, True), (1, False, False),
                       (-1, True, True), (-2, False, True)):
    add('Nth%d%s%s' % (k, asc, drop), lambda m, a=(k, asc, drop): m.Nth(
        'x', a[0], 'y', a[1], a[2]), distinct=('y',),
        nulls=((), (1,)) if drop else ((),), gs=[['b', 'a', 'a', 'a']],
        splits=(None, 'g'))
  add('NthFilter', lambda m: m.MetricList(
      [m.Nth('x', 0, 'y', where='w > 2', dropna=True), m.Sum('x')]),
      distinct=('y',), n=3, splits=(None, 'g'), gs=[['b', 'a', 'a']],
      filt=[lambda x, y, w, h: w > 2])
  for q in (0.3, 0.5, 1):
    add('WQ%s' % q, lambda m, q=q: m.Quantile('x', q, 'w'), n=3,
        gs=[['b', 'a', 'a']], splits=(None, 'g'), cost=4)
  add('WQs', lambda m: m.Quantile('x', [0.25, 0.75], 'w'), n=3,
      gs=[['b', 'a', 'a']], splits=(None, 'g'), cost=4)
  add('WQnull', lambda m: m.Quantile('x', 0.5, 'w'), n=3, nulls=((1,),),
      gs=[['b', 'a', 'a']], splits=(None, 'g'))
  add('WQfilter', lambda m: m.Quantile('x', 0.5, 'w', where='y > 0'), n=3,
      gs=[['b', 'a', 'a']], splits=(None, 'g'), cost=9,
      filt=[lambda x, y, w, h: y > 0])
  add('WQlist', lambda m: m.MetricList([
      m.Quantile('x', 0.5, 'w', where='h == "p"'), m.Sum('w')]), n=3,
      gs=[['b', 'a', 'a']], splits=(None, 'g'))
  # Arithmetic.
  S = lambda m: m.Sum('x')
  C = lambda m: m.Count('y')
  W = lambda m: m.Sum('w')
  Y = lambda m: m.Sum('y')
  arith = {
      'a-(b-c)': lambda m: S(m) - (Y(m) - W(m)),
      'a-(b+c)': lambda m: S(m) - (Y(m) + W(m)),
      '(a-b)-c': lambda m: S(m) - Y(m) - W(m),
      'a/(b/c)': lambda m: S(m) / (Y(m) / W(m)),
      'a/b/c': lambda m: S(m) / Y(m) / W(m),
      '(a+b)*c': lambda m: (S(m) + Y(m)) * W(m),
      'a*(b-c)': lambda m: S(m) * (Y(m) - W(m)),
      'a*b/c': lambda m: S(m) * Y(m) / W(m),
      'a*(b/c)': lambda m: S(m) * (Y(m) / W(m)),
      'a/(b*c)': lambda m: S(m) / (Y(m) * W(m)),
      '-(a+b)': lambda m: -(S(m) + Y(m)),
      '-a*b': lambda m: -S(m) * Y(m),
      'a--b': lambda m: S(m) - (-Y(m)),
      '1-a': lambda m: 1 - S(m),
      '2/a': lambda m: 2 / S(m),
      '3*a+1': lambda m: 3 * S(m) + 1,
      '(a-1)/2.5': lambda m: (S(m) - 1) / 2.5,
      'a*-2': lambda m: S(m) * -2,
      'a- -2': lambda m: S(m) - -2,
      'a**2': lambda m: (S(m) + Y(m))**2,
      'a**-1': lambda m: S(m)**-1,
      'w**0.5': lambda m: W(m)**0.5,
      '(w+c)**.5': lambda m: (W(m) + C(m))**0.5,
      '2**c': lambda m: 2**C(m),
      '(a/b)**2': lambda m: (S(m) / W(m))**2,
      'mean-mean': lambda m: m.Mean('x') - m.Mean('x', 'w'),
      'max/min': lambda m: m.Max('w') / m.Min('w'),
      'var/mean': lambda m: m.Variance('x') / m.Mean('w'),
      'same': lambda m: S(m) / S(m) + S(m),
  }
  for k, f in arith.items():
    add('arith:' + k, f, gs=G[:1], modes=(None, 'mixed'))
  # Filters.
  fy = lambda x, y, w, h: y > 2
  fx = lambda x, y, w, h: x < y
  fp = lambda x, y, w, h: h == 'p'
  filt = {
      'leaf': (lambda m: m.Sum('x', where='y > 2'), [fy]),
      'leafeq': (lambda m: m.Sum('x', where='h == "p"'), []),
      'leafor': (lambda m: m.Sum('x', where='y > 2 or w < 1'), [fy]),
      'leaforglued': (lambda m: m.Sum(
          'x', where=['(y > 2)or(w < 1)', 'x < y']),
                      [lambda x, y, w, h: (y > 2) & (x < y)]),
      'leaforline': (lambda m: m.Sum(
          'x', where=['y > 2 or\tw < 1', 'x < y']),
                     [lambda x, y, w, h: (y > 2) & (x < y)]),
      'leaftwo': (lambda m: m.Sum('x', where=['y > 2 or w < 1', 'x < y']),
                  [lambda x, y, w, h: (y > 2) & (x < y)]),
      'comp': (lambda m: m.Sum('x', where='y > 2') / m.Count('x'), [fy]),
      'comp2': (lambda m: m.Sum('x', where='y > 2') / m.Sum(
          'w', where='x < y'), [fy, fx]),
      'compsame': (lambda m: m.Sum('x', where='y > 2') / m.Sum(
          'w', where='y > 2'), [fy]),
      'ratio': (lambda m: m.Ratio('x', 'w', where='y > 2'), [fy]),
      'mean': (lambda m: m.Mean('x', where='y > 2') - m.Mean('x'), [fy]),
      'wmean': (lambda m: m.Mean('x', 'w', where='y > 2') / m.Sum('x'), [fy]),
      'nested': (lambda m: m.CompositeMetric(
          lambda a, b: a / b, '{}/{}',
          (m.Sum('x', where='x < y'), m.Sum('w')), where='y > 2'),
                 [lambda x, y, w, h: (y > 2) & (x < y)]),
      'list': (lambda m: m.MetricList(
          [m.Sum('x', where='y > 2'), m.Count('x', where='x < y'),
           m.Max('w')]), [fy, fx]),
      'listwhere': (lambda m: m.MetricList(
          [m.Sum('x'), m.Ratio('x', 'w', where='x < y')], where='y > 2'),
                    [lambda x, y, w, h: (y > 2) & (x < y)]),
      'listsame': (lambda m: m.MetricList(
          [m.Sum('x', where='y > 2'), m.Mean('w', where='y > 2')]), [fy]),
      'listor': (lambda m: m.MetricList(
          [m.Sum('x', where='y > 2 or x < y'), m.Sum('w', where='h == "p"')]
          ), [fy]),
      'minmax': (lambda m: m.MetricList(
          [m.Max('x', where='y > 2'), m.Min('x'),
           m.Mean('x', where='y > 2')]), [fy]),
      'dot': (lambda m: m.MetricList(
          [m.Dot('x', 'w', where='y > 2'), m.Dot('x', 'w', True)]), [fy]),
      'var': (lambda m: m.MetricList(
          [m.Variance('x', where='y > 2'), m.Variance('x')]), [fy]),
      'cov': (lambda m: m.MetricList(
          [m.Cov('x', 'w', where='y > 2'), m.Correlation('x', 'w')]), [fy]),
      'cv': (lambda m: m.MetricList(
          [m.CV('x', where='y > 2'), m.StandardDeviation('x', False)]), [fy]),
  }
  for k, (f, fs) in filt.items():
    two = len(fs) > 1 or k in ('leafor', 'leaftwo', 'leaforglued', 'leaforline',
                               'listor', 'listwhere',
                               'nested')
    add('filter:' + k, f, filt=fs, n=3 if two else 4,
        gs=[['b', 'a', 'a']] if two else [['b', 'a', 'a', 'b']],
        splits=(None,) if k in ('leaforglued', 'leaforline') else (None, 'g'),
        modes=(None,) if k in ('leaforglued', 'leaforline') else (
            None, 'mixed'), cost=3)
  # Lists.
  lists = {
      'plain': lambda m: m.MetricList([S(m), C(m), m.Ratio('x', 'y')]),
      'tmpl': lambda m: m.MetricList([S(m), C(m)], name_tmpl='pre {}'),
      'rename': lambda m: m.MetricList([S(m), C(m)],
                                       rename_columns=['A', 'B c']),
      'nested': lambda m: m.MetricList(
          [m.MetricList([S(m), C(m)]), m.Mean('w')]),
      'nestedtmpl': lambda m: m.MetricList(
          [m.MetricList([S(m), C(m)], name_tmpl='in {}'), m.Mean('w')],
          name_tmpl='out {}'),
      'one': lambda m: m.MetricList([S(m)]),
      'names': lambda m: m.MetricList(
          [m.Sum('x', name='x%'), m.Sum('y', name='x_pct'),
           m.Sum('w', name='1st'), m.Count('x', name='a (b) / c')]),
      'samename': lambda m: m.MetricList(
          [m.Sum('x', name='v'), m.Sum('y', name='v')]),
      'sameexpr': lambda m: m.MetricList(
          [m.Sum('x', name='v'), m.Sum('x', name='u')]),
      'plus1': lambda m: m.MetricList([S(m), C(m)]) + 1,
      'div': lambda m: m.MetricList([S(m), Y(m)]) / W(m),
      'rdiv': lambda m: W(m) / m.MetricList([S(m), Y(m)]),
      'zip': lambda m: m.MetricList([S(m), Y(m)]) - m.MetricList(
          [W(m), C(m)]),
      'inlist': lambda m: m.MetricList(
          [m.MetricList([S(m), Y(m)]) * 2, m.Mean('w') ** 2]),
      'wq': lambda m: m.MetricList([S(m), m.Mean('x', 'w') - m.Mean('x')]),
  }
  for k, f in lists.items():
    add('list:' + k, f, gs=G[:1])
  # Containers and table forms.
  def forms(env):
    m = ms()
    df = env.frame({'g': ['b', 'a', 'a', 'b'], 'x': env.reals('x', 4),
                    'y': env.reals('y', 4)})
    split = env.pick('split', [None, 'g', ['g']])
    form = env.pick('form', ['scalar', 'melted', 'query', 'melted list'])
    if form == 'scalar':
      sqlcheck.run(env, df, lambda: m.Sum('x') / m.Mean('y'), split,
                   return_dataframe=False)
    elif form == 'melted':
      sqlcheck.run(env, df, lambda: m.Sum('x'), split, melted=True)
    elif form == 'melted list':
      sqlcheck.run(env, df, lambda: m.MetricList([m.Sum('x'), m.Count('y')]),
                   split, melted=True)
    else:
      m2 = m.MetricList([m.Sum('x'), m.Ratio('x', 'y')])
      sqlcheck.run(
          env, df, lambda: m.MetricList([m.Sum('x'), m.Ratio('x', 'y')]),
          split, table_sql='SELECT g, x, y FROM T WHERE g = "a"',
          want=m2.compute_on(df[df.g == 'a'], split))
  out.append(Scenario('tv:forms', forms))
  return out


DEFAULTS = dict(budget_s=200)
THOROUGH = dict(budget_s=900, max_paths=20000)
FUNCTIONS = [
    'metrics.py: Metric.compute_on_sql, to_sql, compute_on_sql_sql_mode, '
    'compute_on_sql_mixed_mode, to_series_or_number_if_not_operation, '
    'get_sql_and_with_clause of all leaves, CompositeMetric and MetricList',
    'sql.py: all (Sql, Columns, Filters, Join, add_suffix, escape_alias, ...)',
    'utils.py: melt, unmelt, get_leaf_metrics, get_global_filter helpers']
EXPLANATION = (
    'The SQL text meterstick generates is executed by a symbolic SQL '
    'evaluator (BigQuery semantics, symx/sqlrun.py) on a table whose numeric '
    'cells are solver variables; the resulting frame is post-processed by '
    'meterstick and compared with compute_on, run symbolically on the same '
    'table, cell by cell.')
BOUNDS = dict(
    quick='4 rows (3 for sorted, quantile and two-filter shapes), 1-2 slices '
    'per split column, unsplit / 1 / 2 split columns, up to 4 null patterns, '
    'sql and mixed mode for arithmetic and filters',
    thorough='5 rows and one more key pattern')
OUTSIDE = [
    'floating point rounding', 'APPROX_QUANTILES (unweighted Quantile, which '
    'SQL documents as approximate)', 'split_by expressions other than columns',
    'an empty sum (0 in pandas, NULL in SQL), an empty count (null vs 0) and '
    'inf vs NULL after a division by zero are not differences',
    'BigQuery type errors: the evaluator is dynamically typed']
ASSUMPTIONS = [
    'symx/sqlrun.py follows the BigQuery documentation for the functions '
    'meterstick uses', 'reals for floats',
    'denominators that can be non-zero are assumed to be']

if __name__ == '__main__':
  harness.main('checks.c14')
