"""P08: Jackknife gives the delete-one standard error on every path."""
from checks import catalog
from checks.catalog import NAN, tab
from symx import data, harness, ref
from symx.harness import Scenario, norm_key
from symx.opcheck import as_list

PROPERTY = 'P08'
LEVEL = 'other'

ms = catalog.ms
W = 'h != "r"'
SE = 'Jackknife SE'

# Units span slices, sit in one slice only, or are alone in a slice.
KEYS = [
    dict(u=[1, 1, 2, 2, 3, 3], g=['a', 'b', 'a', 'b', 'a', 'b'],
         k=[2, 1, 1, 1, 2, 2], c=['A', 'B', 'B', 'A', 'A', 'B'],
         h=['p', 'q', 'q', 'p', 'p', 'q']),
    dict(u=[2, 1, 2, 5, 1, 1], g=['b', 'b', 'b', 'b', 'b', 'a'],
         k=[1, 1, 1, 2, 2, 2], c=['B', 'A', 'A', 'A', 'B', 'B'],
         h=['p', 'p', 'q', 'r', 'q', 'r']),
    dict(u=['x', 'y', 'x', 'y', 'z', 'x'], g=['a', 'a', 'c', 'c', 'b', 'a'],
         k=[1, 1, 1, 1, 1, 1], c=['A', 'A', 'B', 'B', 'A', 'B'],
         h=['q', 'q', 'r', 'p', 'q', 'p']),
]
# Every slice of g has one unit only.
LONELY = [
    dict(u=[1, 2, 1, 2], g=['a', 'b', 'a', 'b'], k=[1, 1, 2, 2],
         c=['A', 'B', 'B', 'A'], h=['p', 'q', 'q', 'p']),
    dict(u=[3, 1, 1, 2], g=['a', 'b', 'b', 'b'], k=[1, 1, 2, 2],
         c=['A', 'A', 'B', 'B'], h=['p', 'p', 'q', 'p']),
]
# Rows without a unit are in every leave-one-out sample.
NO_UNIT = [
    dict(u=['x', 'y', 'x', 'y', None], g=['a', 'a', 'c', 'c', 'b'],
         k=[1, 1, 2, 2, 1], c=['A', 'B', 'A', 'B', 'A'],
         h=['p', 'q', 'q', 'p', 'p']),
    dict(u=[NAN, 1, 2, 2, 3], g=['a', 'a', 'a', 'b', 'b'],
         k=[1, 1, 2, 2, 1], c=['A', 'B', 'A', 'B', 'A'],
         h=['p', 'q', 'q', 'p', 'p']),
]


def estimates(make, m, df, env, empty=False):
  """The child on a frame: {(rest, column): cell}; {} without a baseline."""
  if not len(df) and not empty:
    return {}
  try:
    res = make(m).compute_on(df)
  except KeyError as e:
    if e.args in (('A',), (('A', 2),), (1,)):
      return {}
    raise
  except ValueError as e:
    if 'No objects' in str(e):  # A MetricList without a baseline.
      return {}
    raise
  return {k[1:]: v for k, v in tab(res).items()}


def delete_one(env, thetas):
  t = [x for x in thetas if not harness.isnan(x)]
  n = len(t)
  if n < 2:
    return NAN
  if any(isinstance(x, float) and abs(x) == float('inf') for x in t):
    return NAN
  # sqrt((n-1)/n * sum (t - mean)^2)
  t = [env.intern(x) for x in t]
  return ref.std(env, t) * (n - 1) / env.sqrt(n)


def oracle(env, make, m, df, unit, split, keep=None, void=None):
  """{(slice, rest, column): (point estimate, standard error, replicates)}.

  keep: the filters of the descendants.  If leaving out a unit empties one of
  them but not the slice, the standard error is None: not compared.  Neither
  is what is computed on a frame for which void is True.
  """
  out = {}
  rows = {}
  keys = [tuple(norm_key(df[s].iat[i]) for s in split) for i in range(len(df))]
  for i, k in enumerate(keys):
    rows.setdefault(k, []).append(i)
  for s, idx in rows.items():
    sub = df.iloc[idx]
    pt = estimates(make, m, sub, env)
    units = []
    for u in sub[unit]:
      if not harness.isnan(u) and u is not None and u not in units:
        units.append(u)
    loo = []
    emptied = False
    if len(units) > 1:
      left = [sub[sub[unit] != u] for u in units]
      emptied = any(len(x) and not len(x.query(k)) for x in left
                    for k in keep or ())
      emptied = emptied or bool(void) and any(map(void, left))
      loo = [estimates(make, m, sub[sub[unit] != u], env) for u in units]
    for k, v in pt.items():
      se = None
      if void and void(sub):
        v = None
      thetas = [l[k] for l in loo if k in l]
      if not emptied:
        se = delete_one(env, thetas)
      out[(s,) + k] = v, se, sum(not harness.isnan(x) for x in thetas)
  return out


def split_result(res, split, pre=SE):
  """A wide result: {(slice, rest, metric): (value, standard error)}."""
  out = {}
  for k, v in tab(res, split).items():
    metric, stat = k[2]
    out.setdefault((k[0], k[1], metric) + k[3:], {})[
        'se' if stat == pre else 'value'] = v
  return {k: (v.get('value', NAN), v.get('se', NAN)) for k, v in out.items()}


def compare(env, label, got, want):
  for k in sorted(set(got) | set(want), key=repr):
    g, w = got.get(k, (NAN, NAN)), want.get(k, (NAN, NAN))
    env.check_cell('%s value@%s' % (label, k), g[0], w[0])
    if w[1] is not None:
      env.check_cell('%s se@%s' % (label, k), g[1], w[1])


def frame(env, keys, n, cols, pos, nulls, distinct=''):
  ks = env.pick('keys', keys)
  ks = {k: v[:n] for k, v in ks.items()}
  vals = {c: env.reals(c, len(ks['u']), pos=c in pos) for c in cols}
  for c in distinct:
    for i in range(len(vals[c])):
      for j in range(i):
        env.assume(vals[c][i] != vals[c][j])
  for c, opts in (nulls or {}).items():
    vals[c] = data.with_nulls(vals[c], env.pick('null ' + c, opts))
  return env.frame(dict(ks, **vals))


def scn(name, make, cols='x', pos='', nulls=None, keys=KEYS, n=5, where=None,
        splits=(None, 'g'), distinct='', optimised=(True, False),
        keep=None, **opts):
  """Jackknife('u', make()) on each path against the definition."""

  def fn(env):
    m = ms()
    df = frame(env, keys, n, cols, pos, nulls, distinct)
    sp = as_list(env.pick('split', list(splits)))
    kept = df.query(where) if where else df
    if len(set(map(repr, kept['u']))) < 2:
      return  # Not enough units at all: an error.
    before = df.copy()
    opt = env.pick('optimised', list(optimised))
    want = oracle(env, make, m, kept, 'u', sp, keep)
    jk = m.Jackknife('u', make(m), enable_optimization=opt, where=where)
    got = jk.compute_on(df, sp)
    compare(env, 'jackknife', split_result(got, sp), want)
    env.check_eq('input frame', df, before)

  return Scenario('jk:' + name, fn, **opts)


N2 = {'x': [(), (1,), (0, 1)]}


def leaves(scn=scn):
  out = []

  def add(name, make, **k):
    out.append(scn(name, make, **k))

  add('sum', lambda m: m.Sum('x'), nulls=N2)
  add('sum 6', lambda m: m.Sum('x'), n=6, splits=(None, 'g', ['g', 'k']))
  add('count', lambda m: m.Count('x'), nulls=N2)
  add('distinct', lambda m: m.Count('k', distinct=True))
  add('mean', lambda m: m.Mean('x'), nulls=N2, splits=(None, 'g', ['k', 'g']))
  add('wmean', lambda m: m.Mean('x', 'w'), cols='xw', pos='w')
  add('wmean nulls', lambda m: m.Mean('x', 'w'), cols='xw', pos='w', n=4,
      nulls={'x': [(1,), (0, 1)], 'w': [(), (2,)]})
  add('dot', lambda m: m.Dot('x', 'y'), cols='xy', nulls=N2)
  add('ndot', lambda m: m.Dot('x', 'y', True), cols='xy', nulls=N2)
  add('ratio', lambda m: m.Ratio('x', 'y'), cols='xy', pos='y', nulls=N2)
  add('ratio nulls', lambda m: m.Ratio('x', 'y'), cols='xy', pos='y', n=4,
      nulls={'x': [(1,)], 'y': [(2,), (0,)]})
  add('var', lambda m: m.Variance('x'), nulls={'x': [(), (1,)]}, cost=3)
  add('var biased', lambda m: m.Variance('x', False), n=4, cost=3)
  add('wvar', lambda m: m.Variance('x', True, 'w'), cols='xw', pos='w', n=4,
      cost=6)
  add('sd', lambda m: m.StandardDeviation('x'), n=4, cost=3)
  add('cv', lambda m: m.CV('x', False), n=4, pos='x', cost=3)
  add('cov', lambda m: m.Cov('x', 'y'), cols='xy', n=4, cost=4)
  add('wcov', lambda m: m.Cov('x', 'y', weight='w'), cols='xyw', pos='w', n=4,
      cost=6)
  add('cov nulls', lambda m: m.Cov('x', 'y'), cols='xy', n=5,
      nulls={'x': [(0,)], 'y': [(), (2,)]}, splits=(None,), cost=4)
  add('corr', lambda m: m.Correlation('x', 'y'), cols='xy', n=4, cost=6,
      splits=(None,))
  add('max', lambda m: m.Max('x'), n=4, cost=3, nulls={'x': [(), (1,)]})
  add('min', lambda m: m.Min('x'), n=4, cost=3)
  add('quantile', lambda m: m.Quantile('x', .4), n=3, cost=6,
      keys=[KEYS[2]], distinct='x')
  add('nth', lambda m: m.Nth('x', 0, 'y'), n=4, cols='xy', distinct='y',
      cost=5, keys=KEYS[1:], splits=('g',))
  add('custom', catalog._custom)
  return out


def trees(scn=scn):
  out = []

  def add(name, make, **k):
    out.append(scn(name, make, **k))

  add('arith', lambda m: (m.Sum('x') * 2 - m.Mean('y')) / m.Count('x'),
      cols='xy', nulls={'x': [(), (1,)]})
  add('arith same', lambda m: m.Sum('x') / m.Count('x') - m.Mean('x') * 3)
  add('arith max', lambda m: m.Max('x') - m.Mean('x'), n=4, cost=3)
  add('filtered arith', lambda m: m.Sum('x', where=W) / m.Sum('y'),
      cols='xy', pos='y', keep=[W])
  add('mean of filter', lambda m: m.Mean('x', where=W), n=6)
  add('sum of filter', lambda m: m.Sum('x', where='k > 1'), n=6,
      keys=KEYS[:2], keep=['k > 1'])
  add('sum of emptied filter', lambda m: m.Sum('x', where='k > 1'), n=6,
      keys=KEYS[:1], splits=('g',))
  add('ratio of emptied filter', lambda m: m.Sum('x', where=W) / m.Sum('y'),
      cols='xy', pos='y', keys=KEYS[2:], splits=('g',))
  add('list', lambda m: m.MetricList([m.Sum('x'), m.Mean('y')]), cols='xy',
      nulls={'x': [(), (1,)]})
  add('list filter', lambda m: m.MetricList(
      [m.Sum('x'), m.Mean('x', where='k < 2')], where=W),
      keep=[W, 'k < 2'])
  add('list of paths', lambda m: m.MetricList([m.Sum('x'), m.Max('y')]),
      cols='xy', n=4, cost=4)
  add('list comp', lambda m: m.MetricList([m.Sum('x'), m.Count('x')]) * 2 + 1)
  add('where', lambda m: m.Mean('x'), where=W, n=6)
  add('where 2', lambda m: m.Sum('x'), where='k < 2', n=6)
  add('where both', lambda m: m.Ratio('x', 'y', where='k < 2'), cols='xy',
      pos='y', where=W, n=6, keep=['k < 2'])
  add('where change', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x')),
      where=W, n=6)
  add('lonely', lambda m: m.Sum('x'), keys=LONELY, n=4)
  add('lonely mean', lambda m: m.Mean('x'), keys=LONELY, n=4,
      splits=(None, 'g', ['g', 'k']))
  add('lonely change', lambda m: m.AbsoluteChange('c', 'A', m.Mean('x')),
      keys=LONELY, n=4)
  add('lonely max', lambda m: m.Max('x'), keys=LONELY, n=4)
  for name, make in (
      ('sum', lambda m: m.Sum('x')), ('mean', lambda m: m.Mean('x')),
      ('max', lambda m: m.Max('x')),
      ('change', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x'))),
      ('list', lambda m: m.MetricList([m.Sum('x'), m.Count('x')]) * 2)):
    add('no unit ' + name, make, keys=NO_UNIT)
  return out


def operations(scn=scn):
  out = []

  def add(name, make, **k):
    out.append(scn(name, make, **dict(dict(n=6, cost=4), **k)))

  add('abs', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x')))
  add('abs null', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x')),
      nulls={'x': [(1,), (0, 1)]})
  add('pct', lambda m: m.PercentChange('c', 'A', m.Mean('x')), pos='x')
  add('pct null', lambda m: m.PercentChange('c', 'A', m.Mean('x')), pos='x',
      nulls={'x': [(1,), (0, 3)]})
  add('base', lambda m: m.AbsoluteChange('c', 'A', m.Count('x'), True),
      nulls={'x': [(), (1,)]})
  add('pct base', lambda m: m.PercentChange('c', 'A', m.Sum('x'), True),
      pos='x')
  add('change of filter', lambda m: m.AbsoluteChange(
      'c', 'A', m.Mean('x', where=W)))
  add('filtered change', lambda m: m.AbsoluteChange(
      'c', 'A', m.Sum('x'), where='k < 2'))
  add('change list', lambda m: m.AbsoluteChange('c', 'A', m.MetricList(
      [m.Sum('x'), m.Ratio('x', 'y')])), cols='xy', pos='y')
  add('change arith', lambda m: m.PercentChange(
      'c', 'A', m.Sum('x') / m.Count('y')), cols='xy', pos='x')
  add('change max', lambda m: m.AbsoluteChange('c', 'A', m.Max('x')), n=4)
  add('multi change', lambda m: m.AbsoluteChange(
      ['c', 'k'], ('A', 2), m.Sum('x')), keys=KEYS[:2])
  add('mh', lambda m: m.MH('c', 'A', 'h', m.Ratio('x', 'y')), cols='xy',
      pos='xy', n=5)
  add('dist', lambda m: m.Distribution('h', m.Sum('x')), pos='x')
  add('dist mean', lambda m: m.Distribution('h', m.Mean('x')), pos='x')
  add('cumdist', lambda m: m.CumulativeDistribution('h', m.Sum('x')), pos='x')
  add('dist of change', lambda m: m.AbsoluteChange('c', 'A', m.Distribution(
      'h', m.Sum('x'))), pos='x', cost=6)
  add('hhi', lambda m: m.HHI('h', m.Sum('x')), pos='x')
  add('topk', lambda m: m.TopK('h', 1, m.Sum('x')), pos='x', n=4,
      keys=[KEYS[2]])
  add('change arith of ops', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x')) -
      2 * m.AbsoluteChange('c', 'A', m.Sum('y')), cols='xy')
  add('oplist', lambda m: m.MetricList([
      m.AbsoluteChange('c', 'A', m.Sum('x')),
      m.PercentChange('c', 'A', m.Mean('y'))]), cols='xy', pos='y', n=5)
  return out


def scenarios(tier, seed):
  del tier, seed
  return leaves() + trees() + operations()


DEFAULTS = dict(intern=True, budget_s=90, max_paths=1500, zero_div='assume')
THOROUGH = dict(budget_s=400, max_paths=20000)
FUNCTIONS = ['operations.Jackknife (compute_slices, can_precompute, '
             'get_samples, compute_children, compute_on_children, filters)',
             'operations.MetricWithCI (compute_on_samples, '
             'compute_point_estimate, _estimate_metrics)',
             'utils.get_fully_expanded_equivalent_metric_tree',
             'utils.get_equivalent_metric / get_global_filter / push_filters',
             'metrics.*.compute_slices, operations.Operation subclasses']
EXPLANATION = (
    'The real Jackknife is run symbolically on both its precomputed and its '
    'general path.  The oracle runs the child metric itself on every slice '
    'and on every slice without one unit and applies the delete-one formula; '
    'the solver decides that each point estimate and standard error agree for '
    'all cell values, and that null results coincide.')
BOUNDS = {
    'quick': '3-6 rows, 2-3 units, 3 patterns of units/slices (plus slices '
             'with a single unit and rows without a unit), 1-3 split columns, '
             'about 70 children: every leaf, arithmetic, lists, filters at '
             'every level, nested operations',
    'thorough': 'as quick with a budget of 400 s and 20000 paths per scenario',
}
OUTSIDE = ['more than 6 rows or 3 units', 'a unit whose removal empties a '
           'filter but not the slice (a known finding for split_by)',
           'frames with a single unit (documented as an error)',
           'CUPED/PrePost/models as children (sklearn)', 'confidence (P10)']
ASSUMPTIONS = ['real arithmetic instead of float64', 'denominators are not '
               'zero on the explored paths']

if __name__ == '__main__':
  harness.main('checks.c08')
