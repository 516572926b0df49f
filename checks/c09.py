"""P09: bootstrap replicates are the metric on what was drawn, for every draw."""
from checks import c08, catalog
from checks.c08 import NAN, W, compare, estimates, frame, split_result
from symx import core, draws as draws_lib, harness, ref
from symx.harness import Scenario, norm_key
from symx.opcheck import as_list

PROPERTY = 'P09'
LEVEL = 'other'

ms = catalog.ms

KEYS = [
    dict(u=[1, 1, 2, 2, 3], g=['a', 'b', 'a', 'b', 'b'], k=[2, 1, 1, 1, 2],
         c=['A', 'B', 'B', 'A', 'A'], h=['p', 'q', 'q', 'p', 'p']),
    dict(u=['y', 'x', 'y', 'x', 'z'], g=['a', 'a', 'b', 'a', 'a'],
         k=[1, 1, 2, 2, 1], c=['B', 'A', 'A', 'B', 'A'],
         h=['p', 'p', 'q', 'p', 'p']),
]
NO_UNIT = [
    dict(u=['y', 'x', None, 'x', None], g=['a', 'a', 'c', 'b', 'b'],
         k=[1, 1, 2, 2, 1], c=['B', 'A', 'A', 'B', 'A'],
         h=['p', 'p', 'q', 'p', 'p']),
    dict(u=[NAN, 1, 2, 2, NAN], g=['a', 'a', 'b', 'b', 'a'],
         k=[1, 1, 2, 2, 1], c=['A', 'B', 'A', 'B', 'A'],
         h=['p', 'q', 'q', 'p', 'p']),
]


def outcomes(i, n):
  """What resample i may draw from n labels."""
  if n > 3:
    some = [tuple(range(n)), (0,) * n, (n - 1,) * (n - 1) + (1,),
            tuple(i // 2 for i in range(n)), (0,) + tuple(range(n - 1))]
    return some if i == 0 else some[:2]
  if i == 0:
    return draws_lib.multisets(n)
  return [tuple(range(n))[::-1], (0,) * n][:2 if n > 1 else 1]


def weights(i, n):
  if i == 0 and n <= 2:
    return draws_lib.all_weights(n)
  some = [(1,) * n, tuple(j % 3 for j in range(n)), (0,) * (n - 1) + (2,),
          (0,) * n, (2,) + (0,) * (n - 1), tuple((j + 1) % 2 for j in range(n))]
  return some if i == 0 else some[1:3]


def rows_of(df, split):
  out = {}
  for i in range(len(df)):
    k = tuple(norm_key(df[s].iat[i]) for s in split)
    out.setdefault(k, []).append(i)
  return out


def is_null(x):
  return x is None or harness.isnan(x)


def drawn_rows(env, df, unit, split, draws, poisson, n_rep):
  """[{slice: row numbers}] for each resample, from the log of the draws."""
  slices = rows_of(df, split)
  ids = [None if not unit or is_null(u) else norm_key(u)
         for u in (df[unit] if unit else range(len(df)))]
  out = []
  units = {s: [] for s in slices}
  if unit:
    for s, idx in slices.items():
      for i in idx:
        u = df[unit].iat[i]
        if not is_null(u) and norm_key(u) not in units[s]:
          units[s].append(norm_key(u))
  if draws.calls != n_rep:
    raise core.Unsupported('%d draws for %d replicates' % (
        draws.calls, n_rep))
  for r in range(n_rep):
    sample = {}
    if poisson:
      w = draws.log[r]
      if unit:
        order = sorted((s, u) for s in slices for u in units[s])
      else:
        order = list(range(len(df)))
      if len(w) != len(order):
        env.fail('draws', '%d weights for %d units' % (len(w), len(order)))
        return None
      for x, k in zip(w, order):
        if unit:
          s, u = k
          sample.setdefault(s, []).extend(
              [i for i in slices[s] if ids[i] == u] * x)
        else:
          s = next(s for s in slices if k in slices[s])
          sample.setdefault(s, []).extend([k] * x)
    else:
      for s, idx in slices.items():
        if unit and not units[s]:
          continue
        if (r, s) not in draws.log:
          env.fail('draws', 'nothing drawn for slice %s' % (s,))
          return None
        got = draws.drawn_from[(r, s)]
        want = units[s] if unit else idx
        if sorted(map(repr, got)) != sorted(map(repr, want)):
          env.fail('draws', 'slice %s: drawn from %s instead of %s' % (
              s, got, want))
          return None
        for u in draws.log[(r, s)]:
          sample.setdefault(s, []).extend(
              [i for i in idx if ids[i] == u] if unit
              else [u])
    out.append(sample)
  return out


def replicate(env, make, m, df, rows, split):
  if not rows and split:
    return {}
  try:
    return estimates(make, m, df.iloc[rows], env, True)
  except (ValueError, KeyError):  # As in compute_on_samples.
    return {}


def std(env, t):
  t = [x for x in t if not harness.isnan(x)]
  if len(t) < 2:
    return NAN
  if any(isinstance(x, float) and abs(x) == float('inf') for x in t):
    return NAN
  return ref.std(env, [env.intern(x) for x in t])


def oracle(env, make, m, df, split, samples, keep=None, void=None):
  """{(slice, rest, column): (point estimate, standard error, replicates)}."""
  out = {}
  for s, idx in rows_of(df, split).items():
    sub = df.iloc[idx]
    pt = estimates(make, m, sub, env)
    emptied = any(
        x.get(s) and not len(df.iloc[x[s]].query(k))
        for x in samples for k in keep or ())
    if void:
      emptied = emptied or any(
          void(df.iloc[x[s]]) for x in samples if x.get(s))
    reps = [replicate(env, make, m, df, x.get(s, []), split) for x in samples]
    for k, v in pt.items():
      se = None
      if void and void(sub):
        v = None
      thetas = [x[k] for x in reps if k in x]
      if not emptied:
        se = std(env, thetas)
      out[(s,) + k] = v, se, sum(not harness.isnan(x) for x in thetas)
  return out


def scn(name, make, cols='x', pos='', nulls=None, keys=KEYS, n=4, where=None,
        splits=(None, 'g'), distinct='', cls='Bootstrap', unit='u',
        n_rep=2, keep=None, outs=None, ws=None, paths=(True, False), **opts):

  def fn(env):
    m = ms()
    df = frame(env, keys, n, cols, pos, nulls, distinct)
    sp = as_list(env.pick('split', list(splits)))
    kept = df.query(where) if where else df
    before = df.copy()
    poisson = cls != 'Bootstrap'
    draws = draws_lib.Draws(env, unit, outs or outcomes, ws or weights)
    for opt in paths if unit else (True,):
      draws.restart()
      bst = getattr(m, cls)(unit, make(m), n_rep, enable_optimization=opt,
                            where=where)
      with draws_lib.patched(draws):
        got = bst.compute_on(df, sp)
      samples = drawn_rows(env, kept, unit, sp, draws, poisson, n_rep)
      if samples is None:
        return
      want = oracle(env, make, m, kept, sp, samples, keep)
      pre = 'Poisson Bootstrap SE' if poisson else 'Bootstrap SE'
      compare(env, 'optimised' if opt else 'general',
              split_result(got, sp, pre), want)
    env.check_eq('input frame', df, before)

  return Scenario(name, fn, **opts)


N2 = {'x': [(1,), (0, 1)]}
ALL = None


def children():
  """(name, make, options) of the children."""
  out = []

  def add(name, make, **k):
    out.append((name, make, k))

  add('sum', lambda m: m.Sum('x'), splits=(None, 'g', ['g', 'k']))
  add('sum null', lambda m: m.Sum('x'), nulls=N2)
  add('count', lambda m: m.Count('x'), nulls=N2)
  add('distinct', lambda m: m.Count('k', distinct=True))
  add('mean', lambda m: m.Mean('x'), nulls=N2, splits=('g',))
  add('wmean', lambda m: m.Mean('x', 'w'), cols='xw', pos='w')
  add('dot', lambda m: m.Dot('x', 'y', True), cols='xy')
  add('ratio', lambda m: m.Ratio('x', 'y'), cols='xy', pos='y')
  add('var', lambda m: m.Variance('x'), cost=4, splits=(None,), keys=KEYS[:1])
  add('cov', lambda m: m.Cov('x', 'y', ddof=0), cols='xy', cost=4,
      splits=(None,), keys=KEYS[1:])
  add('max', lambda m: m.Max('x'), cost=3, n=3)
  add('min', lambda m: m.Min('x'), cost=3, n=3, nulls=N2, keys=KEYS[1:])
  add('nth', lambda m: m.Nth('x', 0, 'y'), n=3, cols='xy', distinct='y',
      cost=3, keys=KEYS[1:], splits=('g',), outs=lambda i, n: outcomes(1, n),
      ws=lambda i, n: weights(1, n))
  add('quantile', lambda m: m.Quantile('x', .5), n=3, cost=3,
      keys=KEYS[1:], splits=('g',), outs=lambda i, n: outcomes(1, n),
      ws=lambda i, n: weights(1, n))
  add('custom', catalog._custom, n=3)
  add('arith', lambda m: (m.Sum('x') * 2 - m.Mean('y')) / m.Count('x'),
      cols='xy', splits=('g',))
  add('filtered arith', lambda m: m.Sum('x', where=W) / m.Sum('y'),
      cols='xy', pos='y', keep=[W])
  add('mean of filter', lambda m: m.Mean('x', where='k < 2'))
  add('filters', lambda m: m.MetricList([
      m.Sum('x', where='(k < 2) | (h == "p")', name='or'),
      m.Sum('x', where='(k < 2) & (h == "p")', name='and')]),
      keep=['(k < 2) | (h == "p")', '(k < 2) & (h == "p")'], n=5,
      keys=KEYS[1:], splits=(None,))
  add('list', lambda m: m.MetricList([m.Sum('x'), m.Mean('y')]), cols='xy')
  few = dict(outs=lambda i, n: outcomes(1, n), ws=lambda i, n: weights(1, n))
  add('list of all', lambda m: m.MetricList(
      [m.Sum('x'), m.Count('x'), m.Max('x'), m.Min('x')]), n=3, cost=4,
      keys=KEYS[1:], splits=('g',), **few)
  add('list max', lambda m: m.MetricList(
      [m.Sum('x'), m.Max('y') - m.Count('x')]), cols='xy', n=3, cost=3,
      keys=KEYS[1:], **few)
  add('where', lambda m: m.Mean('x'), where='h == "p"')
  add('where both', lambda m: m.Sum('x', where='k < 2'), where='h == "p"',
      keep=['k < 2'], keys=KEYS[1:])
  add('no unit', lambda m: m.Sum('x'), keys=NO_UNIT, n=5)
  add('no unit mean', lambda m: m.Mean('x'), keys=NO_UNIT, n=5)
  add('no unit max', lambda m: m.Max('x'), n=4, splits=(None,),
      keys=NO_UNIT[:1])
  add('abs', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x')), n=5, cost=2)
  add('pct', lambda m: m.PercentChange('c', 'A', m.Mean('x')), pos='x', n=5,
      cost=2)
  add('base', lambda m: m.AbsoluteChange('c', 'A', m.Count('x'), True))
  add('change of filter', lambda m: m.AbsoluteChange(
      'c', 'A', m.Mean('x', where='k < 2')))
  add('change list', lambda m: m.AbsoluteChange('c', 'A', m.MetricList(
      [m.Sum('x'), m.Ratio('x', 'y')])), cols='xy', pos='y')
  add('change max', lambda m: m.AbsoluteChange('c', 'A', m.Max('x')), n=4,
      cost=3, splits=(None,))
  add('multi change', lambda m: m.AbsoluteChange(
      ['c', 'k'], ('A', 2), m.Sum('x')))
  add('mh', lambda m: m.MH('c', 'A', 'h', m.Ratio('x', 'y')), cols='xy',
      pos='xy', keys=KEYS[1:], cost=2, splits=(None,))
  add('dist', lambda m: m.Distribution('h', m.Sum('x')), pos='x')
  add('cumdist', lambda m: m.CumulativeDistribution('h', m.Count('x')))
  add('hhi', lambda m: m.HHI('h', m.Sum('x')), pos='x', splits=(None,))
  return out


def scenarios(tier, seed):
  del tier, seed
  out = []
  for cls, pre in (('Bootstrap', 'b'), ('PoissonBootstrap', 'p')):
    for name, make, k in children():
      out.append(scn('%s:unit:%s' % (pre, name), make, cls=cls, **k))
      if name.startswith('no unit') or 'filter' in name:
        continue
      k = dict(k, n=min(k.get('n', 4), 4))
      if name not in ('sum', 'mean', 'abs'):
        # Nothing is preaggregated: the child runs as it is.
        k = dict(k, keys=k.get('keys', KEYS)[-1:], splits=('g',))
      out.append(scn('%s:rows:%s' % (pre, name), make, cls=cls, unit=None,
                     **k))
    out.append(scn(pre + ':emptied filter',
                   lambda m: m.Sum('x', where='k > 1'), cls=cls, n=4,
                   keys=KEYS[1:], splits=('g',)))
    out.append(scn(pre + ':three', lambda m: m.Sum('x'), cls=cls, n_rep=3,
                   n=3))
    out.append(scn(pre + ':cached', lambda m: m.Mean('x') + m.Count('k', distinct=True),
                   cls=cls, n_rep=4, n=3, keys=KEYS[1:],
                   outs=lambda i, n: [(0,) * n, tuple(range(n))],
                   ws=lambda i, n: [(1,) * n, (2,) + (0,) * (n - 1)]))
    # Resamples that only differ in the order, or in how often units are drawn.
    for name, make in (('sum', lambda m: m.Sum('x')),
                       ('change', lambda m: m.AbsoluteChange(
                           'c', 'A', m.Sum('x')))):
      boot = cls == 'Bootstrap'
      out.append(scn(
          pre + ':repeated draws of ' + name, make, cls=cls, n=3,
          n_rep=28 if boot else 3, splits=(None,),
          paths=(False,) if name == 'sum' or boot else (True, False),
          keys=[dict(u=[1, 2, 3], g=list('aaa'), k=[1, 1, 2], c=list('ABB'),
                     h=list('ppq'))],
          outs=lambda i, n: [(0, 0, 1), (0, 1, 1), (1, 0, 1), (1, 0, 0),
                             (0, 2, 2)] if i < 2 else [(0, 1, 2)],
          ws=lambda i, n: [(2, 1, 0), (1, 2, 0), (1, 11, 0), (11, 1, 0),
                           (0, 1, 2)][:5 if n > 2 else 4]
          if i < 2 else [(1, 1, 1)[:n]]))
  return out


DEFAULTS = dict(intern=True, budget_s=90, max_paths=3000, zero_div='assume')
THOROUGH = dict(budget_s=400, max_paths=20000)
FUNCTIONS = ['operations.Bootstrap (compute_slices, get_samples, '
             'can_precompute)', 'operations.PoissonBootstrap (get_samples)',
             'operations.get_preaggregated_data / '
             'get_preaggregated_metric(_tree|_var)',
             'operations.MetricWithCI (compute_on_samples, '
             'compute_point_estimate, get_stderrs)',
             'utils.get_fully_expanded_equivalent_metric_tree / '
             'push_filters_to_leaf', 'sql.escape_alias']
EXPLANATION = (
    'The random draws (DataFrame.sample, DataFrameGroupBy.sample and '
    'numpy.random.poisson) are nondeterministic choices that the engine '
    'explores; the cells are symbolic.  The same draw is given to the '
    'preaggregated and to the general path.  The oracle computes the child on '
    'the multiset of rows (of the units) that was drawn and takes the sample '
    'standard deviation; the solver decides equality for all cell values.  It '
    'is also checked that each slice draws from exactly its own rows/units.')
BOUNDS = {
    'quick': '3-5 rows, 2-3 units, 2 key patterns (plus rows without a unit), '
             '2-4 replicates; the first resample is any multiset of up to 3 '
             'labels (5 draws of 4 labels), the others 1-2 draws; Poisson '
             'weights 0-2 (all 9 pairs, else 6 vectors); about 40 children',
    'thorough': 'as quick with a budget of 400 s and 20000 paths per scenario',
}
OUTSIDE = ['the distribution of the draws', 'more replicates, rows or units',
           'a filter of a child that drops every row of a slice of the data '
           'or of a resample (a known finding for split_by)',
           'draws made by other functions than the three above: undecided']
ASSUMPTIONS = ['real arithmetic instead of float64', 'denominators are not '
               'zero on the explored paths']

if __name__ == '__main__':
  harness.main('checks.c09')
