"""Metrics shared by the relational checks (P02-P05, P17)."""
from symx import data, harness, opcheck
from symx.opcheck import as_list, tup

NAN = float('nan')


def ms():
  return harness.load_meterstick()


class Entry(object):

  def __init__(self, name, make, cols='x', nulls=True, dims='', pos='',
               kind='leaf', base=False, **opts):
    self.name, self.make, self.cols, self.nulls = name, make, cols, nulls
    self.dims, self.pos, self.kind, self.opts = dims, pos, kind, opts
    self.base = base  # Raises without rows of the baseline c == 'A'.


def _custom(m):

  class Spread(m.Metric):
    """A user metric that only has compute()."""

    def __init__(self, var, where=None):
      self.var = var
      super(Spread, self).__init__('spread(%s)' % var, where=where,
                                   additional_fingerprint_attrs=['var'])

    def compute(self, df):
      return 2 * df[self.var].sum() - df[self.var].mean()

  return Spread('x')


LEAVES = [
    Entry('sum', lambda m: m.Sum('x')),
    Entry('count', lambda m: m.Count('x')),
    Entry('distinct', lambda m: m.Count('k', distinct=True), nulls=False),
    Entry('mean', lambda m: m.Mean('x')),
    Entry('wmean', lambda m: m.Mean('x', 'w'), cols='xw', nulls=False,
          pos='w'),
    Entry('max', lambda m: m.Max('x')),
    Entry('min', lambda m: m.Min('x')),
    Entry('dot', lambda m: m.Dot('x', 'y'), cols='xy'),
    Entry('ndot', lambda m: m.Dot('x', 'y', True), cols='xy'),
    Entry('ratio', lambda m: m.Ratio('x', 'y'), cols='xy', pos='y'),
    Entry('var', lambda m: m.Variance('x')),
    Entry('wvar', lambda m: m.Variance('x', weight='w'), cols='xw',
          nulls=False, pos='w', cost=4),
    Entry('sd', lambda m: m.StandardDeviation('x', False)),
    Entry('cv', lambda m: m.CV('x')),
    Entry('cov', lambda m: m.Cov('x', 'y'), cols='xy', nulls=False),
    Entry('wcov', lambda m: m.Cov('x', 'y', weight='w'), cols='xyw',
          nulls=False, pos='w', cost=4),
    Entry('corr', lambda m: m.Correlation('x', 'y'), cols='xy', nulls=False,
          cost=4),
    Entry('quantile', lambda m: m.Quantile('x', .3), cost=4),
    Entry('quantiles', lambda m: m.Quantile('x', [.25, .5]), cost=4),
    Entry('wquantile', lambda m: m.Quantile('x', .3, weight='w'), cols='xw',
          nulls=False, pos='w', cost=9, n=3),
    Entry('nth', lambda m: m.Nth('x', 1, 'y'), cols='xy', nulls=False,
          distinct='y', cost=4),
]
COMPOSITES = [
    Entry('comp', lambda m: (m.Sum('x') * 2 - m.Mean('y')) / m.Count('x'),
          cols='xy', kind='comp'),
    Entry('list', lambda m: m.MetricList([
        m.Sum('x'), m.Mean('y'), m.Sum('x') / m.Sum('y')]), cols='xy',
          pos='y', kind='list'),
    Entry('listcomp', lambda m: m.MetricList([m.Sum('x'), m.Sum('y')]) * 3 - 1,
          cols='xy', kind='list'),
    Entry('custom', _custom, nulls=False, kind='custom'),
]
OPS = [
    Entry('dist', lambda m: m.Distribution('h', m.Sum('x')), dims='h',
          pos='x', kind='op'),
    Entry('dist2', lambda m: m.Distribution(['h', 'c'], m.MetricList(
        [m.Sum('x'), m.Count('y')])), cols='xy', dims='hc', pos='xy',
          kind='op'),
    Entry('cumdist', lambda m: m.CumulativeDistribution('h', m.Sum('x')),
          dims='h', pos='x', kind='op'),
    Entry('cumorder', lambda m: m.CumulativeDistribution(
        'h', m.Sum('x'), order=['q', 'p', 'r']), dims='h', pos='x',
          kind='op'),
    Entry('cumval', lambda m: m.CumulativeDistribution(
        'h', m.Sum('x'), sort_by_values=True), dims='h', pos='x', kind='op',
          cost=4, n=4),
    Entry('pct', lambda m: m.PercentChange('c', 'A', m.Mean('x')), dims='c',
          pos='x', kind='op', base=True),
    Entry('abs', lambda m: m.AbsoluteChange('c', 'A', m.MetricList(
        [m.Sum('x'), m.Ratio('x', 'y')])), cols='xy', pos='y', dims='c',
          kind='op', base=True),
    Entry('absbase', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x'), True),
          dims='c', kind='op', base=True),
    Entry('mh', lambda m: m.MH('c', 'A', 'h', m.Ratio('x', 'y')), cols='xy',
          nulls=False, pos='xy', dims='c', kind='op', base=True),
    Entry('hhi', lambda m: m.HHI('h', m.Sum('x')), pos='x', kind='op'),
    Entry('topk', lambda m: m.TopK('h', 1, m.Sum('x')), pos='x', kind='op',
          cost=4),
    Entry('nxx', lambda m: m.Nxx('h', .6, m.Sum('x')), pos='x', kind='op',
          nulls=False, cost=4, n=4),
    Entry('entropy', lambda m: m.Entropy('h', m.Sum('x')), pos='x', kind='op',
          nulls=False, cost=4),
    Entry('nested', lambda m: m.AbsoluteChange('c', 'A', m.Distribution(
        'h', m.Sum('x'))), pos='x', dims='ch', kind='op', nulls=False,
          base=True),
    Entry('nested2', lambda m: m.Distribution('h', m.AbsoluteChange(
        'c', 'A', m.Sum('x'), include_base=False)), dims='hc', kind='op',
          nulls=False, base=True),
    Entry('opcomp', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x')) * 2 -
          m.AbsoluteChange('c', 'A', m.Sum('y')), cols='xy', dims='c',
          kind='op', nulls=False, base=True),
    Entry('oplist', lambda m: m.MetricList([
        m.AbsoluteChange('c', 'A', m.Sum('x')),
        m.PercentChange('c', 'A', m.Mean('y'))]), cols='xy', pos='y',
          dims='c', kind='op', nulls=False, base=True),
    Entry('jk', lambda m: m.Jackknife('u', m.Mean('x')), kind='ci',
          nulls=False, cost=6),
    Entry('jkratio', lambda m: m.Jackknife('u', m.Ratio('x', 'y')), cols='xy',
          pos='xy', kind='ci', nulls=False, cost=9),
    Entry('jkchange', lambda m: m.Jackknife('u', m.AbsoluteChange(
        'c', 'A', m.Mean('x'))), dims='c', kind='ci', nulls=False,
          base=True, cost=9),
]


def values(env, e, n, pre=''):
  """Value columns for an entry: {name: cells}."""
  out = {}
  for c in e.cols:
    out[c] = env.reals(pre + c, n, pos=c in e.pos)
  for c in e.opts.get('distinct', ''):
    for i in range(n):
      for j in range(i):
        env.assume(out[c][i] != out[c][j])
  if e.nulls:
    c = e.cols[0]
    out[c] = data.with_nulls(out[c], env.pick(
        pre + 'null', [(), (0,)] if n < 5 else [(), (0,), (1, 3)]))
  return out


def tab(res, split=()):
  """{(slice key, rest of the row key, column): cell} of a wide result."""
  split = list(split)
  names = list(res.index.names)
  out = {}
  cols = []
  for c in map(harness.norm_key, res.columns):
    k = cols.count((c,)) + sum(1 for x in cols if x[0] == c and len(x) > 1)
    cols.append((c, 'dup%d' % k) if k else (c,))
  for i, k in enumerate(res.index):
    k = tuple(harness.norm_key(x) for x in tup(k))
    d = dict(zip(names, k))
    if names == [None]:
      d = {}
    sk = tuple(d[s] for s in split)
    rest = tuple((s, d[s]) for s in names if s not in split and s is not None)
    for j, c in enumerate(cols):
      kk = (sk, rest) + c
      while kk in out:
        kk = kk + ('row',)
      out[kk] = res.iat[i, j]
  return out


def same(env, label, got, want, absent_ok=True):
  """Two tabs are the same; a null cell may be absent."""
  for k in sorted(set(got) | set(want), key=repr):
    if not absent_ok and (k in got) != (k in want):
      return env.fail(label, 'cell %s is %s' % (
          k, 'missing' if k in want else 'unexpected'))
    env.check_cell('%s@%s' % (label, k), got.get(k, NAN), want.get(k, NAN))
