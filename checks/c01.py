"""P01: leaf metrics equal their textbook definition."""
from symx import data, harness, ref
from symx.harness import Scenario

PROPERTY = 'P01'
LEVEL = 'other'


def _m():
  return harness.load_meterstick()


NAN = float('nan')


def leaf(name, make, oracle, cols=('x',), nulls=True, pos=(), n=4,
         multi=False, patterns=None, tag='', splits=('none', 'one', 'list'),
         null_col=None, idx=(0, 1), distinct=(), null_pats=None, **opts):
  """A scenario comparing metric.compute_on with the oracle per slice."""

  def fn(env):
    vals = {}
    for c in cols:
      vals[c] = env.reals(c, n, pos=c in pos)
    g = env.pick('g', patterns or (data.G4 if n == 4 else data.G5))
    if nulls:
      pat = env.pick('null', null_pats or
                     (data.NULLS4 if n == 4 else [(), (0,), (1, 3)]))
      nc = null_col or cols[0]
      vals[nc] = data.with_nulls(vals[nc], pat)
    for c in distinct:
      for i in range(n):
        for j in range(i):
          env.assume(vals[c][i] != vals[c][j])
    df = env.frame({**{'g': g}, **vals})
    if env.pick('index', list(idx)):
      df.index = [7, 7, 3, 3, 9][:n]
    before = df.copy()
    split = env.pick('split', list(splits))
    metric = make(_m())
    if split == 'none':
      got = metric.compute_on(df)
      rows = {0: list(range(n))}
      keys = [0]
    else:
      got = metric.compute_on(df, 'g' if split == 'one' else ['g'])
      rows = data.by_key(g)
      keys = list(rows)
    want = {}
    for k in keys:
      r = oracle(env, {c: ref.take(vals[c], rows[k]) for c in cols})
      if multi:
        for col, v in r.items():
          want[(k, col)] = v
      else:
        want[(k, name)] = r
    gc = harness.cells(got)
    if split != 'none':
      # A slice without a value may be absent (e.g. Nth): treat as null.
      for k in want:
        gc.setdefault(k, NAN)
    env.check_eq('value', gc, want)
    env.check('input unchanged',
              list(df.columns) == list(before.columns) and
              list(df.index) == list(before.index) and
              all(a is b or a == b or (a != a and b != b)
                  for c in df for a, b in zip(df[c], before[c])))

  return Scenario('leaf:%s%s:n%d' % (name, tag, n), fn, **opts)


def scenarios(tier, seed):
  del seed
  out = []
  quick = tier == 'quick'

  def add(*a, **k):
    out.append(leaf(*a, **k))

  ns = [4] if quick else [4, 5]
  for n in ns:
    pats = None
    if n == 5:
      pats = [['a', 'b', 'a', 'b', 'b'], ['b', 'b', 'a', 'c', 'a'],
              ['a'] * 5]
    kw = dict(n=n, patterns=pats)
    add('sum(x)', lambda m: m.Sum('x'), lambda e, d: ref.total(e, d['x']), **kw)
    add('count(x)', lambda m: m.Count('x'), lambda e, d: ref.count(e, d['x']),
        **kw)
    add('mean(x)', lambda m: m.Mean('x'), lambda e, d: ref.mean(e, d['x']),
        **kw)
    add('max(x)', lambda m: m.Max('x'), lambda e, d: ref.vmax(e, d['x']), **kw)
    add('min(x)', lambda m: m.Min('x'), lambda e, d: ref.vmin(e, d['x']), **kw)
    add('var(x)', lambda m: m.Variance('x'), lambda e, d: ref.var(e, d['x']),
        **kw)
    add('VARP', lambda m: m.Variance('x', unbiased=False, name='VARP'),
        lambda e, d: ref.var(e, d['x'], 0), **kw)
    add('sd(x)', lambda m: m.StandardDeviation('x'),
        lambda e, d: ref.std(e, d['x']), **kw)
    add('SDP', lambda m: m.StandardDeviation('x', False, name='SDP'),
        lambda e, d: ref.std(e, d['x'], 0), **kw)
    add('cv(x)', lambda m: m.CV('x'),
        lambda e, d: e.div(ref.std(e, d['x']), ref.mean(e, d['x'])), **kw)
    add('CVP', lambda m: m.CV('x', False, name='CVP'),
        lambda e, d: e.div(ref.std(e, d['x'], 0), ref.mean(e, d['x'])), **kw)
    kw['nulls'] = False
    add('y-weighted mean(x)', lambda m: m.Mean('x', 'y'),
        lambda e, d: ref.wmean(e, d['x'], d['y']), cols=('x', 'y'), **kw)
    add('sum(x * y)', lambda m: m.Dot('x', 'y'),
        lambda e, d: ref.total(e, [a * b for a, b in zip(d['x'], d['y'])]),
        cols=('x', 'y'), n=n, patterns=pats)
    add('mean(x * y)', lambda m: m.Dot('x', 'y', True),
        lambda e, d: ref.mean(e, [a * b for a, b in zip(d['x'], d['y'])]),
        cols=('x', 'y'), n=n, patterns=pats)
    add('x / y', lambda m: m.Ratio('x', 'y', name='x / y'),
        lambda e, d: e.div(ref.total(e, d['x']), ref.total(e, d['y'])),
        cols=('x', 'y'), n=n, patterns=pats)
    add('cov(x, y)', lambda m: m.Cov('x', 'y'),
        lambda e, d: ref.npcov(e, d['x'], d['y'])
        if len(d['x']) > 1 else NAN, cols=('x', 'y'), **kw)
    add('COVB', lambda m: m.Cov('x', 'y', bias=True, name='COVB'),
        lambda e, d: ref.npcov(e, d['x'], d['y'], ddof=0), cols=('x', 'y'),
        **kw)
    add('COV0', lambda m: m.Cov('x', 'y', ddof=0, name='COV0'),
        lambda e, d: ref.npcov(e, d['x'], d['y'], ddof=0), cols=('x', 'y'),
        **kw)
    add('COV2', lambda m: m.Cov('x', 'y', ddof=2, name='COV2'),
        lambda e, d: ref.npcov(e, d['x'], d['y'], ddof=2)
        if len(d['x']) > 2 else NAN, cols=('x', 'y'), nulls=False, n=n,
        # With exactly ddof rows np.cov divides by zero (+-inf): not claimed.
        patterns=[['b', 'a', 'a', 'a', 'a'][:n], ['a'] * n])
    add('corr(x, y)', lambda m: m.Correlation('x', 'y'),
        lambda e, d: ref.corr(e, d['x'], d['y']), cols=('x', 'y'), **kw)
    # Weighted second moments; the weights leave the denominators positive.
    def positive_den(e, d, fw=None):
      del fw
      e.assume(ref.total(e, d['w']) > 1)
    def wv(ddof):
      def f(e, d):
        if ddof:
          e.assume(ref.total(e, d['w']) > 1)
        return ref.wvar(e, d['x'], d['w'], ddof)
      return f
    def wcov(ddof):
      def f(e, d):
        if ddof:
          s1 = ref.total(e, d['w'])
          s2 = ref.total(e, [a * a for a in d['w']])
          if len(d['w']) < 2:
            return NAN
          e.assume(s1 * s1 > s2 * ddof)
        return ref.npcov(e, d['x'], d['y'], aw=d['w'], ddof=ddof)
      return f
    def fcov(e, d):
      e.assume(ref.total(e, d['w']) > 1)
      return ref.npcov(e, d['x'], d['y'], fw=d['w'])
    def wfcov(ddof):
      def f(e, d):
        if ddof:
          s1 = ref.total(e, [a * b for a, b in zip(d['w'], d['f'])])
          s2 = ref.total(e, [a * a * b for a, b in zip(d['w'], d['f'])])
          e.assume(s1 * s1 > s2)
        return ref.npcov(e, d['x'], d['y'], aw=d['w'], fw=d['f'], ddof=ddof)
      return f
    wk = dict(nulls=False, n=n, pos=('w', 'f'),
              patterns=[['b', 'a', 'a', 'b'], ['a', 'b', 'a', 'a']] if n == 4
              else [['a', 'b', 'a', 'b', 'b']])
    add('w-weighted var(x)', lambda m: m.Variance('x', weight='w'), wv(1),
        cols=('x', 'w'), **wk)
    add('WVARP', lambda m: m.Variance('x', False, weight='w', name='WVARP'),
        wv(0), cols=('x', 'w'), **wk)
    add('w-weighted sd(x)', lambda m: m.StandardDeviation('x', weight='w'),
        lambda e, d: e.sqrt(wv(1)(e, d)), cols=('x', 'w'), **wk)
    add('w-weighted cov(x, y)', lambda m: m.Cov('x', 'y', weight='w'), wcov(1),
        cols=('x', 'y', 'w'), **wk)
    add('WCOVB', lambda m: m.Cov('x', 'y', True, weight='w', name='WCOVB'),
        wcov(0), cols=('x', 'y', 'w'), **wk)
    add('w-fweighted cov(x, y)', lambda m: m.Cov('x', 'y', fweight='w'), fcov,
        cols=('x', 'y', 'w'), **wk)
    add('FWCOV', lambda m: m.Cov('x', 'y', weight='w', fweight='f',
                                 name='FWCOV'), wfcov(1),
        cols=('x', 'y', 'w', 'f'), **wk)
    add('w-weighted corr(x, y)', lambda m: m.Correlation('x', 'y', weight='w'),
        lambda e, d: e.div(
            wcov(0)(e, d),
            e.sqrt(ref.wvar(e, d['x'], d['w'], 0)) *
            e.sqrt(ref.wvar(e, d['y'], d['w'], 0))),
        cols=('x', 'y', 'w'), **wk)
    # Order statistics.
    qk = dict(n=n, patterns=[['b', 'a', 'a', 'b', 'b'][:n], ['a', 'b', 'a', 'a', 'a'][:n]],
              null_pats=[(), (1,)], idx=(1,), splits=('none', 'one'), cost=5)
    one = dict(qk, patterns=[['a', 'b', 'a', 'a', 'a'][:n]])
    for interp in ('linear', 'lower', 'higher', 'midpoint'):
      add('quantile(x, 0.3)',
          lambda m, i=interp: m.Quantile('x', 0.3, interpolation=i),
          lambda e, d, i=interp: ref.quantile(e, d['x'], 0.3, i),
          tag=':' + interp, **(qk if interp == 'linear' else one))
    add('quantile(x, 0.5)', lambda m: m.Quantile('x'),
        lambda e, d: ref.quantile(e, d['x'], 0.5), **one)
    for q in (0, 1, 0.75):
      add('quantile(x, %s)' % q, lambda m, q=q: m.Quantile('x', q),
          lambda e, d, q=q: ref.quantile(e, d['x'], q), **one)
    add('manyq', lambda m: m.Quantile('x', [0.25, 0.9]),
        lambda e, d: {'quantile(x, %s)' % q: ref.quantile(e, d['x'], q)
                      for q in (0.25, 0.9)}, multi=True, **qk)
    add('MEDQ', lambda m: m.Quantile('x', [0.5], name='MEDQ'),
        lambda e, d: ref.quantile(e, d['x'], 0.5), **one)
    wq = dict(cols=('x', 'w'), pos=('w',), n=3 if quick else n - 1,
              patterns=[['a', 'b', 'a', 'a'][:3 if quick else n - 1]],
              idx=(1,), splits=('none', 'one'), cost=9, budget_s=200)
    for q in (0.3, 0.5):
      add('w-weighted quantile(x, %s)' % q,
          lambda m, q=q: m.Quantile('x', q, 'w'),
          lambda e, d, q=q: ref.wquantile(e, d['x'], d['w'], q),
          nulls=False, **wq)
    if n == 4:
      add('w-weighted quantile(x, 0.3)', lambda m: m.Quantile('x', 0.3, 'w'),
          lambda e, d: ref.wquantile(e, d['x'], d['w'], 0.3), tag=':nullx',
          null_pats=[(0,), (1,)], **wq)
      add('w-weighted quantile(x, 0.5)', lambda m: m.Quantile('x', 0.5, 'w'),
          lambda e, d: ref.wquantile(e, d['x'], d['w'], 0.5), tag=':nullw',
          null_pats=[(0,), (1,)], null_col='w', **wq)
      add('manywq', lambda m: m.Quantile('x', (0.2, 0.6), 'w'),
          lambda e, d: {'w-weighted quantile(x, %s)' % q:
                        ref.wquantile(e, d['x'], d['w'], q)
                        for q in (0.2, 0.6)}, multi=True, nulls=False, **wq)
    for k in (0, 1, -1, -2):
      for asc in (True, False):
        for dropna in (True, False):
          if quick and (asc, dropna) == (False, False) and k != 1:
            continue
          add('NTH', lambda m, a=(k, asc, dropna): m.Nth(
              'x', a[0], 'y', a[1], a[2], name='NTH'),
              lambda e, d, a=(k, asc, dropna): ref.nth(
                  e, d['x'], d['y'], *a), cols=('x', 'y'),
              tag=':%d%s%s' % (k, 'asc' if asc else 'desc',
                               'drop' if dropna else ''),
              n=n, distinct=('y',), idx=(1,), splits=('none', 'one'),
              patterns=[['b', 'a', 'a', 'b', 'a'][:n]],
              null_pats=[(), (2,)] if dropna else [()], cost=3)
    add('count(distinct x)', lambda m: m.Count('x', distinct=True),
        lambda e, d: ref.ndistinct(e, d['x']), n=n,
        patterns=[['b', 'a', 'a', 'b', 'b'][:n], ['a'] * n],
        null_pats=[(), (1,)], idx=(1,), splits=('none', 'one'))
  return out


DEFAULTS = dict(budget_s=150)
THOROUGH = dict(budget_s=900, max_paths=20000)
FUNCTIONS = ['metrics.py: Metric.compute_on/compute_slices/compute_equivalent',
             'metrics.py: Sum, Count, Mean, Max, Min, Dot, Ratio, Variance, '
             'StandardDeviation, CV, Cov, Correlation, Quantile, Nth',
             'utils.py: get_equivalent_metric, get_fully_expanded_equivalent_'
             'metric_tree, add_auxiliary_cols']
EXPLANATION = (
    'compute_on of every leaf metric is executed on frames with symbolic '
    'cells and compared, cell by cell, with a textbook oracle.')
BOUNDS = dict(quick='4 rows (3 for weighted quantiles); 1-3 slices in 4 key '
              'patterns, 4 null patterns, unsplit / split_by string / list, '
              'default and duplicated index',
              thorough='also 5 rows')
OUTSIDE = ['floating point rounding', 'nulls in two-variable or weighted '
           'metrics other than Dot, Ratio and weighted Quantile',
           'slices with exactly ddof rows in Cov', 'ties in the sort_by of Nth',
           'Correlation methods other than pearson', 'negative weights']
ASSUMPTIONS = ['reals for floats', 'denominators are non-zero where they can '
               'be (exact zero denominators are assumed away)',
               'pandas kernels replaced for symbolic cells follow the pandas '
               'documentation (symx/pdshim.py)']

if __name__ == '__main__':
  harness.main('checks.c01')
