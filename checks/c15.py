"""P15: SQL of operations computes what pandas does."""
from symx import data, harness, sqlcheck
from symx.harness import Scenario

PROPERTY = 'P15'
LEVEL = 'translation_validation'


def ms():
  return harness.load_meterstick()


BASE = dict(g=['b', 'a', 'a', 'b'], c=['A', 'B', 'A', 'B'],
            h=['p', 'q', 'q', 'p'])


def tv(name, make, keys=BASE, splits=(None, 'g'), pos=('x', 'y', 'w'),
       nulls=((),), filt=(), modes=(None, 'mixed'), prep=None, distinct=(),
       **opts):

  def fn(env):
    m = ms()
    ks = env.pick('keys', keys) if isinstance(keys, list) else keys
    n = len(next(iter(ks.values())))
    cols = {k: list(v) for k, v in ks.items()}
    vals = {c: env.reals(c, n, pos=c in pos) for c in ('x', 'y', 'w')}
    for c in distinct:
      for i in range(n):
        for j in range(i):
          env.assume(vals[c][i] != vals[c][j])
    for f in filt:
      # Each filter keeps a row of every cell that is compared.
      f(env, [dict({c: vals[c][i] for c in vals}, **{
          k: cols[k][i] for k in cols}) for i in range(n)])
    if prep:
      prep(env, vals)
    vals['x'] = data.with_nulls(vals['x'], env.pick('null', list(nulls)))
    cols.update(vals)
    df = env.frame(cols)
    split = env.pick('split', list(splits))
    mode = env.pick('mode', list(modes))
    sqlcheck.run(env, df, lambda: make(m), split, mode=mode)

  return Scenario('tv:' + name, fn, **opts)


def keep(cond, *keys):
  """Assume every combination of `keys` keeps at least one row under cond."""
  def f(env, rows):
    groups = {}
    for r in rows:
      groups.setdefault(tuple(r[k] for k in keys), []).append(r)
    for rs in groups.values():
      env.assume(sqlcheck.any_of([cond(r) for r in rs]))
  return f


def scenarios(tier, seed):
  del seed
  out = []

  def add(*a, **k):
    out.append(tv(*a, **k))

  S = lambda m: m.Sum('x')
  R = lambda m: m.Ratio('x', 'y')
  L = lambda m: m.MetricList([m.Sum('x'), m.Mean('y')])
  F = lambda m: m.Sum('x', where='y > 2')
  COMP = lambda m: m.Sum('x') / m.Count('y') - m.Mean('w')
  fy = lambda r: r['y'] > 2
  fx = lambda r: r['x'] < r['w']
  # Slices with all combinations, with a condition missing in one split, with
  # the baseline missing in one split.
  full = dict(g=['b', 'a', 'a', 'b'], c=['A', 'B', 'A', 'B'],
              h=['p', 'q', 'q', 'p'], u=[1, 2, 1, 2])
  noba = dict(g=['b', 'a', 'a', 'b'], c=['B', 'B', 'A', 'C'],
              h=['p', 'q', 'p', 'p'], u=[1, 2, 1, 2])
  nocond = dict(g=['b', 'a', 'a', 'b', 'a'], c=['A', 'B', 'A', 'A', 'C'],
                h=['p', 'q', 'p', 'q', 'p'], u=[1, 2, 1, 2, 3])
  two = dict(g=['b', 'a', 'a', 'b'], c=['A', 'A', 'A', 'B'],
             d=[0, 1, 0, 0], h=['p', 'q', 'p', 'p'])
  two2 = dict(g=['a', 'a', 'a', 'a', 'b'], c=['A', 'A', 'B', 'B', 'A'],
              d=[0, 1, 0, 1, 0], h=['p', 'q', 'p', 'p', 'q'])
  intc = dict(g=[2, 1, 1, 2], c=[0, 1, 0, 1], h=[3, 4, 4, 3])

  for cls in ('PercentChange', 'AbsoluteChange'):
    def C(child, base='A', cond='c', cls=cls, **kw):
      return lambda m: getattr(m, cls)(cond, base, child(m), **kw)
    t = cls[:3] + ':'
    for k, ch in dict(sum=S, ratio=R, list=L, comp=COMP,
                      mean=lambda m: m.Mean('x'),
                      wmean=lambda m: m.Mean('x', 'w'),
                      var=lambda m: m.Variance('x'),
                      mx=lambda m: m.Max('x')).items():
      add(t + k, C(ch), [full, noba, nocond], pos=('y', 'w', 'x')[
          :3 if cls == 'PercentChange' else 2])
    add(t + 'base', C(L, include_base=True), [full, noba, nocond])
    odd = {'A': 'say "A"', 'B': 'B\\n', 'C': "C's"}
    add(t + 'quoted', C(S, base='say "A"'),
        [dict(full, c=[odd[v] for v in full['c']]),
         dict(nocond, c=[odd[v] for v in nocond['c']])],
        pos=['x'] * (cls == 'PercentChange'))
    add(t + 'backslash', C(S, base='B\\n'),
        [dict(full, c=[odd[v] for v in full['c']])],
        pos=['x'] * (cls == 'PercentChange'))
    add(t + 'count', C(lambda m: m.Count('x')), [full, nocond],
        nulls=((), (1,)))
    add(t + 'meannull', C(lambda m: m.Mean('x')), [full, noba, nocond],
        nulls=((1,), (0, 2)))
    add(t + 'int', C(S, 0), intc)
    add(t + 'mod', C(lambda m: m.Sum('x', name='s'), 0, 'c'), intc,
        splits=('g', ['h', 'g']))
    add(t + 'two', C(S, ('A', 0), ['c', 'd']), [two, two2])
    add(t + 'twobase', C(L, ('A', 0), ['c', 'd'], include_base=True),
        [two, two2])
    add(t + 'split2', C(S), [full, nocond], splits=(['g', 'h'], ['h', 'g']))
    add(t + 'filter', C(F), full, filt=[keep(fy, 'c', 'g')], cost=3)
    add(t + 'where', C(lambda m: m.MetricList([m.Sum('x'), m.Max('w')]),
                       where='y > 2'), full, filt=[keep(fy, 'c', 'g')],
        cost=3)
    add(t + 'where2', C(lambda m: m.Mean('x', where='x < w'), where='y > 2'),
        full, splits=(None,), cost=4, filt=[keep(
            lambda r: fy(r) & fx(r), 'c')])
    add(t + 'where2or', C(lambda m: m.Mean('x', where='x < w or y < 1'),
                          where=['y > 2 or h == "p"']),
        full, splits=(None,), cost=4, filt=[keep(
            lambda r: (fy(r) | (r['h'] == 'p')) & (fx(r) | (r['y'] < 1)),
            'c')])
    add(t + 'plus', lambda m, C=C: C(S)(m) + 1, full)
    add(t + 'ratioop', lambda m, C=C: C(S)(m) / C(lambda m: m.Sum('w'))(m),
        full)
    add(t + 'minusleaf', lambda m, C=C: C(S)(m) * m.Sum('w'), full,
        modes=(None,))
    add(t + 'inlist', lambda m, C=C: m.MetricList(
        [C(S)(m), C(lambda m: m.Mean('w'))(m)]), [full, noba])
    add(t + 'inlistsib', lambda m, C=C: m.MetricList(
        [C(F)(m), C(S)(m)]), full, splits=(None,),
        filt=[keep(fy, 'c', 'g')], cost=3)
    add(t + 'nest', lambda m, cls=cls: getattr(m, cls)(
        'c', 'A', m.AbsoluteChange('d', 0, m.Sum('x'))), [two2, two])
    add(t + 'dist', C(lambda m: m.Distribution('h', m.Sum('x'))), [
        dict(full, h=['p', 'p', 'q', 'q']), full])
    add(t + 'distsplit', lambda m, C=C: m.Distribution('h', C(S)(m)), [
        dict(full, g=[1, 1, 1, 1])], splits=('g',), modes=(None,))
    add(t + 'ofcum', C(lambda m: m.CumulativeDistribution(
        'h', m.Sum('x'))), dict(full, h=['p', 'p', 'q', 'q']))

  # Distribution and CumulativeDistribution.
  dk = [dict(g=['b', 'a', 'a', 'b'], h=['p', 'q', 'p', 'p'],
             k=[2, 1, 2, 1]),
        dict(g=['b', 'a', 'a', 'b'], h=['r', 'q', 'p', 'p'],
             k=[2, 1, 2, 2])]
  for nm, ch in dict(sum=S, ratio=R, list=L, comp=COMP,
                     count=lambda m: m.Count('x')).items():
    add('dist:' + nm, lambda m, ch=ch: m.Distribution('h', ch(m)), dk)
    add('cum:' + nm, lambda m, ch=ch: m.CumulativeDistribution('h', ch(m)), dk)
  add('dist:two', lambda m: m.Distribution(['h', 'k'], L(m)), dk)
  add('dist:filter', lambda m: m.Distribution('h', F(m)), dk[:1],
      filt=[keep(fy, 'g', 'h')], cost=3)
  add('dist:where', lambda m: m.Distribution('h', S(m), where='y > 2'),
      dk[:1], filt=[keep(fy, 'g')], cost=3)
  add('dist:inlist', lambda m: m.MetricList(
      [m.Distribution('h', S(m)), m.Distribution('h', m.Sum('w'))]), dk)
  add('dist:arith', lambda m: m.Distribution('h', S(m)) / m.Distribution(
      'h', m.Sum('w')) - 1, dk)
  add('dist:nest', lambda m: m.Distribution('h', m.Distribution(
      'k', S(m))), dk, modes=(None,))
  add('dist:cum', lambda m: m.CumulativeDistribution('h', m.Distribution(
      'k', S(m))), dk[:1], modes=(None,))
  add('cum:desc', lambda m: m.CumulativeDistribution(
      'h', L(m), ascending=False), dk)
  add('cum:order', lambda m: m.CumulativeDistribution(
      'h', L(m), order=['q', 'r', 'p']), dk)
  add('cum:orderdesc', lambda m: m.CumulativeDistribution(
      'h', S(m), order=['q', 'r', 'p'], ascending=False), dk)
  add('cum:orderint', lambda m: m.CumulativeDistribution(
      'k', S(m), order=[2, 1]), dk)

  def noties(env, v):
    x = v['x']
    for a, b in ((x[2] + x[0] + x[3], x[1]), (x[2] + x[3], x[0]),
                 (x[2] + x[3], x[1]), (x[1], x[2]), (x[0], x[3]),
                 (x[0], x[1])):
      env.assume(a != b)

  for asc in (True, False):
    add('cum:values%s' % asc, lambda m, asc=asc: m.CumulativeDistribution(
        'h', S(m), sort_by_values=True, ascending=asc), dk, distinct=('x',),
        cost=3, prep=noties)
  add('cum:filter', lambda m: m.CumulativeDistribution('h', F(m)), dk[:1],
      filt=[keep(fy, 'g', 'h')], cost=3)
  add('cum:split2', lambda m: m.CumulativeDistribution('h', S(m)), dk,
      splits=(['g', 'k'], ['k', 'g']))

  # MH.
  mk = [dict(full, h=['p', 'q', 'q', 'p']),
        dict(g=['a', 'b', 'a', 'b', 'a'], c=['A', 'B', 'B', 'A', 'C'],
             h=['p', 'p', 'p', 'p', 'q']),
        dict(g=['a', 'a', 'a', 'a', 'b'], c=['A', 'B', 'B', 'A', 'B'],
             h=['p', 'p', 'q', 'q', 'q'])]
  mh = {
      'ratio': lambda m: m.MH('c', 'A', 'h', R(m)),
      'comp': lambda m: m.MH('c', 'A', 'h', m.Sum('x') / m.Count('w')),
      'base': lambda m: m.MH('c', 'A', 'h', R(m), include_base=True),
      'list': lambda m: m.MH('c', 'A', 'h', m.MetricList(
          [R(m), m.Ratio('w', 'y')])),
      'listshare': lambda m: m.MH('c', 'A', 'h', m.MetricList(
          [R(m), m.Ratio('y', 'x')])),
  }
  for k, f in mh.items():
    add('mh:' + k, f, mk)
  mk2 = [dict(g=['a', 'a', 'a', 'a', 'b'], c=['A', 'B', 'B', 'A', 'B'],
              d=[1, 1, 1, 1, 1], h=['p', 'p', 'q', 'q', 'q'],
              k=[0, 0, 1, 1, 1])]
  add('mh:strata2', lambda m: m.MH('c', 'A', ['h', 'k'], R(m)), mk2)
  add('mh:cond2', lambda m: m.MH(['c', 'd'], ('A', 1), 'h', R(m)), mk2)
  add('mh:filter', lambda m: m.MH('c', 'A', 'h', m.Ratio(
      'x', 'y', where='y > 2')), mk[:1], filt=[keep(fy, 'c', 'g', 'h')],
      cost=3)
  add('mh:numfilter', lambda m: m.MH('c', 'A', 'h', m.Sum(
      'x', where='y > 2') / m.Sum('w')), mk[:1],
      filt=[keep(fy, 'c', 'g', 'h')], cost=3)
  add('mh:where', lambda m: m.MH('c', 'A', 'h', R(m), where='y > 2'), mk[:1],
      filt=[keep(fy, 'c', 'g', 'h')], cost=3)
  add('mh:plus', lambda m: m.MH('c', 'A', 'h', R(m)) + m.MH(
      'c', 'A', 'h', m.Ratio('w', 'y')), mk)

  # CUPED and PrePost.
  ck = [dict(g=['a'] * 5, c=['A', 'B', 'A', 'B', 'A'], u=[1, 2, 3, 4, 1]),
        dict(g=['a'] * 6, c=['A', 'B', 'A', 'B', 'A', 'B'],
             u=[1, 1, 2, 2, 3, 3])]
  ckg = [dict(g=['a', 'a', 'a', 'a', 'b', 'b'],
              c=['A', 'B', 'A', 'B', 'A', 'B'], u=[1, 1, 2, 2, 3, 3])]
  for cls in ('CUPED', 'PrePostChange'):
    t = cls[:5] + ':'
    def P(child, cov, cls=cls, **kw):
      return lambda m: getattr(m, cls)('c', 'A', child(m), cov(m), 'u', **kw)
    Y = lambda m: [m.Sum('y')]
    add(t + 'sum', P(S, Y), ck, splits=(None,), cost=3)
    add(t + 'split', P(S, Y), ckg, splits=('g',), cost=3)
    add(t + 'ratio', P(lambda m: m.Ratio('x', 'w'), Y), ck[:1],
        splits=(None,), cost=3)
    if cls == 'CUPED':
      add(t + 'base', P(S, Y, include_base=True), ck[:1], splits=(None, 'g'),
        cost=3)
    add(t + 'list', P(lambda m: m.MetricList([m.Sum('x'), m.Sum('w')]), Y),
        ck[:1], splits=(None,), cost=5)
    add(t + 'covfilter', P(S, lambda m: [m.Sum('y', where='g == "a"')]),
        ck[:1], splits=(None,), cost=3)
    add(t + 'where', P(S, Y, where='g == "a"'), ckg, splits=(None,), cost=3)
  add('CUPED:plus', lambda m: m.CUPED('c', 'A', S(m), [m.Sum('y')], 'u') + 1,
      ck[:1], splits=(None,), cost=3)

  # Diversity.
  dv = {
      'HHI': lambda m: m.HHI('h', S(m)),
      'HHIlist': lambda m: m.HHI('h', L(m)),
      'HHI2': lambda m: m.HHI(['h', 'k'], S(m)),
      'Entropy': lambda m: m.Entropy('h', S(m)),
      'Entropylist': lambda m: m.Entropy('h', L(m)),
      'TopK': lambda m: m.TopK('h', 1, S(m)),
      'TopK2': lambda m: m.TopK('h', 2, S(m)),
      'Nxx': lambda m: m.Nxx('h', 0.3, S(m)),
      'Nxx6': lambda m: m.Nxx('h', 0.6, S(m)),
  }
  for k, f in dv.items():
    add('div:' + k, f, dk)
  add('div:Entropy0', lambda m: m.Entropy('h', m.Sum('x')), dk[1:],
      pos=('y', 'w'), log_domain='fork', prep=lambda env, v: [
          env.assume(x >= 0) for x in v['x']] + [env.assume(
              v['x'][3] > 0), env.assume(v['x'][1] > 0)])
  add('div:TopKlist', lambda m: m.TopK('h', 1, m.MetricList(
      [S(m), m.Sum('w')])), dk[:1], cost=2)
  add('div:where', lambda m: m.HHI('h', m.Sum('x', where='y > 2')), dk[:1],
      filt=[keep(fy, 'g')], cost=3)
  add('mh:quoted', lambda m: m.MH('c', 'say "A"', 'h', R(m)), [
      dict(h=['p'] * 3 + ["q's"] * 3, c=['say "A"', 'B', 'say "A"'] * 2,
           u=[1, 2, 3, 4, 5, 6], g=['a'] * 6)])
  add('div:pct', lambda m: m.PercentChange('c', 'A', m.HHI('h', S(m))),
      dict(full, h=['p', 'p', 'q', 'q']))
  # Operations that don't have the same rows, next to each other.
  W = lambda m: m.Sum('w')
  for nm, f in {
      'change dist': lambda m: m.MetricList(
          [m.AbsoluteChange('c', 'A', S(m)), m.Distribution('c', S(m))]),
      'dist change': lambda m: m.MetricList(
          [m.Distribution('c', W(m)), m.PercentChange('c', 'A', S(m))]),
      'change cum': lambda m: m.MetricList(
          [m.PercentChange('c', 'A', S(m)), m.CumulativeDistribution(
              'c', W(m)), m.AbsoluteChange('c', 'A', R(m),
                                           include_base=True)]),
      'bases': lambda m: m.MetricList(
          [m.AbsoluteChange('c', 'A', S(m)), m.AbsoluteChange(
              'c', 'B', S(m))]),
      'change/dist': lambda m: m.AbsoluteChange('c', 'A', S(m)) /
                     m.Distribution('c', W(m)),
      'dist-change': lambda m: m.Distribution('c', W(m)) - m.PercentChange(
          'c', 'A', S(m)),
      'bases/': lambda m: m.AbsoluteChange('c', 'A', S(m)) *
                m.PercentChange('c', 'B', R(m)),
      'listchange-dist': lambda m: m.AbsoluteChange('c', 'A', L(m)) *
                         m.Distribution('c', W(m)),
      'mh change': lambda m: m.MetricList(
          [m.MH('c', 'A', 'h', R(m)), m.PercentChange('c', 'A', S(m),
                                                      include_base=True)]),
      'change mh': lambda m: m.MetricList(
          [m.PercentChange('c', 'B', S(m)), m.MH('c', 'A', 'h', R(m))]),
  }.items():
    add('rows:' + nm, f, [full, noba, nocond])
  add('div:list', lambda m: m.MetricList([m.HHI('h', S(m)), m.Sum('x'),
                                          m.TopK('h', 1, S(m))]), dk)
  return out


DEFAULTS = dict(budget_s=150)
THOROUGH = dict(budget_s=900, max_paths=20000)
FUNCTIONS = [
    'operations.py: Distribution, CumulativeDistribution, PercentChange, '
    'AbsoluteChange, PrePostChange, CUPED, MH (get_sql_and_with_clause, '
    'compute_children_sql, compute_on_children, adjust_value)',
    'diversity.py: HHI, Entropy, TopK, Nxx', 'metrics.py: compute_on_sql*',
    'sql.py: all']
EXPLANATION = (
    'As P14: generated SQL is executed symbolically and its result compared '
    'with the symbolic result of compute_on on the same table; mixed mode '
    'runs its SQL part symbolically and its pandas part on the result.')
BOUNDS = dict(quick='4-6 rows, 1-2 slices, 2-3 conditions including slices '
              'without baseline or condition, up to 2 condition/strata columns',
              thorough='same shapes, larger path and solver budgets')
OUTSIDE = ['floating point rounding', 'several covariates (sklearn path; in '
           'P12)', 'ties in sort_by_values', 'custom order that leaves out '
           'values', 'empty sums (0 vs NULL) under filters']
ASSUMPTIONS = ['symx/sqlrun.py follows the BigQuery documentation',
               'reals for floats',
               'denominators that can be non-zero are assumed to be']

if __name__ == '__main__':
  harness.main('checks.c15')
