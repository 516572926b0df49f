"""P05: caching, sharing and batching never change a result."""
import numpy as np

from checks import catalog
from checks.catalog import COMPOSITES, LEAVES, NAN, OPS, same, tab
from symx import data, draws, harness, sqltv
from symx.harness import Scenario
from symx.opcheck import as_list

PROPERTY = 'P05'
LEVEL = 'other'

ms = catalog.ms

KEYS = [
    dict(g=['b', 'a', 'b', 'a', 'b'], k=[2, 1, 2, 1, 1],
         c=['A', 'A', 'B', 'B', 'C'], h=['p', 'q', 'q', 'p', 'r'],
         u=[1, 1, 2, 2, 3]),
    dict(g=['a', 'a', 'a', 'c', 'c'], k=[1, 1, 1, 2, 2],
         c=['B', 'A', 'A', 'A', 'B'], h=['p', 'p', 'q', 'q', 'q'],
         u=[2, 1, 2, 5, 1]),
]


def part(frame, i, n):
  return frame.iloc[:, i:i + n]


def fns(members, m):
  return [f(m) for f in members]


class Ctx(object):
  """Frames of one scenario."""

  def __init__(self, env, cols, nulls, pos, distinct, n):
    i = env.choose('keys', len(KEYS))
    ks = {k: v[:n] for k, v in KEYS[i].items()}
    vals = {c: env.reals(c, n, pos=c in pos) for c in cols}
    for c in distinct:
      for i in range(n):
        for j in range(i):
          env.assume(vals[c][i] != vals[c][j])
    if nulls:
      vals['x'] = data.with_nulls(vals['x'], env.pick(
          'null', [(), (0,)] if n < 5 else [(), (0, 3)]))
    self.df = env.frame(dict(ks, **vals))
    # Another frame: the other keys and the values in another order.
    ks = {k: v[:n] for k, v in KEYS[1 - i].items()}
    self.other = env.frame(dict(ks, **{
        c: v[1:] + v[:1] for c, v in vals.items()}))


def family(name, members, cols='x', nulls=True, pos='', distinct='', n=4,
           splits=(None, 'g'), **opts):
  """All members in one MetricList, in both orders, nested and with a filter,
  equal the members alone; equal fingerprints mean equal values."""

  def fn(env):
    m = ms()
    df = Ctx(env, cols, nulls, pos, distinct, n).df
    sp = as_list(env.pick('split', list(splits)))
    before = df.copy()
    how = env.pick('how', ['list', 'reversed', 'nested', 'cache', 'twice'])
    ids = list(range(len(members)))
    if how == 'reversed':
      ids = ids[::-1]
    alone = [members[i](m).compute_on(df, sp) for i in ids]
    if how == 'cache':
      # The user passes the cache and its key.
      cache = {}
      got = []
      for i in ids:
        r = members[i](m).compute_on(df, sp, cache_key='key', cache=cache)
        got.append(r)
      order = range(len(ids))
    elif how == 'twice':
      # Every member twice, the second time from the cache.
      two = fns([members[i] for i in ids], m)
      r = m.MetricList(two + two[::-1] + two).compute_on(df, sp)
      got, k = [], 0
      order = list(range(len(ids)))
      order = order + order[::-1] + order
      for j in order:
        got.append(part(r, k, len(alone[j].columns)))
        k += len(alone[j].columns)
    else:
      ch = [members[i](m) for i in ids]
      if how == 'nested':
        ch = [m.MetricList(ch[:len(ch) // 2]), m.MetricList(ch[len(ch) // 2:])]
      r = m.MetricList(ch).compute_on(df, sp)
      got, k = [], 0
      order = range(len(ids))
      for j in order:
        got.append(part(r, k, len(alone[j].columns)))
        k += len(alone[j].columns)
      if k != len(r.columns):
        return env.fail('columns', 'got %s' % list(r.columns))
    for j, g in zip(order, got):
      w = alone[j]
      if list(g.columns) != list(w.columns):
        return env.fail('columns', 'got %s want %s' % (
            list(g.columns), list(w.columns)))
      same(env, 'member %d' % ids[j], tab(g, sp), tab(w, sp))
    if how == 'list':
      a = fns(members, m)
      for i in range(len(a)):
        for j in range(i):
          p, q = a[i].get_fingerprint(), a[j].get_fingerprint()
          if hash(p) == hash(q) and p == q:
            if not a[i].where_ == a[j].where_:
              env.fail('equal', 'metrics %d and %d with filters %s and %s' % (
                  i, j, a[i].where_, a[j].where_))
            cells = [{(k[0], k[1]): [] for k in tab(alone[l], sp)}
                     for l in (i, j)]
            for c, l in zip(cells, (i, j)):
              for k, v in tab(alone[l], sp).items():
                c[k[:2]].append(v)
            for k in sorted(set(cells[0]) | set(cells[1]), key=repr):
              u, v = cells[0].get(k), cells[1].get(k)
              if u is None or v is None or len(u) != len(v):
                env.fail('equal', 'metrics %d and %d have different cells' % (
                    i, j))
                continue
              for p, q in zip(u, v):
                env.check_cell('equal fingerprints %d %d@%s' % (i, j, k), p, q)
    env.check_eq('input frame', df, before)

  return Scenario('family:' + name, fn, **opts)


def history(e, quick=True):
  """One instance used again and again on two frames."""

  def fn(env):
    m = ms()
    n = min(e.opts.get('n', 4), 4) if quick else 5
    if quick and e.name in ('quantile', 'quantiles', 'cumval', 'nxx'):
      n = 3
    if quick and e.name == 'wquantile':
      n = 2
    if e.name in ('jkchange', 'mh', 'nested', 'nested2', 'dist2'):
      n = max(n, 4)
    kw = dict(cols=e.cols, nulls=e.nulls, pos=e.pos,
              distinct=e.opts.get('distinct', ''), n=n)
    ctx = Ctx(env, **kw)
    a, b = ctx.df, ctx.other
    how = env.pick('how', ['plain', 'keys', 'shared cache', 'error',
                           'key error'])
    sp = ['g']

    def alone(df, s):
      try:
        return tab(e.make(m).compute_on(df, s), s)
      except KeyError as x:
        env.assume(not (e.base and x.args == ('A',)))
        raise

    def check(label, got, df, s):
      same(env, label, tab(got, s), alone(df, s))

    metric = e.make(m)
    if how == 'plain':
      seq = [(a, sp, {}), (b, [], {}), (a, [], {}), (b, sp, {}), (a, sp, {})]
    elif how == 'keys':
      seq = [(a, sp, dict(cache_key='a')), (b, sp, dict(cache_key='b')),
             (a, [], dict(cache_key='a')), (b, [], {}),
             (a, sp, dict(cache_key='a'))]
    elif how == 'shared cache':
      c = {}
      seq = [(a, sp, dict(cache_key='a', cache=c)),
             (b, sp, dict(cache_key='b', cache=c)),
             (a, [], dict(cache_key='a', cache=c)),
             (a, sp, dict(cache_key='a', cache=c)),
             (b, [], dict(cache_key='b', cache=c)),
             (a, ['k'], dict(cache_key='a', cache=c))]
    else:
      bad = a.drop(columns=['x', 'k'])
      kw = dict(cache_key='a') if how == 'key error' else {}
      try:
        metric.compute_on(bad, sp, **kw)
      except Exception:  # pylint: disable=broad-except
        pass
      seq = [(a, sp, dict(kw, **({'cache_key': 'c'} if kw else {}))),
             (a, [], dict(kw, **({'cache_key': 'c'} if kw else {})))]
    before = [a.copy(), b.copy()]
    for i, (df, s, kw) in enumerate(seq):
      check('step %d' % i, metric.compute_on(df, s, **kw), df, s)
    env.check_eq('first frame', a, before[0])
    env.check_eq('second frame', b, before[1])

  o = {k: v for k, v in e.opts.items() if k in ('cost', 'budget_s')}
  return Scenario('history:%s' % e.name, fn, **o)


def falsy():
  """Any hashable cache_key is a key of its own."""

  def fn(env):
    m = ms()
    ctx = Ctx(env, 'x', False, '', '', 4)
    cache = {}
    metric = m.Sum('x') / m.Count('g')
    frames = [ctx.df, ctx.other]
    seq = [(0, 0), ('a', 1), (0, 0), (0., 0), ('', 1), ((), 0), (0, 0),
           (False, 0), ('a', 1), (frozenset(), 1), ('', 1)]
    for i, (key, f) in enumerate(seq):
      got = metric.compute_on(frames[f], 'g', cache_key=key, cache=cache)
      want = (m.Sum('x') / m.Count('g')).compute_on(frames[f], 'g')
      same(env, 'step %d' % i, tab(got, ['g']), tab(want, ['g']))

  return Scenario('history:falsy keys', fn)


def bootstraps():
  """Bootstraps whose resamples draw the same labels from different units, or
  from other data on the same cache."""

  def scn(name, make, poisson=False, other=False, **opts):

    def fn(env):
      m = ms()
      xs = env.reals('x', 4)
      df = env.frame(dict(x=xs, u=[1, 1, 2, 2], k=[1, 2, 1, 2],
                          c=['A', 'B', 'B', 'A']))
      df2 = env.frame(dict(x=xs[1:] + xs[:1], u=[1, 2, 2, 1],
                           k=[2, 2, 1, 1], c=['A', 'A', 'B', 'B']))
      opts = [(1, 1), (1, 0), (0, 2)] if poisson else [(0, 0), (0, 1), (1, 1)]
      drawn = [[env.pick('draw%d%d' % (i, j), opts) for j in range(2)]
               for i in range(2)]

      def fixed(ds):
        d = draws.Draws(env)
        d.draw = lambda i, key, labels: list(ds[i])
        d.poisson = lambda lam=1., size=None: next(it)
        it = iter([np.array(x) for x in ds])
        return d

      frames = [df, df2] if other else [df, df]
      units = ['u', 'u'] if other else ['u', 'k']
      alone = []
      for i in range(2):
        with draws.patched(fixed(drawn[i])):
          alone.append(make(m, units[i]).compute_on(frames[i]))
      if other:
        cache, got = {}, []
        for i in range(2):
          with draws.patched(fixed(drawn[i])):
            got.append(make(m, 'u').compute_on(
                frames[i], cache_key='key%d' % i, cache=cache))
      else:
        with draws.patched(fixed(drawn[0] + drawn[1])):
          r = m.MetricList([make(m, u) for u in units]).compute_on(df)
        k = len(alone[0].columns)
        got = [part(r, i * k, k) for i in range(2)]
      for i in range(2):
        same(env, 'bootstrap %d' % i, tab(got[i]), tab(alone[i]))

    return Scenario('bootstrap:' + name, fn, cost=3, **opts)

  out = []
  for cls, p in (('Bootstrap', False), ('PoissonBootstrap', True)):
    for opt in (True, False):
      for name, child in (
          ('sum', lambda m: m.Sum('x')),
          ('ratio', lambda m: m.Sum('x') / m.Count('x')),
          ('change', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x')))):
        for other in (False, True):
          out.append(scn(
              '%s %s%s%s' % (cls, name, ' optimised' if opt else '',
                             ' other data' if other else ''),
              lambda m, u, cls=cls, child=child, opt=opt: getattr(m, cls)(
                  u, child(m), 2, enable_optimization=opt),
              p, other))
  return out


def tree(name, make, cols='xy', nulls=False, pos='', n=5, **opts):
  """Trees sharing sub-metric instances: make(m, fresh) gives a list of
  metrics; fresh=True builds every one from its own instances."""

  def fn(env):
    m = ms()
    df = Ctx(env, cols, nulls, pos, '', n).df
    sp = as_list(env.pick('split', [None, 'g']))
    before = df.copy()
    shared = make(m, _sharer(False))
    alone = [x.compute_on(df, sp) for x in make(m, _sharer(True))]
    how = env.pick('how', ['each', 'list', 'reversed', 'again'])
    ids = list(range(len(shared)))
    if how == 'each':
      got = [x.compute_on(df, sp) for x in shared]
    else:
      if how == 'reversed':
        ids = ids[::-1]
      lst = m.MetricList([shared[i] for i in ids])
      r = lst.compute_on(df, sp)
      if how == 'again':
        r = lst.compute_on(df, sp)
      got, k = [], 0
      for i in ids:
        got.append(part(r, k, len(alone[i].columns)))
        k += len(alone[i].columns)
      if k != len(r.columns):
        return env.fail('columns', 'got %s' % list(r.columns))
    for i, g in zip(ids, got):
      if list(g.columns) != list(alone[i].columns):
        return env.fail('columns', 'got %s want %s' % (
            list(g.columns), list(alone[i].columns)))
      same(env, 'metric %d' % i, tab(g, sp), tab(alone[i], sp))
    env.check_eq('input frame', df, before)

  return Scenario('tree:' + name, fn, **opts)


def _sharer(fresh):
  memo = {}

  def get(key, make):
    if fresh:
      return make()
    if key not in memo:
      memo[key] = make()
    return memo[key]

  return get


def _trees():

  def leaf_and_ops(m, s):
    x = lambda: s('x', lambda: m.Sum('x'))
    return [x() * 2, x() + m.Mean('x'), x(), m.Mean('x') * x(), x() - x()]

  def ops(m, s):
    x = lambda: s('x', lambda: m.Sum('x'))
    return [m.AbsoluteChange('c', 'A', x()), m.PercentChange('c', 'A', x()),
            m.AbsoluteChange('c', 'A', x(), where='k < 2'),
            m.AbsoluteChange('c', 'A', x()) * 2]

  def wide(m, s):
    p = lambda: s('p', lambda: m.AbsoluteChange(
        'c', 'A', m.MetricList([m.Sum('x'), m.Sum('y')])))
    return [p(), p() + 1, p() * 2, p(), p() - p(), 3 - p(), -p(), p()]

  def wide_again(m, s):
    p = lambda: s('p', lambda: m.PercentChange(
        'c', 'A', m.MetricList([m.Sum('x'), m.Sum('y')])))
    q = lambda: s('q', lambda: m.MetricList([p(), p() * 2]))
    return [q(), p() / 2, q(), q() + 1]

  def tmpl(m, s):
    p = lambda: s('p', lambda: m.AbsoluteChange(
        'c', 'A', m.MetricList([m.Sum('x'), m.Sum('y')])))
    return [p(), m.MetricList([p(), p()], name_tmpl='T {}'), p(),
            m.MetricList([p()], rename_columns=['u', 'v']), p()]

  def lists(m, s):
    l = lambda: s('l', lambda: m.MetricList([m.Sum('x'), m.Mean('y')]))
    return [l(), l() + 1, m.MetricList([l(), l()], name_tmpl='T {}'), l() * l(),
            l()]

  def renamed(m, s):
    l = lambda: s('l', lambda: m.MetricList(
        [m.Sum('x'), m.Mean('y')], rename_columns=['a', 'b']))
    return [l(), m.Sum('x') * 2, l() + 1, l()]

  def filters(m, s):
    x = lambda: s('x', lambda: m.Sum('x'))
    f = lambda w: m.MetricList([x(), m.Mean('x')], where=w)
    return [f('h == "p"'), x(), f('h != "p"'), f(None), f(['k < 2', 'h != "r"'])]

  def nested_filters(m, s):
    r = lambda: s('r', lambda: m.Ratio('x', 'y', where='k < 2'))
    return [r(), r() * 2, m.MetricList([r()], where='h != "r"'),
            m.Ratio('x', 'y'), r()]

  def dist(m, s):
    x = lambda: s('x', lambda: m.Sum('x'))
    d = lambda: s('d', lambda: m.Distribution('h', x()))
    return [d(), m.CumulativeDistribution('h', x()), d() * 2, d(),
            m.Distribution('h', x(), where='k < 2')]

  def diversity(m, s):
    x = lambda: s('x', lambda: m.Sum('x'))
    return [m.HHI('h', x()), x(), m.HHI('c', x()), m.HHI('h', x()) * 2,
            m.HHI('h', x()).add_where('k < 2')]

  def jackknife(m, s):
    x = lambda: s('x', lambda: m.Mean('x'))
    return [m.Jackknife('u', x()), m.Jackknife('u', x(), 0.9),
            m.Jackknife('u', x() * 2), m.Jackknife('u', x()),
            m.Jackknife('u', x(), enable_optimization=False)]

  def jackknife2(m, s):
    x = lambda: s('x', lambda: m.Sum('x'))
    a = lambda: s('a', lambda: m.AbsoluteChange('c', 'A', x()))
    return [a(), m.Jackknife('u', a(), enable_optimization=False), a() * 2]

  return [
      ('leaf', leaf_and_ops, dict(nulls=True)), ('ops', ops, dict(pos='x')),
      ('wide', wide, {}), ('wide again', wide_again, dict(pos='xy')),
      ('name_tmpl', tmpl, {}), ('lists', lists, dict(nulls=True)),
      ('renamed', renamed, {}), ('filters', filters, {}),
      ('nested filters', nested_filters, dict(pos='y')),
      ('dist', dist, dict(cols='x', pos='x', cost=3)),
      ('diversity', diversity, dict(cols='x', pos='x')),
      ('jackknife', jackknife, dict(cols='x', cost=6)),
  ], jackknife2


W = 'h != "r"'


def families():
  f = []

  def add(name, members, **k):
    f.append((name, members, k))

  add('sum count mean', [
      lambda m: m.Sum('x'), lambda m: m.Count('x'), lambda m: m.Mean('x'),
      lambda m: m.Sum('x') / m.Count('x'), lambda m: m.Sum('x') * m.Count('x'),
      lambda m: m.Sum('x') - m.Count('x'), lambda m: m.Sum('x') + m.Count('x'),
      lambda m: m.Count('x') / m.Sum('x'), lambda m: -m.Sum('x'),
      lambda m: m.Sum('x') ** 2, lambda m: 2 - m.Sum('x'),
      lambda m: m.Sum('x') - 2, lambda m: m.Sum('x') * -1,
  ], pos='x')
  add('constants', [
      lambda m: m.Sum('x') * -1, lambda m: m.Sum('x') * -2,
      lambda m: m.Sum('x')**-1, lambda m: m.Sum('x')**-2,
      lambda m: m.Sum('x') + 1, lambda m: m.Sum('x') + 1.5,
      lambda m: m.Sum('x') * 0, lambda m: 1 / m.Sum('x'),
      lambda m: -1 - m.Sum('x'), lambda m: -2 - m.Sum('x'),
  ], pos='x', nulls=False)
  add('negative nths', [
      lambda m: m.Nth('x', -1, 'y'), lambda m: m.Nth('x', -2, 'y'),
      lambda m: m.Nth('x', 1, 'y'), lambda m: m.Nth('x', 2, 'y')], cols='xy',
      distinct='y', nulls=False, n=3, splits=(None,), cost=4)
  add('mean of distinct', [
      lambda m: m.Mean('x'), lambda m: m.Sum('x') / m.Count(
          'x', distinct=True), lambda m: m.Count('x', distinct=True),
      lambda m: m.Count('x')], n=3, cost=3)
  add('filtered means', [
      lambda m: m.Sum('x', where=W) / m.Count('x', where=W),
      lambda m: m.Mean('x'), lambda m: m.Mean('x', where=W),
      lambda m: m.Sum('x') / m.Count('x'),
      lambda m: m.CompositeMetric(lambda a, b: a / b, '{} / {}', (
          m.Sum('x'), m.Count('x')), where=W),
      lambda m: m.CompositeMetric(lambda a, b: a / b, '{} / {}', (
          m.Sum('x'), m.Count('x')), where='k < 2'),
      lambda m: m.Sum('x', where=W) / m.Count('x'),
      lambda m: m.Sum('x') / m.Count('x', where=W)], nulls=False, n=5)
  add('filtered ratios', [
      lambda m: m.Ratio('x', 'y'), lambda m: m.Ratio('x', 'y', where=W),
      lambda m: m.Ratio('y', 'x'), lambda m: m.Sum('x') / m.Sum('y'),
      lambda m: m.Sum('x', where=W) / m.Sum('y', where=W),
      lambda m: m.Sum('x', where=W) / m.Sum('y'),
      lambda m: m.Sum('x') / m.Sum('y', where=W),
      lambda m: m.MetricList([m.Ratio('x', 'y')], where=W),
      lambda m: m.MetricList([m.Sum('x') / m.Sum('y')])],
      cols='xy', pos='xy', nulls=False, n=5)
  add('means', [
      lambda m: m.Mean('x'), lambda m: m.Mean('x', 'w'), lambda m: m.Mean('w'),
      lambda m: m.Mean('w', 'x'), lambda m: m.Dot('x', 'w'),
      lambda m: m.Dot('x', 'w', True), lambda m: m.Dot('w', 'x'),
      lambda m: m.Dot('w', 'x', True), lambda m: m.Dot('x', 'x'),
      lambda m: m.Dot('x', 'x', True), lambda m: m.Ratio('x', 'w'),
      lambda m: m.Max('x'), lambda m: m.Min('x'),
      lambda m: m.Dot('x', 'w') / m.Sum('w')],
      cols='xw', nulls=False, pos='xw', n=3, cost=2)
  add('variances', [
      lambda m: m.Variance('x'), lambda m: m.Variance('x', False),
      lambda m: m.StandardDeviation('x'),
      lambda m: m.StandardDeviation('x', False), lambda m: m.CV('x'),
      lambda m: m.CV('x', False), lambda m: m.Variance('y'),
      lambda m: m.Variance('x', where=W), lambda m: m.Mean('x'),
      lambda m: m.StandardDeviation('x') / m.Mean('x'),
      lambda m: m.StandardDeviation('x')**2], cols='xy', pos='x', n=4)
  add('weighted variances', [
      lambda m: m.Variance('x'), lambda m: m.Variance('x', weight='w'),
      lambda m: m.Variance('x', False, 'w'),
      lambda m: m.Variance('x', weight='x'),
      lambda m: m.StandardDeviation('x', weight='w'),
      lambda m: m.StandardDeviation('x', False, 'w')], cols='xw', nulls=False,
      pos='xw', n=3, splits=(None,), cost=5)
  add('covs', [
      lambda m: m.Cov('x', 'y'), lambda m: m.Cov('y', 'x'),
      lambda m: m.Cov('x', 'x'), lambda m: m.Cov('x', 'y', True),
      lambda m: m.Cov('x', 'y', ddof=0), lambda m: m.Cov('x', 'y', ddof=2),
      lambda m: m.Cov('y', 'y'), lambda m: m.Variance('x'),
      lambda m: m.Cov('x', 'y', where=W)], cols='xy', nulls=False, n=4)
  add('weighted covs', [
      lambda m: m.Cov('x', 'y'), lambda m: m.Cov('x', 'y', weight='w'),
      lambda m: m.Cov('x', 'y', True, weight='w'),
      lambda m: m.Cov('x', 'w', weight='y'),
      lambda m: m.Cov('x', 'w')], cols='xyw', nulls=False, pos='yw', n=3,
      splits=(None,), cost=5)
  add('corrs', [
      lambda m: m.Correlation('x', 'y'), lambda m: m.Correlation('y', 'x'),
      lambda m: m.Correlation('x', 'w'), lambda m: m.Correlation('x', 'x'),
      lambda m: m.Cov('x', 'y')], cols='xyw', nulls=False, n=3, splits=(None,),
      cost=5)
  add('quantiles', [
      lambda m: m.Quantile('x', .3), lambda m: m.Quantile('x', .5),
      lambda m: m.Quantile('x'), lambda m: m.Quantile('x', [.3]),
      lambda m: m.Quantile('x', [.3, .5]), lambda m: m.Quantile('x', [.5, .3]),
      lambda m: m.Quantile('x', .3, interpolation='lower'),
      lambda m: m.Quantile('x', .3, interpolation='midpoint'),
      lambda m: m.Quantile('y', .3), lambda m: m.Max('x')], cols='xy', n=2,
      splits=(None,), cost=6)
  add('quantiles by slice', [
      lambda m: m.Quantile('x', .3), lambda m: m.Quantile('x', .5),
      lambda m: m.Quantile('x', [.3]), lambda m: m.Quantile('x', [.5, .3])],
      n=3, nulls=False, splits=('g',), cost=6)
  add('wquantiles', [
      lambda m: m.Quantile('x', .3, 'w'), lambda m: m.Quantile('x', .3),
      lambda m: m.Quantile('x', .7, 'w')], cols='xw', nulls=False, pos='xw',
      n=2, splits=(None,), cost=6)
  add('nths', [
      lambda m: m.Nth('x', 0, 'y'), lambda m: m.Nth('x', 1, 'y'),
      lambda m: m.Nth('x', 0, 'y', False), lambda m: m.Nth('x', 0, 'x'),
      lambda m: m.Nth('x', 0, 'y', dropna=True), lambda m: m.Nth('y', 0, 'x'),
      lambda m: m.Nth('x', -1, 'y'), lambda m: m.Max('x')], cols='xy',
      distinct='xy', nulls=False, n=2, splits=(None,), cost=6)
  add('nth nulls', [
      lambda m: m.Nth('x', 0, 'y'), lambda m: m.Nth('x', 0, 'y', dropna=True),
      lambda m: m.Nth('x', 0, 'y', where='k < 2')], cols='xy', distinct='y',
      n=3, cost=6)
  add('dists', [
      lambda m: m.Distribution('h', m.Sum('x')),
      lambda m: m.CumulativeDistribution('h', m.Sum('x')),
      lambda m: m.CumulativeDistribution('h', m.Sum('x'), ascending=False),
      lambda m: m.CumulativeDistribution(
          'h', m.Sum('x'), order=['q', 'p', 'r']),
      lambda m: m.CumulativeDistribution(
          'h', m.Sum('x'), order=['r', 'q', 'p']),
      lambda m: m.Distribution('h', m.Sum('y')),
      lambda m: m.Distribution('h', m.Sum('x'), where='k < 2'),
      lambda m: m.Distribution('h', m.Sum('x', where='k < 2')),
      lambda m: m.Distribution('h', m.Mean('x'))], cols='xy', nulls=False,
      pos='xy', n=4, cost=3)
  add('dist by value', [
      lambda m: m.CumulativeDistribution('h', m.Sum('x')),
      lambda m: m.CumulativeDistribution('h', m.Sum('x'), sort_by_values=True),
      lambda m: m.CumulativeDistribution('h', m.Sum('x'), sort_by_values=True,
                                         ascending=False)],
      nulls=False, pos='x', n=3, cost=5)
  add('changes', [
      lambda m: m.AbsoluteChange('c', 'A', m.Sum('x')),
      lambda m: m.PercentChange('c', 'A', m.Sum('x')),
      lambda m: m.AbsoluteChange('c', 'B', m.Sum('x')),
      lambda m: m.AbsoluteChange('c', 'A', m.Sum('x'), True),
      lambda m: m.AbsoluteChange('c', 'A', m.Sum('y')),
      lambda m: m.AbsoluteChange('c', 'A', m.Sum('x'), where='k < 2'),
      lambda m: m.AbsoluteChange('c', 'A', m.Sum('x', where='k < 2')),
      lambda m: m.AbsoluteChange('c', 'A', m.Mean('x')),
      lambda m: m.AbsoluteChange('c', 'A', m.Sum('x') * m.Count('x')),
      lambda m: m.AbsoluteChange('c', 'A', m.MetricList(
          [m.Sum('x'), m.Sum('y')]))],
      cols='xy', nulls=False, pos='x', n=5, cost=3)
  add('mhs', [
      lambda m: m.MH('c', 'A', 'h', m.Ratio('x', 'y')),
      lambda m: m.MH('c', 'A', 'k', m.Ratio('x', 'y')),
      lambda m: m.MH('c', 'A', ['h', 'k'], m.Ratio('x', 'y')),
      lambda m: m.MH('c', 'B', 'h', m.Ratio('x', 'y')),
      lambda m: m.MH('c', 'A', 'h', m.Ratio('y', 'x')),
      lambda m: m.MH('c', 'A', 'h', m.Ratio('x', 'y'), include_base=True),
      lambda m: m.PercentChange('c', 'A', m.Ratio('x', 'y'))],
      cols='xy', nulls=False, pos='xy', n=5, cost=4)
  add('diversities', [
      lambda m: m.HHI('h', m.Sum('x')), lambda m: m.HHI('c', m.Sum('x')),
      lambda m: m.HHI(['h', 'c'], m.Sum('x')), lambda m: m.HHI(
          'h', m.Sum('y')), lambda m: m.Entropy('h', m.Sum('x')),
      lambda m: m.TopK('h', 2, m.Sum('x')), lambda m: m.TopK(
          'h', 1, m.Sum('x')), lambda m: m.HHI('h', m.Sum('x')).add_where(
              'k < 2')
  ], cols='xy', nulls=False, pos='xy', n=3, cost=5)
  add('nxxs', [
      lambda m: m.Nxx('h', .5, m.Sum('x')), lambda m: m.Nxx(
          'h', .8, m.Sum('x')), lambda m: m.TopK('h', 1, m.Sum('x'))],
      nulls=False, pos='x', n=3, cost=5)
  add('jackknives', [
      lambda m: m.Jackknife('u', m.Mean('x')),
      lambda m: m.Jackknife('k', m.Mean('x')),
      lambda m: m.Jackknife('u', m.Sum('x')),
      lambda m: m.Jackknife('u', m.Sum('x') * m.Count('x')),
      lambda m: m.Jackknife('u', m.Mean('x'), where=W),
      lambda m: m.Jackknife('u', m.Mean('x', where=W)),
      lambda m: m.Jackknife('u', m.Mean('x'), enable_optimization=False)],
      nulls=False, n=5, cost=6, splits=(None,))
  add('intervals', [
      lambda m: m.Jackknife('u', m.Sum('x'), .9),
      lambda m: m.Jackknife('u', m.Sum('x'), .5),
      lambda m: m.Jackknife('k', m.Sum('x'), .9)],
      nulls=False, n=5, cost=6, splits=(None,))
  add('customs', [
      catalog._custom, catalog._custom, lambda m: _custom2(m, 'x', 1),
      lambda m: _custom2(m, 'x', 2), lambda m: _custom2(m, 'y', 2),
      lambda m: _custom2(m, 'x', 2, W), lambda m: m.Sum('x'),
      lambda m: m.CompositeMetric(lambda a, b: a + 2 * b, '{} ? {}', (
          m.Sum('x'), m.Sum('y'))),
      lambda m: m.CompositeMetric(lambda a, b: a - 2 * b, '{} ? {}', (
          m.Sum('x'), m.Sum('y')))], cols='xy', nulls=False, n=5)
  add('sliced', [
      lambda m: _sliced(m, m.Sum('x')), lambda m: _sliced(m, m.Sum('x'), 2),
      lambda m: m.Sum('x'), lambda m: _sliced(m, m.Mean('y')),
      lambda m: _sliced(m, m.Sum('x'), 2, W),
      lambda m: _sliced(m, m.Sum('x', where=W)),
      lambda m: _sliced(m, m.Sum('x') / m.Sum('y'), 3),
      lambda m: _sliced(m, _sliced(m, m.Sum('x'))),
      lambda m: m.Quantile('x', .5)], cols='xy', pos='y',
      nulls=False, n=3, splits=(None, 'g', ['g', 'k']), cost=4)
  add('sliced in operations', [
      lambda m: m.AbsoluteChange('c', 'A', _sliced(m, m.Sum('x'))),
      lambda m: m.AbsoluteChange('c', 'B', _sliced(m, m.Sum('x'))),
      lambda m: m.AbsoluteChange('c', 'A', m.Sum('x'))],
      nulls=False, n=5, cost=4)
  return f


def _custom2(m, var, a, where=None):

  class Affine(m.Metric):
    """Shares its cache entries by its documented attributes."""

    def __init__(self):
      self.var, self.a = var, a
      super(Affine, self).__init__(
          'affine(%s, %s)' % (var, a), where=where,
          additional_fingerprint_attrs=['var', 'a'])

    def compute(self, df):
      return df[self.var].sum() * self.a - df[self.var].mean()

  return Affine()


def _sliced(m, child, a=1, where=None):

  class Sliced(m.Metric):
    """Not vectorised: computes its child in every slice."""

    def __init__(self):
      self.a = a
      super(Sliced, self).__init__(
          'sliced(%s, %s)' % (child.name, a), child, where=where,
          additional_fingerprint_attrs=['a'])

    def compute(self, df):
      return self.compute_util_metric_on(
          self.children[0], df, [], return_dataframe=False) * self.a

  return Sliced()


def by_slice(name, make, cols='x', pos='', n=4, **opts):
  """No slice gets what is cached for another one."""

  def fn(env):
    m = ms()
    df = Ctx(env, cols, False, pos, '', n).df
    sp = as_list(env.pick('split', ['g', ['g', 'k']]))
    got = make(m).compute_on(df, sp)
    rows = {}
    for i in range(len(df)):
      rows.setdefault(tuple(harness.norm_key(df[c].iat[i]) for c in sp),
                      []).append(i)
    want = {}
    for s, idx in rows.items():
      for k, v in tab(make(m).compute_on(df.iloc[idx])).items():
        want[(s,) + tuple(k[1:])] = v
    same(env, 'slices', tab(got, sp), want)

  return Scenario('slices:' + name, fn, **opts)


def sql_history(e):
  """compute_on_sql of one instance with a cache, on two tables."""

  def fn(env):
    m = ms()
    n = max(min(e.opts.get('n', 4), 4), 4 if e in OPS else 3)
    ctx = Ctx(env, e.cols, False, e.pos, e.opts.get('distinct', ''), n)
    run = sqltv.executor(env, {'T': ctx.df, 'U': ctx.other})
    mode = env.pick('mode', [None, 'mixed'])
    metric, c, sp = e.make(m), {}, ['g']
    seq = [('T', sp, None), ('T', sp, 'a'), ('U', sp, 'b'), ('T', [], 'a'),
           ('U', sp, 'b'), ('T', sp, 'a'), ('U', [], None), ('U', [], 'b')]
    memo = {}
    for i, (t, s, key) in enumerate(seq):
      kw = dict(cache_key=key, cache=c) if key else {}
      got = metric.compute_on_sql(t, s, run, mode=mode, **kw)
      k = t, tuple(s)
      if k not in memo:
        memo[k] = tab(e.make(m).compute_on_sql(t, s, run, mode=mode), s)
      same(env, 'step %d' % i, tab(got, s), memo[k])

  return Scenario('sql history:%s' % e.name, fn, cost=3)


NO_SQL = ('custom', 'wquantile', 'quantiles', 'nxx', 'cumval', 'wvar')


def scenarios(tier, seed):
  del seed
  quick = tier == 'quick'
  out = [family(n, mem, **k) for n, mem, k in families()]
  for e in LEAVES + COMPOSITES + OPS:
    out.append(history(e, quick))
  trees, jk2 = _trees()
  for n, make, k in trees:
    out.append(tree(n, make, **k))
  out.append(tree('jackknife2', jk2, cols='x', cost=6, n=5))
  out.append(falsy())
  out += bootstraps()
  out += [
      by_slice('child', lambda m: _sliced(m, m.Sum('x'))),
      by_slice('list', lambda m: m.MetricList([
          _sliced(m, m.Sum('x')), m.Sum('x'), _sliced(m, m.Sum('x'), 2)])),
      by_slice('nested', lambda m: _sliced(m, _sliced(m, m.Mean('x')), 3)),
      by_slice('ratio', lambda m: _sliced(m, m.Sum('x')) / _sliced(
          m, m.Sum('y')), 'xy', 'y'),
      by_slice('custom', lambda m: m.MetricList([
          _custom2(m, 'x', 1), _custom2(m, 'x', 2)])),
      by_slice('quantile', lambda m: m.Quantile('x', .5), n=3)]
  out += [sql_history(e) for e in LEAVES + COMPOSITES + OPS
          if e.name not in NO_SQL]
  return out


DEFAULTS = dict(budget_s=90, max_paths=1500, zero_div='assume')
THOROUGH = dict(budget_s=400, max_paths=20000)
FUNCTIONS = ['metrics.Metric._compute_with_caching_and_postprocessing/'
             'wrap_cache_key/save_to_cache/get_cached/clean_up_cache/'
             'get_fingerprint/__eq__', 'metrics.MetricList',
             'metrics.CompositeMetric.compute_on_children/get_fingerprint',
             'metrics.Ratio.get_fingerprint', 'metrics.Dot.get_fingerprint',
             'utils.CacheKey', 'operations.Operation.compute_children/'
             'compute_on_children', 'operations.Jackknife']
EXPLANATION = (
    'Metrics are run symbolically alone with fresh instances and then batched '
    'in a MetricList, with a shared cache, repeatedly on two frames, with '
    'shared sub-metric instances and after an exception; the solver decides '
    'that every cell equals the cell computed alone, for all cell values. '
    'Members of a family with equal fingerprints must have equal values.')
BOUNDS = {
    'quick': 'up to 5 rows, 2 key patterns, 25 families of confusable '
             'metrics, histories of up to 6 computations on 2 frames for every '
             'metric of the catalogue and 8 of compute_on_sql for most, 13 trees '
             'with shared instances',
    'thorough': 'as quick, 5 rows in the histories',
}
OUTSIDE = ['histories longer than 6 computations', 'concurrent use of one '
           'metric instance', 'results changed by the caller', 'a Jackknife of '
           'a custom metric with children that is not an Operation']
ASSUMPTIONS = ['real arithmetic instead of float64', 'denominators are not '
               'zero on the explored paths']

if __name__ == '__main__':
  harness.main('checks.c05')
