"""P03: a where filter is equivalent to pre-filtering the data."""
import os

from checks import catalog
from checks.catalog import COMPOSITES, LEAVES, OPS, same, tab
from symx import harness
from symx.harness import Scenario
from symx.opcheck import NAN, as_list

PROPERTY = 'P03'
LEVEL = 'other'

ms = catalog.ms

KEYS = [
    dict(g=['b', 'a', 'b', 'a', 'b'], k=[2, 1, 2, 1, 1],
         c=['A', 'A', 'B', 'B', 'A'], h=['p', 'q', 'q', 'p', 'p'],
         u=[1, 1, 2, 2, 3]),
    dict(g=['a', 'a', 'a', 'c', 'c'], k=[1, 2, 1, 2, 1],
         c=['B', 'A', 'A', 'A', 'B'], h=['p', 'p', 'q', 'q', 'q'],
         u=[2, 1, 2, 1, 1]),
]
# (where argument, the filters it stands for)
WHERES = {
    'sym': ('z > 2', ['z > 2']),
    'key': ('k == 1', ['k == 1']),
    'list': (['z > 2', 'k == 1 or h == "p"'],
             ['z > 2', 'k == 1 or h == "p"']),
    'or': ('z > 2 or k == 1', ['z > 2 or k == 1']),
    'tuple': (('k == 1 or h == "p"', 'g == "a" or u == 1'),
              ['k == 1 or h == "p"', 'g == "a" or u == 1']),
}
# Other ways to write conditions, each conjoined with a second one.
SPELLINGS = {
    'pipe': 'k == 1 | z > 2',
    'pipeparen': '(k == 1)|(z > 2)',
    'glued': '(k == 1)or(z > 2)',
    'amp': 'k == 1 & z > 2 | h == "p"',
    'orand': 'k == 1 or z > 2 and h == "p"',
    'not': 'not k == 1',
    'tilde': '~(k == 1)',
    'chain': '0 < z < 3',
    'in': 'h in ["p"] or k in [1, 3]',
    'notin': 'h not in ["p"] or z > 2',
}
for _k, _w in SPELLINGS.items():
  WHERES[_k] = ([_w, 'z < 4'], [_w, 'z < 4'])


def keep(t, filters):
  """Rows where every filter holds, evaluated one filter at a time."""
  for f in filters:
    t = t.query(f)
  return t


def filt(env, n):
  """A filter column: symbolic where it matters, both sides elsewhere."""
  z = env.reals('z', n)
  if harness_quick():
    z = [z[0], 5., z[2], 0., z[4] if n > 4 else None][:n]
  return z


def harness_quick():
  return os.environ.get('VERIF_TIER', 'quick') == 'quick'


def frame(env, e, n, zs=True):
  ks = env.pick('keys', KEYS)
  vals = catalog.values(env, e, n)
  if zs:
    vals['z'] = filt(env, n)
  else:
    vals['z'] = [1., 5., 3., 0., 7.][:n]
  return env.frame(dict({k: v[:n] for k, v in ks.items()}, **vals))


def root(e, wname, split, quick=True):
  where, filters = WHERES[wname]

  def fn(env):
    m = ms()
    n = e.opts.get('n', 5)
    hard = e.opts.get('cost', 1) >= 4
    df = frame(env, e, n, zs=not hard)
    sub = keep(df, filters)
    if not len(sub) or e.base and 'A' not in sub['c'].tolist():
      env.assume(False)
    sp = as_list(split)
    before = df.copy()
    metric = e.make(m)
    how = env.pick('how', ['attr', 'add'] if isinstance(where, (list, tuple))
                   else ['attr'])
    if how == 'attr':
      metric.where = where
    else:
      for f in as_list(where):
        metric.add_where(f)
    try:
      want = e.make(m).compute_on(sub, sp)
    except KeyError:
      if e.base:
        env.assume(False)
      raise
    except ValueError:
      if e.kind == 'ci':
        env.assume(False)  # Too little data (P08).
      raise
    got = metric.compute_on(df, sp)
    same(env, 'where', tab(got, sp), tab(want, sp), absent_ok=False)
    env.check_eq('input frame', df, before)

  o = {k: v for k, v in e.opts.items() if k in ('cost', 'budget_s')}
  return Scenario('root:%s:%s:%s' % (e.name, wname, split), fn, **o)


W1, W2, W3 = 'z > 2', 'k == 1 or h == "p"', 'u < 3'


def tree(name, make, want, split=None, extra=(), **opts):
  """make(m) is computed on the frame; want(m, f) says what it should be.

  f(metric, *filters) is the metric without filters on the frame filtered
  by each in turn, as a tab.
  """

  def fn(env):
    m = ms()
    n = 5
    ks = env.pick('keys', KEYS)
    df = env.frame(dict(ks, x=env.reals('x', n, pos=True),
                        y=env.reals('y', n, pos=True), z=filt(env, n)))
    sp = as_list(split)

    def f(metric, *filters):
      sub = keep(df, filters)
      if not len(sub):
        env.assume(False)
      try:
        return tab(metric.compute_on(sub, sp), sp)
      except KeyError:
        env.assume(False)  # No baseline left.
      except ValueError:
        if 'Jackknife' in str(type(metric)):
          env.assume(False)  # Too little data (P08).
        raise

    w = want(m, f)
    try:
      got = make(m).compute_on(df, sp)
    except KeyError as x:
      if x.args == ('A',):
        env.assume(False)
      raise
    same(env, name, tab(got, sp), w)

  return Scenario('tree:%s:%s' % (name, split), fn, **opts)


def join(*tabs):
  """The columns of the tabs side by side; equal names are numbered."""
  out, seen = {}, {}
  for t in tabs:
    for c in set(k[2] for k in t):
      n = seen.get(c, 0)
      seen[c] = n + 1
      for k, v in t.items():
        if k[2] == c:
          out[k + (('dup%d' % n,) if n else ())] = v
  return out


def zipop(env_op, a, b, col):
  """Cellwise op of two one-column tabs; null where either is missing."""
  a = {(s, r): v for (s, r, _), v in a.items()}
  b = {(s, r): v for (s, r, _), v in b.items()}
  out = {}
  for k in set(a) | set(b):
    x, y = a.get(k, NAN), b.get(k, NAN)
    out[k + (col,)] = NAN if harness.isnan(x) or harness.isnan(y) else env_op(
        x, y)
  return out


def trees():
  out = []

  def add(*a, **k):
    for s in (None, 'g'):
      out.append(tree(*a, split=s, **k))

  add('list', lambda m: m.MetricList(
      [m.Sum('x', where=W1), m.Sum('x', name='t'), m.Mean('y', where=W2)],
      where=W3),
      lambda m, f: join(f(m.Sum('x'), W3, W1), f(m.Sum('x', name='t'), W3),
                        f(m.Mean('y'), W3, W2)))
  add('samevar', lambda m: m.MetricList(
      [m.Mean('x', name='a'), m.Mean('x', where=W2, name='b'),
       m.Mean('x', where=[W2, W3], name='c'),
       m.Mean('x', where=[W3, W2], name='d')]),
      lambda m, f: join(f(m.Mean('x', name='a')),
                        f(m.Mean('x', name='b'), W2),
                        f(m.Mean('x', name='c'), W2, W3),
                        f(m.Mean('x', name='d'), W2, W3)))
  add('comp', lambda m: (m.Sum('x', where=W1) - m.Sum('y', where=W2)).add_where(
      W3).set_name('r'),
      lambda m, f: zipop(lambda a, b: a - b, f(m.Sum('x'), W3, W1),
                         f(m.Sum('y'), W3, W2), 'r'))
  add('compself', lambda m: (m.Sum('x', where=W2) / m.Sum('x')).set_name('r'),
      lambda m, f: zipop(lambda a, b: a / b, f(m.Sum('x'), W2), f(m.Sum('x')),
                         'r'))
  add('ratio', lambda m: m.MetricList([
      m.Ratio('x', 'y', where=W2, name='r'), m.Ratio('x', 'y', name='s')]),
      lambda m, f: join(f(m.Ratio('x', 'y', name='r'), W2),
                        f(m.Ratio('x', 'y', name='s'))))
  add('quantile', lambda m: m.Max('x', where=W1) - m.Min('x', where=W1),
      lambda m, f: f(m.Max('x') - m.Min('x'), W1), cost=2)
  add('wmean', lambda m: m.MetricList([
      m.Mean('x', 'y', where=W1), m.Variance('x', weight='y', where=W2)]),
      lambda m, f: join(f(m.Mean('x', 'y'), W1),
                        f(m.Variance('x', weight='y'), W2)), cost=2)
  add('cov', lambda m: m.MetricList([
      m.Cov('x', 'y', where=W2), m.Cov('x', 'y', weight='z', where=W2),
      m.Correlation('x', 'y', where=W2)], where=W3),
      lambda m, f: join(f(m.Cov('x', 'y'), W2, W3),
                        f(m.Cov('x', 'y', weight='z'), W2, W3),
                        f(m.Correlation('x', 'y'), W3, W2)), cost=3)
  add('nth', lambda m: m.MetricList([
      m.Nth('x', 0, 'u', where=W2), m.Quantile('x', .5, where=W3)]),
      lambda m, f: join(f(m.Nth('x', 0, 'u'), W2),
                        f(m.Quantile('x', .5), W3)), cost=3)
  add('addwhere', lambda m: m.Sum('x', where=W1).add_where(W2).add_where(
      [W3, W1]), lambda m, f: f(m.Sum('x'), W1, W2, W3))
  add('nestedlist', lambda m: m.MetricList([
      m.MetricList([m.Sum('x'), m.Mean('y', where=W2)], where=W1),
      m.Sum('x', where=W3, name='t')]),
      lambda m, f: join(f(m.Sum('x'), W1), f(m.Mean('y'), W1, W2),
                        f(m.Sum('x', name='t'), W3)))

  # Operations: the filter of the operation and the one of its child.
  for op, mk in {
      'dist': lambda m, c, w=None: m.Distribution('h', c, where=w),
      'cum': lambda m, c, w=None: m.CumulativeDistribution('h', c, where=w),
      'pct': lambda m, c, w=None: m.PercentChange('c', 'A', c, where=w),
      'abs': lambda m, c, w=None: m.AbsoluteChange('c', 'A', c, where=w),
      'jk': lambda m, c, w=None: m.Jackknife('k', c, where=w),
  }.items():
    cost = 6 if op == 'jk' else 2
    add(op + 'both', lambda m, mk=mk: mk(m, m.Mean('x', where=W1), W2),
        lambda m, f, mk=mk: f(mk(m, m.Mean('x', where=W1)), W2), cost=cost)
    if op != 'jk':
      add(op + 'child', lambda m, mk=mk: mk(m, m.Mean('x', where=W1)),
          lambda m, f, mk=mk: f(mk(m, m.Mean('x')), W1), cost=cost)
    add(op + 'sibling', lambda m, mk=mk: m.MetricList(
        [mk(m, m.Sum('x'), W2), mk(m, m.Sum('x'))]),
        lambda m, f, mk=mk: join(f(mk(m, m.Sum('x')), W2),
                                 f(mk(m, m.Sum('x')))), cost=cost)
  add('mhchild', lambda m: m.MH('c', 'A', 'h', m.Ratio('x', 'y', where=W2)),
      lambda m, f: f(m.MH('c', 'A', 'h', m.Ratio('x', 'y')), W2))
  add('mhboth', lambda m: m.MH('c', 'A', 'h', m.Ratio('x', 'y', where=W2),
                               where=W3),
      lambda m, f: f(m.MH('c', 'A', 'h', m.Ratio('x', 'y')), W2, W3))
  add('hhi', lambda m: m.MetricList([
      m.HHI('h', m.Sum('x', where=W2)), m.HHI('h', m.Sum('x'))]),
      lambda m, f: join(f(m.HHI('h', m.Sum('x')), W2),
                        f(m.HHI('h', m.Sum('x')))))
  add('opcomp', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x', where=W2)) *
      m.AbsoluteChange('c', 'A', m.Sum('x')).set_name('r') if False else (
          m.AbsoluteChange('c', 'A', m.Mean('x'), where=W2) -
          m.AbsoluteChange('c', 'A', m.Mean('x'))).set_name('r'),
      lambda m, f: zipop(lambda a, b: a - b,
                         f(m.AbsoluteChange('c', 'A', m.Mean('x')), W2),
                         f(m.AbsoluteChange('c', 'A', m.Mean('x'))), 'r'))

  # One metric object in several places.
  def shared(m):
    s = m.Sum('x')
    return m.MetricList([m.MetricList([s], where=W1), s,
                         m.MetricList([s], where=W2)])

  add('shared', shared, lambda m, f: join(f(m.Sum('x'), W1), f(m.Sum('x')),
                                          f(m.Sum('x'), W2)))

  def sharedratio(m):
    s, t = m.Sum('x'), m.Sum('y', where=W2)
    return m.MetricList([(s / t).set_name('r'), (t / s).add_where(W3).set_name(
        'q'), t])

  add('sharedratio', sharedratio, lambda m, f: join(
      zipop(lambda a, b: a / b, f(m.Sum('x')), f(m.Sum('y'), W2), 'r'),
      zipop(lambda a, b: a / b, f(m.Sum('y'), W3, W2), f(m.Sum('x'), W3), 'q'),
      f(m.Sum('y'), W2)))

  def sharedop(m):
    s = m.Mean('x', where=W2)
    return m.MetricList([
        m.AbsoluteChange('c', 'A', s), m.PercentChange('c', 'A', s,
                                                       where=W3)])

  add('sharedop', sharedop, lambda m, f: join(
      f(m.AbsoluteChange('c', 'A', m.Mean('x')), W2),
      f(m.PercentChange('c', 'A', m.Mean('x')), W2, W3)))
  return out


def scenarios(tier, seed):
  del seed
  out = []
  quick = tier == 'quick'
  for e in LEAVES + COMPOSITES + OPS:
    for w in WHERES:
      if w in SPELLINGS and e.name not in ('sum', 'list'):
        continue
      if quick and w not in SPELLINGS and w not in ('sym', 'list') and e.name not in (
          'sum', 'ratio', 'list', 'comp', 'abs', 'dist', 'custom', 'mh'):
        continue
      if quick and e.opts.get('cost', 1) >= 4 and w == 'sym':
        continue
      for s in (None, 'g'):
        if w in SPELLINGS and (s is None) != (e.name == 'sum'):
          continue
        out.append(root(e, w, s, quick))
  return out + trees()


DEFAULTS = dict(budget_s=100, max_paths=3000, zero_div='assume')
THOROUGH = dict(budget_s=400, max_paths=20000)
FUNCTIONS = ['metrics.Metric.where', 'metrics.Metric.add_where',
             'metrics.Metric.compute_through', 'metrics.Metric.wrap_cache_key',
             'metrics.MetricList', 'metrics.CompositeMetric',
             'operations.* compute_children with filters',
             'operations.Jackknife precomputation with filters']
EXPLANATION = (
    'Each metric with filters at the root, or at several levels of a tree, is '
    'run symbolically and compared cell by cell with the unfiltered metric on '
    'the frame after DataFrame.query with each filter in turn; filters on a '
    'symbolic column make the selected row set symbolic.')
BOUNDS = {
    'quick': '5 rows, 2 key patterns, filters on a symbolic column (every '
             'subset of rows) and on keys, conjunctions of up to three '
             'filters with or; with and without split_by.',
    'thorough': 'every filter form for every metric',
}
OUTSIDE = ['tables with more rows', 'filters that leave no row or no baseline',
           'filters in SQL (P14-P16)']
ASSUMPTIONS = ['real arithmetic instead of float64', 'denominators are not '
               'zero on the explored paths']

if __name__ == '__main__':
  harness.main('checks.c03')
