"""P17: melted and unmelted results carry the same values under the same keys."""
import pandas as pd

from checks import catalog
from checks.catalog import COMPOSITES, LEAVES, OPS, Entry
from symx import data, harness
from symx.harness import Scenario, norm_key
from symx.opcheck import as_list, tup

PROPERTY = 'P17'
LEVEL = 'other'

NAN = catalog.NAN
ms = catalog.ms

# Interleaved slices, falsy keys, a single slice, numbers as keys.
KEYS = [
    dict(g=['b', 'a', 'b', 'a', 'b'], k=[2, 1, 2, 1, 1],
         c=['A', 'A', 'B', 'B', 'C'], h=['p', 'q', 'q', 'p', 'r'],
         u=[1, 1, 2, 2, 3]),
    dict(g=[0, 0, 0, 0, 0], k=['', 'y', '', 'y', ''],
         c=['A', 'B', 'B', 'A', 'A'], h=['q', 'q', 'p', 'p', 'p'],
         u=[1, 2, 2, 1, 1]),
    dict(g=['', 'a', '', 'a', 'a'], k=[0, 10, 2, 0, 2],
         c=['A', 'A', 'B', 'B', 'A'], h=['p', '', '', 'p', 'p'],
         u=['x', 'y', 'y', 'x', 'y']),
]
SPLITS = (None, 'g', ['k', 'g'])


def row_keys(index, skip=0):
  return [tuple(map(norm_key, tup(k)))[skip:] for k in index]


def wide_content(env, label, res):
  """[(metric, column, row key, cell)] of a wide result, metric by metric."""
  if not isinstance(res, pd.DataFrame):
    env.fail(label, 'type %s' % type(res))
    return None
  keys = row_keys(res.index)
  if list(res.index.names) == [None]:
    keys = [()] * len(keys)
  out = []
  for j, c in enumerate(res.columns):
    c = norm_key(c)
    metric, stat = c if isinstance(c, tuple) and len(c) == 2 else (c, 'Value')
    for i, k in enumerate(keys):
      out.append((metric, stat, k, res.iat[i, j]))
  return out


def long_content(env, label, res):
  if not isinstance(res, pd.DataFrame):
    env.fail(label, 'type %s' % type(res))
    return None
  keys = row_keys(res.index)
  metrics = []
  for k in keys:
    if k[0] not in metrics:
      metrics.append(k[0])
  out = []
  for m in metrics:
    for j, c in enumerate(res.columns):
      for i, k in enumerate(keys):
        if k[0] == m:
          out.append((m, norm_key(c), k[1:], res.iat[i, j]))
  return out


def equal(env, label, got, want, ordered=True):
  if got is None or want is None:
    return
  gk, wk = [x[:3] for x in got], [x[:3] for x in want]
  if len(set(gk)) != len(gk):
    return env.fail(label, 'duplicate keys: %s' % gk)
  if set(gk) != set(wk):
    return env.fail(label, 'keys: missing %s, unexpected %s' % (
        sorted(set(wk) - set(gk), key=repr),
        sorted(set(gk) - set(wk), key=repr)))
  if ordered and gk != wk:
    env.fail(label, 'order: got %s want %s' % (gk, wk))
  d = {x[:3]: x[3] for x in want}
  for x in got:
    env.check_cell('%s@%s' % (label, x[:3]), x[3], d[x[:3]])


def check_names(env, label, wide, long, split, dims):
  """Index names of both shapes."""
  wn = list(wide.index.names)
  ln = list(long.index.names)
  want = list(split) + list(dims)
  if sorted(map(repr, wn)) != sorted(map(repr, want or [None])):
    env.fail(label, 'index names %s want %s' % (wn, want))
  if wn[:len(split)] != list(split) and split:
    env.fail(label, 'index names %s do not start with %s' % (wn, split))
  if ln != ['Metric'] + [n for n in wn if n is not None]:
    env.fail(label, 'melted index names %s, not melted %s' % (ln, wn))


def shapes(e, split, cached=False):
  """compute_on(melted=True), melt() and unmelt() against compute_on()."""

  def fn(env):
    m = ms()
    ks = env.pick('keys', KEYS)
    n = e.opts.get('n', 4 if e.opts.get('cost', 1) > 3 else 5)
    ks = {k: v[:n] for k, v in ks.items()}
    df = env.frame(dict(ks, **catalog.values(env, e, n)))
    sp = as_list(split)
    if cached:
      x = e.make(m)
      wide = x.compute_on(df, sp, cache_key='key')
      long = x.compute_on(df, sp, melted=True, cache_key='key')
      again = x.compute_on(df, sp, cache_key='key')
      equal(env, 'unmelted again', wide_content(env, 'again', again),
            wide_content(env, 'wide', wide))
    else:
      wide = e.make(m).compute_on(df, sp)
      long = e.make(m).compute_on(df, sp, melted=True)
    w = wide_content(env, 'wide', wide)
    l = long_content(env, 'long', long)
    equal(env, 'melted', l, w)
    if w is None or l is None:
      return
    check_names(env, 'names', wide, long, sp, e.dims)
    if not len(wide):
      return  # Nothing to reshape.
    w0, l0 = wide.copy(), long.copy()
    melted = m.utils.melt(wide)
    unmelted = m.utils.unmelt(long)
    equal(env, 'melt(wide)', long_content(env, 'melt', melted), l)
    equal(env, 'unmelt(long)', wide_content(env, 'unmelt', unmelted), w)
    check_names(env, 'melt/unmelt names', unmelted, melted, sp, e.dims)
    equal(env, 'unmelt(melt(wide))', wide_content(
        env, 'unmelt', m.utils.unmelt(melted)), w)
    equal(env, 'melt(unmelt(long))', long_content(
        env, 'melt', m.utils.melt(unmelted)), l)
    env.check_eq('argument of melt', wide, w0)
    env.check_eq('argument of unmelt', long, l0)

  return Scenario('%s:%s:%s' % (
      'cached' if cached else 'shapes', e.name, '+'.join(as_list(split))), fn,
                  cost=e.opts.get('cost', 1) * (3 if e.kind == 'ci' else 1))


def containers(e, split):
  """return_dataframe=False only changes the container."""

  def fn(env):
    m = ms()
    ks = env.pick('keys', KEYS)
    n = e.opts.get('n', 4)
    ks = {k: v[:n] for k, v in ks.items()}
    df = env.frame(dict(ks, **catalog.values(env, e, n)))
    sp = as_list(split)
    wide = e.make(m).compute_on(df, sp)
    got = e.make(m).compute_on(df, sp, return_dataframe=False)
    w = wide_content(env, 'wide', wide)
    parts = list(got) if isinstance(got, (list, tuple)) else [got]
    have = []
    cols = [norm_key(c) for c in wide.columns]
    done = 0
    for p in parts:
      if isinstance(p, pd.DataFrame):
        have += wide_content(env, 'frame', p)
        done += len(p.columns)
      elif isinstance(p, pd.Series):
        if not sp:
          return env.fail('container', 'a Series without split_by')
        if list(p.index.names) != sp:
          env.fail('container', 'index names %s' % list(p.index.names))
        if len(parts) == 1 and p.name != wide.columns[0]:
          env.fail('container', 'name %s' % p.name)
        have += [(cols[done], 'Value', r, v) for r, v in zip(
            row_keys(p.index), p.tolist())]
        done += 1
      else:
        if sp:
          return env.fail('container', 'type %s' % type(p))
        have.append((cols[done], 'Value', (), p))
        done += 1
    if len(parts) > 1:
      # A slice that one of the metrics lacks is null next to the others.
      keys = [x[:3] for x in have]
      w = [x for x in w if not harness.isnan(x[3]) or x[:3] in keys]
    equal(env, 'container', have, w, ordered=len(parts) == 1)

  return Scenario('container:%s:%s' % (e.name, '+'.join(as_list(split))), fn,
                  cost=e.opts.get('cost', 1))


def renames():
  """(name, metric, {old: new} in order, renamed metric, cols)."""
  out = []

  def add(name, make, make2, old, new, cols='xy'):
    out.append((name, make, make2, old, new, cols))

  def rlist(m):
    x = m.MetricList([m.Sum('x'), m.Mean('y'), m.Sum('x') / m.Sum('y')])
    x.rename_columns(['z', 'a', 'm'])
    return x

  add('list', lambda m: m.MetricList(
      [m.Sum('x'), m.Mean('y'), m.Sum('x') / m.Sum('y')]), rlist,
      ['sum(x)', 'mean(y)', 'sum(x) / sum(y)'], ['z', 'a', 'm'])
  add('list init', lambda m: m.MetricList([m.Sum('x'), m.Mean('y')]),
      lambda m: m.MetricList([m.Sum('x'), m.Mean('y')],
                             rename_columns=['2', '1']),
      ['sum(x)', 'mean(y)'], ['2', '1'])
  add('list tmpl', lambda m: m.MetricList([m.Sum('x'), m.Mean('y')]),
      lambda m: m.MetricList([m.Sum('x'), m.Mean('y')], name_tmpl='T {}'),
      ['sum(x)', 'mean(y)'], ['T sum(x)', 'T mean(y)'])
  add('list swap', lambda m: m.MetricList(
      [m.Sum('x', name='p'), m.Sum('y', name='q')]),
      lambda m: m.MetricList([m.Sum('x', name='p'), m.Sum('y', name='q')],
                             rename_columns=['q', 'p']),
      ['p', 'q'], ['q', 'p'])
  add('composite', lambda m: m.Sum('x') - m.Mean('y'),
      lambda m: (m.Sum('x') - m.Mean('y')).set_name('d'),
      ['sum(x) - mean(y)'], ['d'])
  add('composite columns', lambda m: m.MetricList([m.Sum('x'), m.Sum('y')]) -
      m.Mean('x'), lambda m: (m.MetricList([m.Sum('x'), m.Sum('y')]) -
                              m.Mean('x')).rename_columns(['b', 'a']),
      ['sum(x) - mean(x)', 'sum(y) - mean(x)'], ['b', 'a'])
  add('leaf', lambda m: m.Sum('x'), lambda m: m.Sum('x', name='total'),
      ['sum(x)'], ['total'], 'x')
  add('leaf braces', lambda m: m.Mean('x'), lambda m: m.Mean('x', name='{x}'),
      ['mean(x)'], ['{x}'], 'x')
  add('operation', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x')),
      lambda m: m.AbsoluteChange('c', 'A', m.Sum('x'), name_tmpl='d {} !'),
      ['sum(x) Absolute Change'], ['d sum(x) !'], 'x')
  add('operation of list', lambda m: m.Distribution('h', m.MetricList(
      [m.Sum('x'), m.Count('y')])), lambda m: m.Distribution(
          'h', m.MetricList([m.Sum('x'), m.Count('y')],
                            rename_columns=['u', 't'])),
      ['Distribution of sum(x)', 'Distribution of count(y)'],
      ['Distribution of u', 'Distribution of t'])
  add('list of operations', lambda m: m.MetricList([
      m.AbsoluteChange('c', 'A', m.Sum('x')),
      m.PercentChange('c', 'A', m.Sum('y'))]), lambda m: m.MetricList([
          m.AbsoluteChange('c', 'A', m.Sum('x')),
          m.PercentChange('c', 'A', m.Sum('y'))], rename_columns=['n', 'm']),
      ['sum(x) Absolute Change', 'sum(y) Percent Change'], ['n', 'm'])
  add('jackknife', lambda m: m.Jackknife('u', m.MetricList(
      [m.Sum('x'), m.Mean('x')])), lambda m: m.Jackknife('u', m.MetricList(
          [m.Sum('x', name='s'), m.Mean('x', name='m')])),
      ['sum(x)', 'mean(x)'], ['s', 'm'], 'x')
  add('nested list', lambda m: m.MetricList(
      [m.MetricList([m.Sum('x'), m.Sum('y')]), m.Mean('x')]),
      lambda m: m.MetricList([m.MetricList(
          [m.Sum('x'), m.Sum('y')], rename_columns=['i', 'j']), m.Mean('x')],
                             rename_columns=['l', 'k', 'o']),
      ['sum(x)', 'sum(y)', 'mean(x)'], ['l', 'k', 'o'])
  return out


def renamed(name, make, make2, old, new, cols, split):

  def fn(env):
    m = ms()
    ks = env.pick('keys', KEYS)
    n = 5
    df = env.frame(dict(ks, **{c: env.reals(c, n, pos=c == 'y')
                               for c in cols}))
    sp = as_list(split)
    melted = env.pick('melted', [False, True])
    content = long_content if melted else wide_content
    x, y = make(m), make2(m)
    want = content(env, 'old', x.compute_on(df, sp, melted=melted))
    for i in range(2):
      got = content(env, 'new', y.compute_on(df, sp, melted=melted))
      d = dict(zip(old, new))
      if [k for k in dict.fromkeys(w[0] for w in want)] != old:
        return env.fail('columns', 'got %s want %s' % (
            list(dict.fromkeys(w[0] for w in want)), old))
      equal(env, 'renamed %d' % i, got,
            [(d[w[0]],) + w[1:] for w in want])

  return Scenario('rename:%s:%s' % (name, '+'.join(as_list(split))), fn)


def frames():
  """melt() and unmelt() on frames with several value columns."""
  out = []

  def add(name, index, names, metrics, stats, nulls=()):

    def fn(env):
      m = ms()
      cells = {}
      for x in metrics:
        for s in stats:
          for k in index:
            cells[x, s, k] = env.real('v%d' % len(cells))
      for k in nulls:
        cells[k] = NAN
      if stats == ['Value']:
        cols = pd.Index(metrics, name=None)
      else:
        cols = pd.MultiIndex.from_product([metrics, stats],
                                          names=['Metric', None])
      idx = pd.MultiIndex.from_tuples(index, names=names) if len(
          names) > 1 else pd.Index([k[0] for k in index], name=names[0])
      wide = env.frame({
          i: [cells[x, s, k] for k in index]
          for i, (x, s) in enumerate((x, s) for x in metrics for s in stats)})
      wide.index = idx
      wide.columns = cols
      w = [(x, s, tuple(map(norm_key, k)) if names != [None] else (),
            cells[x, s, k])
           for x in metrics for s in stats for k in index]
      long = m.utils.melt(wide)
      equal(env, 'melt', long_content(env, 'melt', long), w)
      nn = [] if names == [None] else names
      if list(long.index.names) != ['Metric'] + nn:
        env.fail('melt', 'index names %s' % list(long.index.names))
      back = m.utils.unmelt(long)
      equal(env, 'unmelt', wide_content(env, 'unmelt', back), w)
      if list(back.index.names) != names:
        env.fail('unmelt', 'index names %s' % list(back.index.names))
      if list(back.columns) != list(wide.columns):
        env.fail('unmelt', 'columns %s' % list(back.columns))
      # Rows in any order: unmelt keeps keys and values together.
      perm = env.pick('perm', [list(range(len(long)))[::-1],
                               sorted(range(len(long)),
                                      key=lambda i: (i * 7) % 5)])
      mixed = m.utils.unmelt(long.iloc[perm])
      equal(env, 'unmelt shuffled', wide_content(env, 'unmelt', mixed), w,
            ordered=False)
      # Keys that only some metrics have.
      if len(index) > 1:
        part = [i for i in range(len(long)) if i != len(long) - 1]
        p = m.utils.unmelt(long.iloc[part])
        last = row_keys(long.index)[-1]
        want = [(x[0], x[1], x[2], NAN if (x[0],) + x[2] == last else x[3])
                for x in w]
        if len(metrics) == 1:
          want = [x for x in want if (x[0],) + x[2] != last]
        equal(env, 'unmelt partial', wide_content(env, 'unmelt', p), want,
              ordered=False)

    out.append(Scenario('frame:' + name, fn))

  se = ['Value', 'Jackknife SE']
  ci = ['Value', 'Bootstrap CI-lower', 'Bootstrap CI-upper']
  for sn, stats in (('value', ['Value']), ('se', se), ('ci', ci)):
    add(sn + ':no split', [(0,)], [None], ['z', 'a'], stats)
    add(sn + ':one', [('b',), ('a',), ('c',)], ['g'], ['z', 'a', 'm'], stats)
    add(sn + ':ints', [(3,), (1,)], ['g'], ['z'], stats)
    add(sn + ':falsy', [(0,)], ['g'], ['z', 'a'], stats)
    add(sn + ':empty', [('',)], ['g'], ['z', 'a'], stats)
    add(sn + ':two', [('b', 1), ('a', 2), ('a', 1)], ['g', 'k'], ['z', 'a'],
        stats)
    add(sn + ':two falsy', [('', 0), ('x', 0)], ['g', 'k'], ['z', 'a'], stats)
    add(sn + ':bool', [(True, 1), (False, 1)], ['g', 'k'], ['sum(x)'], stats)
    add(sn + ':nulls', [('b', 1), ('a', 2)], ['g', 'k'], ['z', 'a'], stats,
        nulls=[('z', 'Value', ('b', 1)), ('a', stats[-1], ('a', 2))])
  return out


CI = [
    Entry('jkci', lambda m: m.Jackknife('u', m.Mean('x'), .9), kind='ci',
          nulls=False),
    Entry('jklist', lambda m: m.Jackknife('u', m.MetricList(
        [m.Sum('x'), m.Count('x'), m.Ratio('x', 'y')])), cols='xy', pos='y',
          kind='ci', nulls=False),
    Entry('jkcichange', lambda m: m.Jackknife('u', m.PercentChange(
        'c', 'A', m.MetricList([m.Sum('x'), m.Sum('y')])), .9), dims='c',
          cols='xy', pos='xy', kind='ci', nulls=False, base=True, n=4),
    Entry('jkmulti', lambda m: m.Jackknife('u', m.AbsoluteChange(
        ['c', 'h'], ('A', 'p'), m.Sum('x'))), dims='ch', kind='ci',
          nulls=False, base=True, n=4),
]
PARTIAL = [
    Entry('partial', lambda m: m.MetricList(
        [m.Sum('x', where='k != 2', name='z'), m.Sum('y'),
         m.Mean('x', where='h == "p"', name='a')]), cols='xy', kind='list'),
    Entry('partial ops', lambda m: m.MetricList(
        [m.AbsoluteChange('c', 'A', m.Sum('x', where='h == "p"', name='z')),
         m.AbsoluteChange('c', 'A', m.Sum('y'))]), cols='xy', kind='op',
          dims='c'),
]


def scenarios(tier, seed):
  del tier, seed
  out = []
  for e in LEAVES + COMPOSITES + OPS + CI + PARTIAL:
    for s in SPLITS:
      if e.name == 'wquantile' and s != 'g':
        continue
      if 'wcov corr'.find(e.name) >= 0 and s:
        continue
      out.append(shapes(e, s))
    if e.kind in ('list', 'op', 'ci', 'comp') and e.name != 'nxx':
      out.append(shapes(e, 'g', True))
  for e in LEAVES[:8] + [x for x in LEAVES if x.name in (
      'quantile', 'quantiles', 'nth', 'var')] + COMPOSITES + OPS[:6] + PARTIAL:
    for s in SPLITS:
      out.append(containers(e, s))
  for r in renames():
    for s in SPLITS[:2]:
      out.append(renamed(*r, s))
  return out + frames()


DEFAULTS = dict(budget_s=60, max_paths=1500, zero_div='assume')
THOROUGH = dict(budget_s=400, max_paths=20000)
FUNCTIONS = ['utils.melt', 'utils.unmelt', 'utils.remove_empty_level',
             'utils.apply_name_tmpl', 'metrics.Metric.manipulate / '
             'to_dataframe / compute_on', 'metrics.MetricList (manipulate, '
             'to_dataframe, rename_columns)', 'metrics.CompositeMetric '
             '(rename_columns, set_name)', 'operations.Operation.manipulate',
             'operations.MetricWithCI (compute_slices, manipulate)']
EXPLANATION = (
    'Every metric of the catalogue is computed symbolically melted and not '
    'melted, from scratch and from the cache, and utils.melt/unmelt are '
    'applied both ways to the results and to frames built with one to three '
    'value columns; keys, order and index names are compared exactly and the '
    'solver decides that every cell is the same for all values.  The same for '
    'return_dataframe=False and for renamed metrics.')
BOUNDS = {
    'quick': '3 key patterns (interleaved slices, falsy and numeric keys, a '
             'single slice), 0-2 split columns, 4-5 rows, about 45 metrics; '
             'melt/unmelt on 27 kinds of frames with up to 3 metrics, 3 rows '
             'and 3 value columns, in any of 3 orders, with missing keys',
    'thorough': 'as quick with a budget of 400 s and 20000 paths per scenario',
}
OUTSIDE = ['several columns with the same name (melting raises)',
           'empty results', 'null keys', 'compute_on_sql (P14-P16)']
ASSUMPTIONS = ['real arithmetic instead of float64', 'denominators are not '
               'zero on the explored paths']

if __name__ == '__main__':
  harness.main('checks.c17')
