"""P07: Distribution and CumulativeDistribution equal their definitions."""
from symx import data, harness, opcheck, ref
from symx.harness import Scenario
from symx.opcheck import NAN, as_list

PROPERTY = 'P07'
LEVEL = 'other'


def ms():
  return harness.load_meterstick()


# Child metrics: factory, {column: oracle(env, table, rows)}.
CH = {
    'sum': (lambda m: m.Sum('x', name='s'),
            {'s': lambda e, t, r: ref.total(e, t.col('x', r))}),
    'ratio': (lambda m: m.Ratio('x', 'y', name='r'),
              {'r': lambda e, t, r: e.div(ref.total(e, t.col('x', r)),
                                          ref.total(e, t.col('y', r)))}),
    'mean': (lambda m: m.Mean('x', name='a'),
             {'a': lambda e, t, r: ref.mean(e, t.col('x', r))}),
    'count': (lambda m: m.Count('x', name='n'),
              {'n': lambda e, t, r: ref.count(e, t.col('x', r))}),
    'max': (lambda m: m.Max('x', name='M'),
            {'M': lambda e, t, r: ref.vmax(e, t.col('x', r))}),
    'list': (lambda m: m.MetricList([m.Sum('y', name='s'),
                                     m.Mean('x', name='a')]),
             {'s': lambda e, t, r: ref.total(e, t.col('y', r)),
              'a': lambda e, t, r: ref.mean(e, t.col('x', r))}),
    'comp': (lambda m: (m.Sum('x') * 2 + m.Sum('y')).set_name('c'),
             {'c': lambda e, t, r: ref.total(e, t.col('x', r)) * 2 +
              ref.total(e, t.col('y', r))}),
}

KEYS = [
    dict(g=['b', 'a', 'a', 'b', 'b'], k=[2, 1, 1, 2, 1],
         h=['p', 'q', 'p', 'r', 'p']),
    dict(g=['a', 'b', 'b', 'c', 'a'], k=[1, 1, 1, 2, 1],
         h=['q', 'q', 'p', 'p', 'q']),
    dict(g=['a'] * 5, k=[1, 2, 1, 2, 1], h=['r', 'q', 'q', 'p', 'p']),
]
NAME = {False: 'Distribution of %s', True: 'Cumulative Distribution of %s'}


def expected(env, t, cols, over, split, cumulative=False, order=None,
             ascending=True, by_values=False, rows=None):
  """Cells and row order of the (cumulative) distribution."""
  want, row_order = {}, []
  for sk, rows_s in t.groups(split, rows).items():
    cells = t.groups(over, rows_s)
    for c, f in cols.items():
      raw = {ok: f(env, t, r) for ok, r in cells.items()}
      tot = ref.total(env, list(raw.values()))
      share = {ok: env.div(v, tot) for ok, v in raw.items()}
      if not cumulative:
        for ok, v in share.items():
          want[(sk + ok, NAME[False] % c)] = v
        continue
      if order:
        ks = [(o,) for o in (order if ascending else order[::-1])
              if (o,) in cells]
      elif by_values:
        ks = list(cells)
        ks = [ks[i] for i in ref.argsort([share[k] for k in ks],
                                         reverse=not ascending)]
      else:
        ks = sorted(cells, reverse=not ascending)
      acc = 0
      for ok in ks:
        if not harness.isnan(share[ok]):
          acc = share[ok] + acc
          want[(sk + ok, NAME[True] % c)] = acc
        else:
          want[(sk + ok, NAME[True] % c)] = NAN
      if not by_values:
        order_s = [sk + k for k in ks]
    if not cumulative:
      row_order += [sk + k for k in cells]
    elif not by_values:
      row_order += order_s
  return want, row_order


def scn(name, child, over='h', splits=(None, 'g', ['k', 'g']), keys=KEYS,
        cumulative=False, nulls=((),), where=None, kw=None, cut=None,
        notie=False, **opts):
  kw = kw or {}

  def fn(env):
    m = ms()
    ks = env.pick('keys', keys)
    n = len(ks['g'])
    x = env.reals('x', n, pos=True)
    y = env.reals('y', n, pos=True)
    x = data.with_nulls(x, env.pick('null', list(nulls)))
    t = opcheck.Table(env, ks, dict(x=x, y=y))
    if cut:
      t = opcheck.Table(env, {k: v[:cut] for k, v in t.keys.items()},
                        {k: v[:cut] for k, v in t.vals.items()})
    make, cols = CH[child]
    split = env.pick('split', list(splits))
    sp = as_list(split)
    ov = as_list(over)
    rows = None
    if where:
      rows = [i for i in range(t.n) if t.vals['y'][i] > 2]
      if not rows:
        env.assume(False)
    if notie:
      for sk, rs in t.groups(sp, rows).items():
        for c, f in cols.items():
          vs = [f(env, t, r) for r in t.groups(ov, rs).values()]
          for i in range(len(vs)):
            for j in range(i):
              env.assume(vs[i] != vs[j])
    cls = m.CumulativeDistribution if cumulative else m.Distribution
    args = dict(kw)
    if where:
      args['where'] = 'y > 2'
    df = t.df(index=env.pick('index', [None, [7] * t.n]))
    before = df.copy()
    got = cls(over, make(m), **args).compute_on(df, split)
    want, order = expected(env, t, cols, ov, sp, cumulative, rows=rows, **kw2)
    opcheck.expect(env, name, got, want, sp + ov,
                   [NAME[cumulative] % c for c in cols], order=order)
    env.check_eq('input frame', df, before)
    # Every slice ends at / sums to 1.
    if cumulative and tuple(nulls) == ((),) and not kw2.get('by_values'):
      for sk in t.groups(sp, rows):
        for c in cols:
          last = [k for k in order if k[:len(sp)] == sk][-1]
          k = last if len(last) > 1 else last[0]
          env.check_cell('ends at 1', got[NAME[True] % c].loc[k], 1)

  kw2 = dict(order=kw.get('order'), ascending=kw.get('ascending', True),
             by_values=kw.get('sort_by_values', False)) if cumulative else {}
  return Scenario(name, fn, **opts)


def scenarios(tier, seed):
  del seed
  out = []
  N = ((), (1,), (0, 4))
  for c in CH:
    nulls = N if c in ('mean', 'count', 'list', 'max') else ((),)
    sp = ([None, 'g'] if c == 'max' else [None, 'g', ['k', 'g']])
    out.append(scn('dist:' + c, c, nulls=nulls, splits=sp,
                   cut=4 if c == 'max' else None))
    out.append(scn('cum:' + c, c, nulls=nulls, cumulative=True, splits=sp,
                   cut=4 if c == 'max' else None))
  out.append(scn('dist:two', 'list', over=['h', 'k'], splits=(None, 'g'),
                 nulls=((), (1,))))
  out.append(scn('cum:two', 'list', over=['h', 'k'], splits=(None, 'g'),
                 cumulative=True, nulls=((), (1,))))
  out.append(scn('cum:twodesc', 'list', over=['h', 'k'], splits=(None, 'g'),
                 cumulative=True, kw=dict(ascending=False)))
  out.append(scn('cum:desc', 'list', cumulative=True, nulls=N,
                 kw=dict(ascending=False)))
  for nm, order in (('qrp', ['q', 'r', 'p']), ('rqp', ('r', 'q', 'p'))):
    out.append(scn('cum:order' + nm, 'list', cumulative=True, nulls=N,
                   kw=dict(order=order)))
    out.append(scn('cum:orderdesc' + nm, 'list', cumulative=True,
                   kw=dict(order=order, ascending=False)))
  out.append(scn('cum:orderint', 'sum', over='k', splits=(None, 'g'),
                 cumulative=True, kw=dict(order=[2, 1])))
  for asc in (True, False):
    out.append(scn('cum:values%s' % asc, 'sum', cumulative=True, notie=True,
                   splits=(None, 'g'), cost=4,
                   kw=dict(sort_by_values=True, ascending=asc)))
    out.append(scn('cum:valueslist%s' % asc, 'list', cumulative=True, cut=3,
                   notie=True, splits=(None, 'g'), cost=4, keys=KEYS[:2],
                   kw=dict(sort_by_values=True, ascending=asc)))
  out.append(scn('dist:where', 'sum', where=True, splits=(None, 'g'), cut=4,
                 cost=3))
  out.append(scn('cum:where', 'sum', where=True, splits=(None, 'g'), cut=4,
                 cumulative=True, cost=3))

  # A filter on the child: values without rows contribute nothing.
  def childwhere(env):
    m = ms()
    ks = env.pick('keys', KEYS[:2])
    t = opcheck.Table(env, {k: v[:4] for k, v in ks.items()}, dict(
        x=env.reals('x', 4, pos=True), y=env.reals('y', 4)))
    rows = [i for i in range(4) if t.vals['y'][i] > 2]
    split = env.pick('split', [None, 'g'])
    if not rows:
      env.assume(False)
    got = m.Distribution('h', m.Sum('x', name='s', where='y > 2')).compute_on(
        t.df(), split)
    want, _ = expected(env, t, CH['sum'][1], ['h'], as_list(split), rows=rows)
    opcheck.expect(env, 'childwhere', got, want, as_list(split) + ['h'],
                   ['Distribution of s'])
  out.append(Scenario('dist:childwhere', childwhere, cost=3))

  # Distribution of a comparison and of another distribution.
  def nested(env):
    m = ms()
    ks = env.pick('keys', KEYS)
    t = opcheck.Table(env, ks, dict(x=env.reals('x', 5, pos=True)))
    split = env.pick('split', [None, 'g'])
    sp = as_list(split)
    got = m.Distribution('h', m.Distribution('k', m.Sum('x', name='s'))
                         ).compute_on(t.df(), split)
    want = {}
    for sk, rs in t.groups(sp).items():
      inner = {}
      for hk, rh in t.groups(['h'], rs).items():
        tot = ref.total(env, t.col('x', rh))
        for kk, rk in t.groups(['k'], rh).items():
          inner[hk + kk] = env.div(ref.total(env, t.col('x', rk)), tot)
      tot = ref.total(env, list(inner.values()))
      for k, v in inner.items():
        want[(sk + k, 'Distribution of Distribution of s')] = env.div(v, tot)
    opcheck.expect(env, 'nested', got, want, sp + ['h', 'k'],
                   ['Distribution of Distribution of s'])
  out.append(Scenario('dist:nested', nested))
  if tier == 'thorough':
    big = [dict(g=['b', 'a', 'a', 'b', 'b', 'a', 'c'],
                k=[2, 1, 1, 2, 1, 2, 2],
                h=['p', 'q', 'p', 'r', 'p', 'q', 'r']),
           dict(g=['a', 'a', 'a', 'a', 'b', 'b', 'b'],
                k=[1, 2, 1, 2, 1, 2, 1],
                h=['r', 'q', 'p', 'p', 's', 'p', 's'])]
    import itertools
    nn = [p for r in range(4) for p in itertools.combinations(range(7), r)]
    for c in ('sum', 'list', 'mean', 'comp', 'ratio'):
      for cu in (False, True):
        out.append(scn('big:%s%s' % (c, cu), c, keys=big, cumulative=cu,
                       nulls=nn if c in ('list', 'mean') else ((),), cost=5))
  return out


DEFAULTS = dict(budget_s=120)
THOROUGH = dict(budget_s=900, max_paths=20000)
FUNCTIONS = ['operations.py: Operation.compute_slices/compute_child, '
             'Distribution.compute_on_children, CumulativeDistribution.'
             'compute_on_children', 'metrics.py: group, manipulate']
EXPLANATION = (
    'compute_on of Distribution and CumulativeDistribution is executed on '
    'frames with symbolic cells; each output cell is compared with shares and '
    'running sums computed from the definition.')
BOUNDS = dict(quick='5 rows, up to 3 over values and 3 slices in 3 key '
              'patterns, up to 2 null cells, 0-2 split columns, 1-2 over '
              'columns, unique or duplicated index', thorough='also 7 rows')
OUTSIDE = ['floating point rounding', 'ties in sort_by_values',
           'a custom order that leaves out values',
           'slices whose total is zero', 'rows whose cells are all null may '
           'be absent from the result']
ASSUMPTIONS = ['reals for floats', 'non-zero totals']

if __name__ == '__main__':
  harness.main('checks.c07')
