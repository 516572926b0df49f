"""P06: PercentChange, AbsoluteChange and MH equal their definitions."""
from checks.c07 import CH
from symx import data, harness, opcheck, ref
from symx.harness import Scenario
from symx.opcheck import NAN, as_list

PROPERTY = 'P06'
LEVEL = 'other'


def ms():
  return harness.load_meterstick()


KEYS = [
    # Everything present.
    dict(g=['b', 'a', 'a', 'b', 'b'], k=[2, 1, 1, 2, 2],
         c=['A', 'B', 'A', 'B', 'C'], h=['p', 'q', 'q', 'p', 'q']),
    # Slice b lacks the baseline, slice c has nothing else.
    dict(g=['b', 'a', 'a', 'b', 'c'], k=[1, 1, 1, 2, 1],
         c=['B', 'C', 'A', 'C', 'A'], h=['p', 'p', 'p', 'p', 'q']),
    # Conditions differ between the slices.
    dict(g=['b', 'b', 'a', 'a', 'a'], k=[1, 1, 2, 2, 2],
         c=['A', 'B', 'A', 'C', 'A'], h=['p', 'p', 'q', 'p', 'p']),
]
INT = [dict(g=[2, 1, 1, 2, 1], k=[1, 1, 1, 1, 2], c=[1, 0, 1, 0, 3],
            h=['p'] * 5)]
TWO = [
    dict(g=['a', 'a', 'a', 'a', 'b'], c=['A', 'A', 'B', 'B', 'A'],
         d=[0, 1, 0, 1, 0], k=[1] * 5, h=['p', 'q', 'p', 'q', 'p']),
    dict(g=['a', 'a', 'b', 'b', 'b'], c=['A', 'B', 'B', 'A', 'A'],
         d=[0, 1, 0, 0, 1], k=[1, 1, 2, 2, 2], h=['p'] * 5),
]
TMPL = {'PercentChange': '%s Percent Change',
        'AbsoluteChange': '%s Absolute Change'}


def change(env, cls, v, b):
  if harness.isnan(v) or harness.isnan(b):
    return NAN
  if cls == 'AbsoluteChange':
    return v - b
  return (env.div(v, b) - 1) * 100


def expected(env, t, cls, cols, cond, base, split, include, rows=None):
  want = {}
  for sk, rs in t.groups(split, rows).items():
    cells = t.groups(cond, rs)
    for c, f in cols.items():
      b = f(env, t, cells[base]) if base in cells else NAN
      for ck, r in cells.items():
        if ck == base and not include:
          continue
        want[(sk + ck, TMPL[cls] % c)] = change(env, cls, f(env, t, r), b)
  return want


def scn(name, cls, child, cond='c', base='A', keys=KEYS, include=False,
        splits=(None, 'g', ['k', 'g']), nulls=((),), where=False, cut=None,
        pos=True, **opts):
  make, cols = CH[child] if isinstance(child, str) else child

  def fn(env):
    m = ms()
    ks = env.pick('keys', keys)
    n = cut or len(ks['g'])
    x = data.with_nulls(env.reals('x', n, pos=pos), env.pick(
        'null', list(nulls)))
    y = env.reals('y', n, pos=True)
    t = opcheck.Table(env, {k: v[:n] for k, v in ks.items()}, dict(x=x, y=y))
    split = env.pick('split', list(splits))
    sp, cd = as_list(split), as_list(cond)
    b = base if isinstance(base, tuple) else (base,)
    rows = None
    kw = dict(include_base=include)
    if where:
      rows = [i for i in range(n) if t.vals['y'][i] > 2]
      kw['where'] = 'y > 2'
      if not any(t.key(i, cd) == b for i in rows):
        env.assume(False)  # Without any baseline the operation raises.
    df = t.df(index=env.pick('index', [None, [3] * n]))
    before = df.copy()
    got = getattr(m, cls)(cond, base, make(m), **kw).compute_on(df, split)
    want = expected(env, t, cls, cols, cd, b, sp, include, rows)
    opcheck.expect(env, name, got, want, sp + cd,
                   [TMPL[cls] % c for c in cols])
    env.check_eq('input frame', df, before)

  return Scenario(name, fn, **opts)


MHKEYS = [
    dict(g=['b', 'a', 'a', 'b', 'a'], c=['A', 'B', 'A', 'B', 'B'],
         h=['p', 'q', 'q', 'p', 'p'], k=[1] * 5, d=[1] * 5),
    dict(g=['a', 'a', 'a', 'a', 'b'], c=['A', 'B', 'B', 'A', 'A'],
         h=['p', 'p', 'q', 'q', 'q'], k=[1, 1, 1, 2, 1], d=[1, 2, 1, 1, 1]),
    dict(g=['a', 'b', 'a', 'b', 'a'], c=['A', 'B', 'B', 'A', 'C'],
         h=['p', 'p', 'p', 'p', 'p'], k=[1, 2, 1, 2, 1], d=[1, 1, 1, 1, 2]),
    dict(g=['a', 'b', 'b', 'b', 'b'], c=['A', 'A', 'B', 'C', 'C'],
         h=['q', 'p', 'p', 'q', 'p'], k=[1, 2, 1, 1, 2], d=[1] * 5),
]
SUMX = lambda e, t, r: ref.total(e, t.col('x', r))
SUMY = lambda e, t, r: ref.total(e, t.col('y', r))
SUMW = lambda e, t, r: ref.total(e, t.col('w', r))
CNT = lambda e, t, r: ref.count(e, t.col('w', r))


def over2(f, col='y'):
  def g(e, t, r):
    r = [i for i in r if t.vals[col][i] > 2]
    return f(e, t, r) if r else NAN
  return g


MH = {
    'ratio': (lambda m: m.Ratio('x', 'y', name='r'), {'r': (SUMX, SUMY)}),
    'comp': (lambda m: (m.Sum('x') / m.Count('w')).set_name('r'),
             {'r': (SUMX, CNT)}),
    'list': (lambda m: m.MetricList([m.Ratio('x', 'y', name='r'),
                                     m.Ratio('w', 'y', name='s')]),
             {'r': (SUMX, SUMY), 's': (SUMW, SUMY)}),
    'list2': (lambda m: m.MetricList([
        m.Ratio('x', 'y', name='r'),
        (m.Sum('y') / m.Count('w')).set_name('s')]),
              {'r': (SUMX, SUMY), 's': (SUMY, CNT)}),
}
MHW = {
    'ratiowhere': (lambda m: m.Ratio('x', 'w', name='r', where='y > 2'),
                   {'r': (over2(SUMX), over2(SUMW))}),
    'numwhere': (lambda m: (m.Sum('x', where='y > 2') / m.Sum('w')).set_name(
        'r'), {'r': (over2(SUMX), SUMW)}),
    'listwhere': (lambda m: m.MetricList([
        m.Ratio('x', 'w', name='r', where='y > 2'),
        m.Ratio('x', 'w', name='s')]),
                  {'r': (over2(SUMX), over2(SUMW)), 's': (SUMX, SUMW)}),
}


def mh(name, child, cond='c', base='A', strata='h', keys=MHKEYS,
       include=False, splits=(None, 'g'), where=False, cut=None, **opts):
  make, cols = child

  def fn(env):
    m = ms()
    ks = env.pick('keys', keys)
    n = cut or len(ks['g'])
    t = opcheck.Table(env, {k: v[:n] for k, v in ks.items()}, {
        c: env.reals(c, n, pos=True) for c in 'xyw'})
    split = env.pick('split', list(splits))
    sp, cd, st = as_list(split), as_list(cond), as_list(strata)
    b = base if isinstance(base, tuple) else (base,)
    rows = list(range(n))
    kw = dict(include_base=include)
    if where:
      rows = [i for i in rows if t.vals['y'][i] > 2]
      kw['where'] = 'y > 2'
    brows = [i for i in rows if t.key(i, cd) == b]
    if opts.get('need_base_over2'):
      brows = [i for i in brows if t.vals['y'][i] > 2]
    if not brows:
      env.assume(False)
    got = m.MH(cond, base, strata, make(m), **kw).compute_on(t.df(), split)
    want = {}
    for sk, rs in t.groups(sp, rows).items():
      cells = t.groups(cd, rs)
      for c, (num, den) in cols.items():
        for ck, r in cells.items():
          if ck == b and not include:
            continue
          top, bot = [], []
          bs = t.groups(st, cells.get(b, []))
          for hk, rh in t.groups(st, r).items():
            if hk not in bs:
              continue
            ka, na = num(env, t, rh), den(env, t, rh)
            kb, nb = num(env, t, bs[hk]), den(env, t, bs[hk])
            if harness.isnan(na) or harness.isnan(nb):
              continue
            tot = na + nb
            if not harness.isnan(ka):
              top.append(env.div(ka * nb, tot))
            if not harness.isnan(kb):
              bot.append(env.div(kb * na, tot))
          want[(sk + ck, '%s MH Ratio' % c)] = (env.div(
              ref.total(env, top), ref.total(env, bot)) - 1) * 100 if (
                  bot) else float('inf') if top else NAN
    opcheck.expect(env, name, got, want, sp + cd,
                   ['%s MH Ratio' % c for c in cols])

  return Scenario(name, fn, **opts)


def scenarios(tier, seed):
  del seed
  out = []
  N = ((), (1,), (0, 3))
  for cls in ('PercentChange', 'AbsoluteChange'):
    t = cls[:3] + ':'
    pos = cls[0] == 'P'
    for c in CH:
      nulls = N if c in ('mean', 'count', 'list', 'max') else ((),)
      cut = 4 if c == 'max' else None
      out.append(scn(t + c, cls, c, nulls=nulls, cut=cut, pos=pos))
      if c in ('sum', 'list', 'mean'):
        out.append(scn(t + c + ':base', cls, c, nulls=nulls, include=True,
                       pos=pos))
    out.append(scn(t + 'int', cls, 'sum', base=0, keys=INT))
    out.append(scn(t + 'int1', cls, 'list', base=1, keys=INT, include=True))
    out.append(scn(t + 'other', cls, 'list', base='C', splits=(None, 'g')))
    out.append(scn(t + 'two', cls, 'list', cond=['c', 'd'], base=('A', 0),
                   keys=TWO, splits=(None, 'g', ['k', 'g'])))
    out.append(scn(t + 'twobase', cls, 'list', cond=['c', 'd'], base=('A', 0),
                   keys=TWO, include=True))
    out.append(scn(t + 'two2', cls, 'sum', cond=['d', 'c'], base=(1, 'B'),
                   keys=TWO))
    out.append(scn(t + 'where', cls, 'sum', where=True, cut=4, cost=4,
                   splits=(None, 'g')))
    out.append(scn(t + 'wherelist', cls, 'list', where=True, cut=4, cost=4,
                   splits=('g',), include=True))

    def nested(env, cls=cls):
      m = ms()
      ks = env.pick('keys', TWO)
      tb = opcheck.Table(env, ks, dict(x=env.reals('x', 5, pos=True)))
      split = env.pick('split', [None, 'g'])
      sp = as_list(split)
      got = getattr(m, cls)('c', 'A', m.AbsoluteChange(
          'd', 0, m.Sum('x', name='s'))).compute_on(tb.df(), split)
      want = {}
      for sk, rs in tb.groups(sp).items():
        inner = {}
        for ck, rc in tb.groups(['c'], rs).items():
          cells = tb.groups(['d'], rc)
          for dk, rd in cells.items():
            if dk != (0,) and (0,) in cells:
              inner[ck + dk] = SUMX(env, tb, rd) - SUMX(env, tb, cells[(0,)])
        for (c, d), v in inner.items():
          if c != 'A' and ('A', d) in inner:
            want[(sk + (c, d), TMPL[cls] % 's Absolute Change')] = change(
                env, cls, v, inner[('A', d)])
      opcheck.expect(env, 'nested', got, want, sp + ['c', 'd'],
                     [TMPL[cls] % 's Absolute Change'])
    out.append(Scenario(t + 'nested', nested))

  for k, ch in MH.items():
    out.append(mh('mh:' + k, ch))
    out.append(mh('mh:base:' + k, ch, include=True))
  out.append(mh('mh:split2', MH['ratio'], splits=(['g', 'k'], ['k', 'g'])))
  out.append(mh('mh:strata2', MH['list'], strata=['h', 'k']))
  out.append(mh('mh:cond2', MH['list'], cond=['c', 'd'], base=('A', 1)))
  out.append(mh('mh:cond2strata2', MH['ratio'], cond=['c', 'd'],
                base=('A', 1), strata=['k', 'h']))
  out.append(mh('mh:where', MH['ratio'], where=True, cost=4, cut=4))
  for k, ch in MHW.items():
    out.append(mh('mh:' + k, ch, cost=4, cut=4, keys=MHKEYS[:3],
                  need_base_over2=True))
  if tier == 'thorough':
    big = [dict(g=['a', 'b', 'a', 'b', 'a', 'b', 'a'],
                k=[1, 1, 2, 2, 1, 2, 2], d=[1, 1, 1, 1, 2, 2, 1],
                c=['A', 'B', 'B', 'A', 'C', 'C', 'A'],
                h=['p', 'p', 'p', 'p', 'q', 'q', 'q']),
           dict(g=['a', 'a', 'a', 'a', 'b', 'b', 'b'],
                k=[1, 1, 2, 2, 1, 2, 2], d=[1, 1, 1, 1, 2, 2, 1],
                c=['A', 'B', 'A', 'B', 'B', 'A', 'B'],
                h=['p', 'p', 'q', 'q', 'q', 'p', 'p'])]
    for cls in ('PercentChange', 'AbsoluteChange'):
      for c in ('sum', 'list', 'mean', 'comp', 'ratio'):
        out.append(scn('big:%s:%s' % (cls[:3], c), cls, c, keys=big,
                       nulls=[(), (0,), (1, 3), (2, 4, 6)] if c in (
                           'list', 'mean') else ((),), include=True, cost=5))
    for k, ch in MH.items():
      out.append(mh('big:mh:' + k, ch, keys=big, include=True,
                    splits=(None, 'g', ['g', 'k']), cost=5))
  return out


DEFAULTS = dict(budget_s=120)
THOROUGH = dict(budget_s=900, max_paths=20000)
FUNCTIONS = ['operations.py: Comparison, PercentChange.compute_on_children, '
             'AbsoluteChange.compute_on_children, MH.compute_children, '
             'compute_on_children, compute_mh, check_is_ratio']
EXPLANATION = (
    'compute_on of the comparisons is executed on frames with symbolic cells '
    'and each output cell compared with the definition evaluated per slice '
    'and stratum.')
BOUNDS = dict(quick='4-5 rows, up to 3 conditions, 3 slices, 2 strata in 2-4 '
              'key patterns (baseline, condition or stratum missing from some '
              'slice), 0-2 split columns, 1-2 condition columns, null cells',
              thorough='also 7 rows')
OUTSIDE = ['floating point rounding', 'a frame without any baseline row '
           '(raises)', 'rows that are null everywhere may be absent']
ASSUMPTIONS = ['reals for floats',
               'baseline values that can be non-zero are non-zero']

if __name__ == '__main__':
  harness.main('checks.c06')
