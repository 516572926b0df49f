"""P02: a split_by result is the per-slice result, slice by slice."""
import pandas as pd

from checks import catalog
from checks.catalog import COMPOSITES, LEAVES, OPS, same, tab
from symx import harness
from symx.harness import Scenario
from symx.opcheck import as_list, tup

PROPERTY = 'P02'
LEVEL = 'other'

ms = catalog.ms

# g is the first split column; b lacks nothing, slices interleave.
KEYS = [
    dict(g=['b', 'a', 'b', 'a', 'b'], k=[2, 1, 2, 1, 1],
         c=['A', 'A', 'B', 'B', 'C'], h=['p', 'q', 'q', 'p', 'r'],
         u=[1, 1, 2, 2, 3]),
    dict(g=['a', 'a', 'a', 'c', 'c'], k=[1, 1, 1, 2, 2],
         c=['B', 'A', 'A', 'A', 'B'], h=['p', 'p', 'q', 'q', 'q'],
         u=[2, 1, 2, 5, 1]),
    dict(g=[2, 10, 2, 10, 2], k=['z', 'y', 'z', 'y', 'x'],
         c=['A', 'B', 'B', 'A', 'A'], h=['r', 'q', 'r', 'q', 'p'],
         u=[1, 2, 2, 1, 1]),
]
IDX = [None, [7, 7, 3, 3, 7], ['v', 'w', 'u', 'z', 'v']]


def scn(e, split, kind='plain', quick=True):

  def fn(env):
    m = ms()
    hard = e.opts.get('cost', 1) >= 4
    ks = env.pick('keys', KEYS[::2] if hard and quick else KEYS)
    n = e.opts.get('n', 5) if quick else 5
    ks = {k: v[:n] for k, v in ks.items()}
    vals = catalog.values(env, e, n)
    df = env.frame(dict(ks, **vals))
    idx = env.pick('index', IDX[:2] if hard and quick else IDX)
    if idx:
      df.index = idx[:n]
    sp = as_list(split)
    if kind == 'cat':
      for s in sp:
        cats = sorted(set(ks[s])) + (['zz'] if isinstance(ks[s][0], str)
                                     else [99])
        df[s] = pd.Categorical(df[s], categories=cats)
    if kind == 'bool':
      df[sp[0]] = df[sp[0]] == df[sp[0]].iloc[0]
    slices = {}
    for i, key in enumerate(zip(*[df[s].tolist() for s in sp])):
      slices.setdefault(tuple(map(harness.norm_key, key)), []).append(i)
    before = df.copy()
    got = e.make(m).compute_on(df, split)
    if isinstance(got.index, pd.MultiIndex) or got.index.name:
      if list(got.index.names)[:len(sp)] != sp:
        return env.fail('index', 'names %s' % list(got.index.names))
    g = tab(got, sp)
    want = {}
    skip = set()
    for key, rows in slices.items():
      alone = df.iloc[rows]
      if e.base and 'A' not in alone['c'].tolist():
        skip.add(key)  # Raises alone; null in the split result.
        continue
      try:
        r = e.make(m).compute_on(alone)
      except KeyError as x:
        if e.base and x.args == ('A',):  # A replicate without the baseline.
          skip.add(key)
          continue
        raise
      for k, v in tab(r).items():
        want[(key,) + k[1:]] = v
    for k in list(g):
      if k[0] in skip:
        v = g.pop(k)
        if e.kind != 'ci':
          env.check_cell('no baseline@%s' % (k,), v, catalog.NAN)
    same(env, 'slice', g, want)
    # Slices are in order and nothing else is there.
    order = []
    for k in got.index:
      k = tuple(map(harness.norm_key, tup(k)[:len(sp)]))
      if not order or order[-1] != k:
        order.append(k)
    extra = [k for k in order if k not in slices]
    if extra and kind != 'cat':
      env.fail('slices', 'not in the data: %s' % extra)
    for k in extra:
      if any(not harness.isnan(v) for kk, v in g.items() if kk[0] == k):
        env.fail('slices', 'values for the absent slice %s' % (k,))
    if len(set(order)) != len(order):
      env.fail('order', 'slices are not contiguous: %s' % order)
    env.check_eq('input frame', df, before)

  o = {k: v for k, v in e.opts.items() if k in (
      'cost', 'budget_s', 'zero_div', 'log_domain', 'sqrt_domain')}
  return Scenario('%s:%s:%s' % (e.name, '+'.join(as_list(split)), kind), fn,
                  **o)


def permuted(e, quick=True):
  """The result does not depend on the row order."""

  def fn(env):
    m = ms()
    hard = e.opts.get('cost', 1) >= 4
    ks = env.pick('keys', KEYS[:2])
    n = e.opts.get('n', 4 if e.kind != 'ci' else 5) if hard and quick else 5
    ks = {k: v[:n] for k, v in ks.items()}
    vals = catalog.values(env, e, n)
    df = env.frame(dict(ks, **vals))
    perm = env.pick('perm', [[4, 3, 2, 1, 0], [2, 0, 4, 1, 3]])
    perm = [i for i in perm if i < n]
    sp = as_list(env.pick('split', [None, 'g']))
    try:
      a = e.make(m).compute_on(df, sp)
    except KeyError:
      if e.base and e.kind == 'ci':
        env.assume(False)
      raise
    b = e.make(m).compute_on(df.iloc[perm], sp)
    same(env, 'permuted', tab(b, sp), tab(a, sp), absent_ok=False)

  o = {k: v for k, v in e.opts.items() if k in ('cost', 'budget_s')}
  return Scenario('%s:permuted' % e.name, fn, **o)


def scenarios(tier, seed):
  del seed
  quick = tier == 'quick'
  out = []
  for e in LEAVES + COMPOSITES + OPS:
    out.append(scn(e, 'g', quick=quick))
    out.append(scn(e, ['k', 'g'], quick=quick))
    out.append(permuted(e, quick))
    if tier != 'quick' or e.name in (
        'sum', 'quantile', 'nth', 'comp', 'list', 'dist', 'cumdist', 'pct',
        'abs', 'mh', 'hhi', 'jk'):
      out.append(scn(e, 'g', 'cat', quick))
      out.append(scn(e, 'g', 'bool', quick))
  return out


DEFAULTS = dict(budget_s=90, max_paths=1500, zero_div='assume')
THOROUGH = dict(budget_s=400, max_paths=20000)
FUNCTIONS = ['metrics.Metric.compute_on', 'metrics.Metric.compute_slices',
             'metrics.Metric.split_data', 'metrics.MetricList',
             'metrics.CompositeMetric', 'every leaf metric\'s compute_slices',
             'operations.Distribution/CumulativeDistribution/PercentChange/'
             'AbsoluteChange/MH/Jackknife', 'diversity.HHI/Entropy/TopK/Nxx']
EXPLANATION = (
    'Each metric is run symbolically with split_by on the whole frame and '
    'without it on every slice; the solver decides that each cell of the '
    'split result equals the cell of the slice alone, for all cell values.')
BOUNDS = {
    'quick': '5 rows, 3 key patterns, one or two split columns (text, '
             'numbers, bool, category with an unused category), three kinds '
             'of row index, up to two nulls, two row permutations.',
    'thorough': 'as quick, categories and bools for every metric',
}
OUTSIDE = ['tables with more rows', 'null split keys', 'Bootstrap (P09)',
           'models (P13)']
ASSUMPTIONS = ['real arithmetic instead of float64', 'denominators are not '
               'zero on the explored paths (zero cases: P01, P04)']

if __name__ == '__main__':
  harness.main('checks.c02')
