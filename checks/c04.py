"""P04: arithmetic on metrics is arithmetic on their results."""
import math
import random

import pandas as pd

from checks import catalog
from checks.catalog import NAN, tab
from symx import data, harness
from symx.core import Sym, isnan
from symx.harness import Scenario
from symx.opcheck import as_list

PROPERTY = 'P04'
LEVEL = 'other'

ms = catalog.ms


def is_inf(a):
  return not isinstance(a, Sym) and isinstance(a, float) and math.isinf(a)


def sign(a):
  return 0 if bool(a == 0) else 1 if bool(a > 0) else -1


def arith(env, op, a, b):
  """IEEE arithmetic on two cells."""
  if op == 'neg':
    return NAN if isnan(a) else -a
  if op == '**':
    for v, one in ((b, 0), (a, 1)):
      if not isnan(v) and not isinstance(v, Sym) and v == one:
        return 1.
    if isnan(a) or isnan(b):
      return NAN
    if not isinstance(a, Sym) and not isinstance(b, Sym):
      if a == 0 and b < 0:
        return math.inf
      try:
        r = float(a)**float(b)
        return NAN if isinstance(r, complex) else r
      except OverflowError:
        return math.inf
    return env.pow(a, b)
  if isnan(a) or isnan(b):
    return NAN
  if is_inf(a) or is_inf(b):
    if op in '+-':
      if op == '-':
        b = -b
      if is_inf(a) and is_inf(b):
        return a if a == b else NAN
      return a if is_inf(a) else b
    if op == '*':
      s = (sign(a) * sign(b))
      return NAN if s == 0 else s * math.inf
    if is_inf(b):
      return NAN if is_inf(a) else 0.
    return a if bool(b >= 0) else -a  # No negative zero among exact reals.
  if op == '/':
    return env.div(a, b)
  return a + b if op == '+' else a - b if op == '-' else a * b


def apply(op, a, b):
  return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
          '/': lambda: a / b, '**': lambda: a**b, 'neg': lambda: -a}[op]()


def tmpl(op, b):
  if op == 'neg':
    return '-{}'
  if op == '**':
    return 'sqrt({})' if isinstance(b, float) and b == .5 else '{} ^ {}'
  return '{} %s {}' % op


class Val(object):
  """The separately computed result of an operand or a subexpression."""

  def __init__(self, cells, cols, name, multi=None):
    self.cells, self.cols, self.name = cells, cols, name
    self.multi = len(cols) > 1 if multi is None else multi
    # cells: {(slice, rest): [cell per column]}


def leaf_val(env, metric, df, sp):
  r = metric.compute_on(df, sp)
  t = {}
  n = len(r.columns)
  for k, v in tab(r, sp).items():
    t.setdefault(k[:2], []).append(v)
  assert all(len(v) == n for v in t.values())
  return Val(t, list(r.columns), metric.name)


def project(key, names):
  return (key[0], tuple(kv for kv in key[1] if kv[0] in names))


def combine(env, op, a, b):
  """Arithmetic on results, aligned on slices and shared index columns."""
  t = tmpl(op, b)
  bn = b.name if isinstance(b, Val) else b
  an = a.name if isinstance(a, Val) else a
  if op == 'neg':
    b = -1
  name = t.format(*[n for n in (an, bn)])
  if not isinstance(a, Val) or not isinstance(b, Val):
    v = a if isinstance(a, Val) else b
    f = (lambda c: arith(env, op, c, b)) if v is a else (
        lambda c: arith(env, op, a, c))
    cells = {k: [f(c) for c in row] for k, row in v.cells.items()}
    cols = [name]
    if v.multi:
      cols = [t.format(c, bn) if v is a else t.format(an, c) for c in v.cols]
    return Val(cells, cols, name, v.multi)
  if a.multi and b.multi:
    if len(a.cols) != len(b.cols):
      raise ValueError('different numbers of columns')
    cols = [t.format(c, d) for c, d in zip(a.cols, b.cols)]
    n = len(cols)
  elif a.multi or b.multi:
    n = max(len(a.cols), len(b.cols))
    cols = [t.format(c, bn) for c in a.cols] if a.multi else [
        t.format(an, c) for c in b.cols]
  else:
    n, cols = 1, [name]
  ka = {kv[0] for k in a.cells for kv in k[1]}
  kb = {kv[0] for k in b.cells for kv in k[1]}
  if not (ka <= kb or kb <= ka):
    raise ValueError('incomparable index columns')
  keys = list(a.cells) if ka > kb else list(b.cells) if kb > ka else sorted(
      set(a.cells) | set(b.cells), key=repr)
  cells = {}
  for k in keys:
    ra = a.cells.get(project(k, ka), [NAN] * len(a.cols))
    rb = b.cells.get(project(k, kb), [NAN] * len(b.cols))
    if not a.multi:
      ra = ra * n
    if not b.multi:
      rb = rb * n
    cells[k] = [arith(env, op, c, d) for c, d in zip(ra, rb)]
  return Val(cells, cols, name, a.multi or b.multi)


def evaluate(env, e, df, sp):
  """e: operand factory, constant or (op, e1, e2)."""
  if isinstance(e, tuple):
    op, a, b = e
    return combine(env, op, evaluate(env, a, df, sp),
                   None if op == 'neg' else evaluate(env, b, df, sp))
  if callable(e):
    return leaf_val(env, e(ms()), df, sp)
  return e


def build(e, shared=None):
  """The metric of the expression; shared: cache of operand instances."""
  if isinstance(e, tuple):
    a = build(e[1], shared)
    return apply(e[0], a, None if e[0] == 'neg' else build(e[2], shared))
  if callable(e):
    if shared is None:
      return e(ms())
    if id(e) not in shared:
      shared[id(e)] = e(ms())
    return shared[id(e)]
  return e


def expr(name, e, splits=(None, 'g', ['g', 'k']), cols='xy', nulls=True,
         pos='', n=5, share=True, wrap=None, rename=None, **opts):

  def fn(env):
    m = ms()
    ks = env.pick('keys', KEYS)
    ks = {k: v[:n] for k, v in ks.items()}
    vals = {c: env.reals(c, n, pos=c in pos) for c in cols}
    if nulls:
      vals['x'] = data.with_nulls(vals['x'], env.pick('null', [(), (0, 3)]))
    df = env.frame(dict(ks, **vals))
    sp = as_list(env.pick('split', list(splits)))
    want = evaluate(env, e, df, sp)
    how = env.pick('share', ['fresh', 'shared'] if share else ['fresh'])
    metric = build(e, {} if how == 'shared' else None)
    if metric.name != want.name:
      env.fail('name', 'got %r want %r' % (metric.name, want.name))
    got = metric.compute_on(df, sp)
    if list(got.columns) != want.cols:
      return env.fail('columns', 'got %s want %s' % (
          list(got.columns), want.cols))
    g = {}
    for k, v in tab(got, sp).items():
      g.setdefault(k[:2], []).append(v)
    for k in sorted(set(g) | set(want.cells), key=repr):
      ra = g.get(k, [NAN] * len(want.cols))
      rb = want.cells.get(k, [NAN] * len(want.cols))
      if len(ra) != len(rb):
        return env.fail('rows', 'row %s occurs %d times' % (
            k, len(ra) // len(rb)))
      for c, x, y in zip(want.cols, ra, rb):
        env.check_cell('%s@%s' % (c, k), x, y)

  return Scenario('expr:' + name, fn, **opts)


KEYS = [
    dict(g=['b', 'a', 'b', 'a', 'b'], k=[2, 1, 2, 1, 1],
         c=['A', 'A', 'B', 'B', 'C'], h=['p', 'q', 'q', 'p', 'r'],
         u=[1, 1, 2, 2, 3]),
    dict(g=['a', 'a', 'a', 'c', 'c'], k=[1, 1, 1, 2, 2],
         c=['B', 'A', 'A', 'A', 'B'], h=['p', 'p', 'q', 'q', 'q'],
         u=[2, 1, 2, 5, 1]),
]

SX = lambda m: m.Sum('x')
SY = lambda m: m.Sum('y')
MX = lambda m: m.Mean('x')
MY = lambda m: m.Mean('y')
CX = lambda m: m.Count('x')
CY = lambda m: m.Count('y')
CD = lambda m: m.Count('k', distinct=True)
MAXX = lambda m: m.Max('x')
RXY = lambda m: m.Ratio('x', 'y')
SXF = lambda m: m.Sum('x', where='h != "p"')
SYF = lambda m: m.Sum('y', where='h == "q"')
DOT = lambda m: m.Dot('x', 'y')
VARY = lambda m: m.Variance('y')
L2 = lambda m: m.MetricList([m.Sum('x'), m.Count('y')])
L2B = lambda m: m.MetricList([m.Mean('y'), m.Sum('y')])
L2F = lambda m: m.MetricList([m.Mean('y'), m.Sum('y')], where='k < 2')
L1 = lambda m: m.MetricList([m.Sum('y')])
ABS = lambda m: m.AbsoluteChange('c', 'A', m.Sum('x'))
PCT = lambda m: m.PercentChange('c', 'A', m.Mean('y'))
ABS2 = lambda m: m.AbsoluteChange('c', 'A', m.MetricList(
    [m.Sum('x'), m.Mean('y')]))
PCTB = lambda m: m.PercentChange('c', 'A', m.Sum('y'), include_base=True)
DIST = lambda m: m.Distribution('h', m.Sum('y'))
CUM = lambda m: m.CumulativeDistribution('h', m.Sum('y'))
HHI = lambda m: m.HHI('h', m.Sum('y'))
NAME = lambda m: m.Sum('x', name='a {} b')
NAME2 = lambda m: m.Sum('y', name='{0}')
NAMESAME = lambda m: m.Mean('y', name='sum(x)')
LIST_SAME = lambda m: m.MetricList([m.Sum('x', name='v'),
                                    m.Sum('y', name='v')])
TMPL = lambda m: m.MetricList([m.Sum('x'), m.Count('y')], name_tmpl='T {}')


def random_expr(rng, depth, ops):
  """A random expression over leaves; the root is not a constant."""
  leaves = [SX, SY, MX, CX, CY, RXY, SXF, DOT, MAXX]
  if depth == 0:
    return rng.choice(leaves)
  op = rng.choice(ops)
  if op == 'neg':
    return ('neg', random_expr(rng, depth - 1, ops), None)
  if op == '**':
    return ('**', random_expr(rng, depth - 1, ops), rng.choice([2, 3, -1]))
  a = random_expr(rng, depth - 1, ops)
  b = random_expr(rng, rng.randrange(depth), ops)
  if rng.random() < .25:
    b = rng.choice([2, -3, .5, 0.1])
  return (op, a, b) if rng.random() < .6 else (op, b, a)


def show(e):
  if isinstance(e, tuple):
    if e[0] == 'neg':
      return '-' + show(e[1])
    return '(%s%s%s)' % (show(e[1]), e[0], show(e[2]))
  return e(ms()).name if callable(e) else str(e)


def scenarios(tier, seed):
  out = []

  def add(name, e, *a, **k):
    out.append(expr(name, e, *a, **k))

  # Every operator on two leaves and with constants on either side.
  for op in ('+', '-', '*', '/'):
    add('leaf%sleaf' % op, (op, SX, SY))
    add('leaf%sconst' % op, (op, MX, 3))
    add('const%sleaf' % op, (op, 2.5, MX))
    add('const%sint' % op, (op, 7, CX))
    add('nested%s' % op, (op, ('-', SX, MY), ('+', CX, ('*', SY, .5))))
    add('nestedr%s' % op, (op, 2, (op, SX, (op, CY, MY))))
    add('list%sconst' % op, (op, L2, 3))
    add('const%slist' % op, (op, 3, L2))
    add('list%sleaf' % op, (op, L2, MY))
    add('leaf%slist' % op, (op, CY, L2))
    add('list%slist' % op, (op, L2, L2B))
    add('list%sop' % op, (op, ABS2, ABS2), nulls=False)
    add('op%sconst' % op, (op, ABS, 2), nulls=False)
    add('const%sop' % op, (op, 2, ABS), nulls=False)
    add('op%sop' % op, (op, ABS, PCT), nulls=False, pos='y')
    add('op2%sop' % op, (op, ABS2, PCT), nulls=False, pos='y')
    add('op2%sconst' % op, (op, ABS2, 4), nulls=False)
    add('op%sleaf' % op, (op, ABS, SY), nulls=False)
    add('leaf%sop' % op, (op, SY, ABS), nulls=False)
    add('dist%sdist' % op, (op, DIST, CUM), pos='y')
    add('dist%sleaf' % op, (op, DIST, SX), pos='y')
    add('names%s' % op, (op, NAME, NAME2))
    add('samename%s' % op, (op, SX, NAMESAME))
  for b in (2, 3, -1, -2, 0, 1, .5):
    kw = dict(sqrt_domain='fork') if b == .5 else {}
    add('leaf**%s' % b, ('**', SX, b), pos='x' if b == .5 else '',
        nulls=b != .5)
    add('list**%s' % b, ('**', L2, b), pos='x' if b == .5 else '',
        nulls=b != .5)
  add('leaf**count', ('**', MX, CY))
  add('2**count', ('**', 2, CX))
  add('count**count', ('**', CX, CY))
  add('leaf**leaf', ('**', SX, MY), pos='xy', nulls=False)
  add('2**leaf', ('**', 2, MY), pos='xy', nulls=False)
  add('op**2', ('**', PCTB, 2), pos='y')
  add('neg', ('neg', SX, None))
  add('negneg', ('neg', ('neg', MX, None), None))
  add('neglist', ('neg', L2, None))
  add('negop', ('neg', ABS2, None), nulls=False)
  add('negcomp', ('*', ('neg', ('-', SX, SY), None), ('neg', CX, None)))
  # Shared sub-expressions: Sum(x), Count(x) next to Mean(x), Ratio next to
  # Sum / Sum, the same operand several times.
  for op in ('+', '-', '*', '/'):
    add('sumcount%smean' % op, ('+', (op, SX, CX), MX))
    add('mean+sumcount%s' % op, ('+', MX, (op, SX, CX)))
    add('ratio%s' % op, ('+', RXY, (op, SX, SY)))
  add('filtered mean', ('+', ('/', SXF, lambda m: m.Count(
      'x', where='h != "p"')), MX), nulls=False)
  add('mean filtered', ('-', MX, ('/', SXF, lambda m: m.Count(
      'x', where='h != "p"'))), nulls=False)
  add('distinct', ('+', ('/', SX, lambda m: m.Count('x', distinct=True)), MX),
      nulls=False, n=3)
  add('x/x', ('/', SX, SX))
  add('x-x', ('-', ('-', L2, L2), L2))
  add('a+b+a', ('+', ('+', SX, SY), SX))
  add('1-x vs x-1', ('+', ('-', 1, SX), ('*', 2, ('-', SX, 1))))
  add('a-b vs b-a', ('*', ('-', SX, SY), ('+', ('-', SY, SX), 5)))
  add('-x vs x', ('+', ('*', ('neg', SX, None), 3), SX))
  add('** vs ^', ('-', ('**', SX, 2), ('**', SX, 3)))
  add('filters', ('/', SXF, SYF), splits=(None, 'g'))
  # Operands that lose different slices to their filters.
  lost = lambda f, w: lambda m: f(m, w)
  for op in '+-*/':
    add('lost slices' + op, (op, lost(lambda m, w: m.Sum('x', where=w),
                                      'h != "p"'),
                             lost(lambda m, w: m.Mean('y', where=w),
                                  'h != "q"')),
        splits=('h', ['g', 'h'], 'k'), nulls=False)
  add('lost slices k', ('-', lost(lambda m, w: m.Sum('x', where=w), 'k != 1'),
                        lost(lambda m, w: m.Ratio('y', 'x', where=w),
                             'k != 2')),
      splits=('k', ['k', 'u']), nulls=False)
  add('lost slices list', ('/', lost(lambda m, w: m.MetricList(
      [m.Sum('x'), m.Mean('y')], where=w), 'h != "p"'), lost(
          lambda m, w: m.Sum('x', where=w), 'h != "q"')),
      splits=('h', ['g', 'h']), nulls=False)
  add('lost slices lists', ('-', lost(lambda m, w: m.MetricList(
      [m.Sum('x'), m.Mean('y')], where=w), 'h != "p"'), lost(
          lambda m, w: m.MetricList([m.Mean('x'), m.Sum('y')], where=w),
          'h != "q"')),
      splits=('h', ['g', 'h']), nulls=False)
  add('lost slices op', ('-', lost(lambda m, w: m.PercentChange(
      'c', 'A', m.Sum('x'), where=w), 'h != "p"'), lost(
          lambda m, w: m.AbsoluteChange('c', 'A', m.Sum('x'), where=w),
          'h != "q"')),
      splits=('h', 'u'), nulls=False)
  add('list filter', ('-', L2, L2F))
  add('list tmpl', ('*', TMPL, L2B))
  add('list 1', ('*', L1, SX))
  add('list 1 list', ('*', L1, L2))
  add('list same names', ('*', LIST_SAME, 2))
  add('list same names 2', ('-', LIST_SAME, LIST_SAME))
  add('list same names 3', ('-', 1, LIST_SAME))
  add('list^list', ('-', ('-', L2, 1), ('*', L2B, L2)))
  add('op-l2', ('-', ABS2, L2), nulls=False)
  add('l2-op', ('-', L2, ABS2), nulls=False)
  add('base op', ('*', ('+', PCTB, 1), PCTB), pos='y')
  add('op nested', ('/', ('-', ABS, ('*', 2, PCT)), ('+', SX, 1)), nulls=False,
      pos='y')
  add('hhi', ('-', 1, HHI), pos='y')
  add('hhi2', ('/', ('*', SX, HHI), ('+', HHI, HHI)), pos='y')
  add('dist-op', ('-', lambda m: m.Distribution(
      'h', m.Sum('y') * 2 - m.Mean('y')), DIST), pos='y', nulls=False)
  # Division by zero gives the IEEE result.
  Z = dict(zero_div='fork', n=3, splits=(None, 'g'), cost=3)
  add('zero:leaf/leaf', ('/', SX, SY), **Z)
  add('zero:ratio', ('+', 1, RXY), **Z)
  add('zero:const/leaf', ('/', 1, MX), **Z)
  add('zero:leaf/0', ('/', SX, 0), **Z)
  add('zero:count/0', ('/', CX, 0), **Z)
  add('zero:distinct/0', ('/', CD, 0), **Z)
  add('zero:count/count', ('/', CX, lambda m: m.Count('x', where='k > 100')),
      **Z)
  add('zero:distinct', ('/', CD, lambda m: m.Count(
      'k', distinct=True, where='k > 100')), **Z)
  add('zero:distinct2', ('/', 3, lambda m: m.Count(
      'k', distinct=True, where='k > 100')), **Z)
  add('zero:count**-1', ('**', lambda m: m.Count('x', where='k > 100'), -1),
      **Z)
  add('zero:list', ('/', L2, SY), **Z)
  add('zero:list2', ('/', L2, L2B), **Z)
  add('zero:nested', ('/', ('/', 1, SX), ('/', SY, SX)), **Z)
  add('zero:op', ('/', SX, ABS), **dict(Z, nulls=False, n=4))
  rng = random.Random(seed)
  for i in range(12 if tier == 'quick' else 80):
    e = random_expr(rng, 3, ['+', '-', '*', '/', 'neg', '**', '+', '*'])
    add('random%d:%s' % (i, show(e)), e, n=4, splits=(None, 'g'), cost=3)
  return out


DEFAULTS = dict(budget_s=60, max_paths=1500, zero_div='assume')
THOROUGH = dict(budget_s=300, max_paths=20000)
FUNCTIONS = ['metrics.Metric.__add__ and the other operators',
             'metrics.CompositeMetric.compute_children/compute_on_children/'
             'get_fingerprint', 'metrics.Metric.to_series_or_number',
             'metrics.MetricList.compute_slices/to_dataframe', 'metrics.Ratio',
             'metrics.Metric._compute_with_caching_and_postprocessing',
             'utils.CacheKey', 'operations.PercentChange/AbsoluteChange/'
             'Distribution/CumulativeDistribution', 'diversity.HHI']
EXPLANATION = (
    'The operands are computed separately from fresh instances; their cells '
    'are combined by the arithmetic of the expression (IEEE for divisions by '
    'zero, aligned on slices and index columns). The composite metric is '
    'computed by the real code and the solver decides that each of its cells '
    'equals that value for all cell values.')
BOUNDS = {
    'quick': '5 rows (random expressions 4, division by zero 3), 2 key '
             'patterns, up to two split columns, up to two nulls; expressions '
             'of depth up to 3, 12 of them drawn at random from VERIF_SEED, '
             'with fresh and with shared operand instances',
    'thorough': 'as quick with 80 random expressions',
}
OUTSIDE = ['symbolic exponents beyond uninterpreted pow', 'operands with '
           'different, incomparable index columns', 'operands with different '
           'numbers of columns', 'floating-point rounding']
ASSUMPTIONS = ['real arithmetic instead of float64', 'outside the zero:* '
               'scenarios denominators are not zero on the explored paths']

if __name__ == '__main__':
  harness.main('checks.c04')
