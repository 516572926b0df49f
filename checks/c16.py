"""P16: SQL of Jackknife and the bootstraps against their definitions."""
import fractions
import math
import re

import pandas as pd
from scipy import stats

from checks import c08, c09, c10, catalog
from checks.c08 import NAN, SE, frame, split_result
from symx import core, draws as draws_lib, harness, sqlcheck, sqltv
from symx.core import Sym
from symx.harness import Scenario, norm_key
from symx.opcheck import as_list

PROPERTY = 'P16'
LEVEL = 'translation_validation'
ms = catalog.ms


def compare(env, label, got, want):
  """Like c08.compare; a division by zero is null in SQL."""
  for k in sorted(set(got) | set(want), key=repr):
    g, w = got.get(k, (NAN, NAN)), want.get(k, (NAN, NAN))
    if w[0] is not None:
      env.check_cell('%s value@%s' % (label, k), sqlcheck.canon(g[0]),
                     sqlcheck.canon(w[0]))
    if w[1] is not None:
      env.check_cell('%s se@%s' % (label, k), sqlcheck.canon(g[1]),
                     sqlcheck.canon(w[1]))


def empty_sum(cols, by):
  """Is a frame, or a part of it, without values of a column?

  The sum of no values is 0 in pandas and null in SQL.
  """

  def void(df):
    parts = {}
    for i in range(len(df)):
      k = tuple(norm_key(df[b].iat[i]) for b in by)
      parts.setdefault(k, []).append(i)
    return any(
        all(c09.is_null(df[c].iat[i]) for i in idx)
        for c in cols for idx in parts.values())

  return void


def changes(want):
  """The rows of the base values: those that have a change."""
  return {(k[2],) + k[0] + tuple(v for _, v in k[1])
          for k, v in want.items() if not harness.isnan(v[0])}


# --- Jackknife ---------------------------------------------------------------
def jk(name, make, cols='x', pos='', nulls=None, keys=c08.KEYS, n=5,
       where=None, splits=(None, 'g'), distinct='', optimised=(True, False),
       keep=None, modes=(None, 'mixed'), batch=None, confidence=None,
       table=None, by=(), **opts):
  """compute_on_sql of Jackknife('u', make()) against delete-one estimates."""

  def fn(env):
    m = ms()
    df = frame(env, keys, n, cols, pos, nulls, distinct)
    sp = as_list(env.pick('split', list(splits)))
    mode = env.pick('mode', list(modes))
    kept = df.query(where) if where else df
    if len(set(map(repr, kept['u']))) < 2:
      return  # Not enough units at all.
    opt = env.pick('optimised', list(optimised))
    void = empty_sum(nulls, by) if nulls and 'mean' not in name else None
    want = c08.oracle(env, make, m, kept, 'u', sp, keep, void)
    op = m.Jackknife('u', make(m), confidence, enable_optimization=opt,
                     where=where)
    kw = {'batch_size': batch} if batch else {}
    got = op.compute_on_sql(table or 'T', sp, sqltv.executor(env, {'T': df}),
                            mode=mode, **kw)
    if list(got.index.names)[:len(sp)] != sp:
      env.fail('index', 'index names %s' % list(got.index.names))
    if confidence:
      c10.check_intervals(env, 'sql', c10.intervals(got, sp, 'Jackknife'),
                          want, confidence)
      return c10.check_base(env, 'base', got.meterstick_change_base, make, m,
                            kept, sp, changes(want))
    compare(env, 'sql', split_result(got, sp), want)

  return Scenario(name if ':' in name else 'jk:' + name, fn, **opts)


def outcomes(i, n):
  """Fewer draws than in P09."""
  got = c09.outcomes(i, n)
  return got[:4] if i == 0 else got[:1]


def weights(i, n):
  got = c09.weights(i, n)
  if i:
    return got[:1]
  return got[1:-1:2] if len(got) > 6 else got[:4]


def flat(res, want, scale=1):
  """The nested resampling is the first two columns of the result."""
  res = res.iloc[:, :2]
  metric = next(k[2] for k in want)
  res.columns = pd.MultiIndex.from_tuples(
      [(metric, 'Value'), (metric, SE)], names=['Metric', None])
  return res


def nested(name, make, wrap, where=None, boot=None, cols='xy', times=1, n=5,
           keys=c08.KEYS, splits=(None, 'g'), **opts):
  """Jackknife or a bootstrap within a metric that might have a filter."""

  def fn(env):
    m = ms()
    df = frame(env, keys, n, cols, '', None)
    df['rid'] = range(len(df))
    sp = as_list(env.pick('split', list(splits)))
    mode = env.pick('mode', [None, 'mixed'] if not boot else [None])
    kept = df.query(where) if where else df
    opt = env.pick('optimised', [True, False])
    if not boot:
      if len(set(map(repr, kept['u']))) < 2:
        return
      op = m.Jackknife('u', make(m), enable_optimization=opt)
      execute = sqltv.executor(env, {'T': df})
    else:
      draws = Draws(env, df, kept, 'u', sp, lambda i, n: c09.outcomes(1, n),
                    lambda i, n: c09.weights(1, n), 0)
      op = getattr(m, boot)('u', make(m), 2, enable_optimization=opt)
      execute = executor(env, df, draws, boot != 'Bootstrap')
    op = wrap(m, op)
    got = op.compute_on_sql('T', sp, execute, mode=mode)
    if boot:
      samples = draws.samples(2, boot != 'Bootstrap')
      if samples is None:
        return
      want = c09.oracle(env, make, m, kept, sp, samples, None, None)
    else:
      want = c08.oracle(env, make, m, kept, 'u', sp)
    want = {k: tuple(v if v is None else v * times for v in w)
            for k, w in want.items()}
    compare(env, 'nested', split_result(flat(got, want), sp), want)

  return Scenario(name, fn, **opts)


# --- bootstraps --------------------------------------------------------------
class Draws(object):
  """The outcomes of RAND and FARM_FINGERPRINT are choices of the scenario."""

  def __init__(self, env, df, kept, unit, split, outcomes, weights, per_query):
    self.env, self.unit, self.split = env, unit, split
    self.outcomes, self.weights = outcomes, weights
    self.per_query = per_query
    self.queries = self.offset = 0
    self.memo, self.log, self.strings, self.dropped = {}, {}, {}, []
    self.kept = kept
    self.pos = {int(r): i for i, r in enumerate(kept['rid'])}
    self.slices = c09.rows_of(kept, split)
    ids = [norm_key(u) for u in kept['u']]
    self.units = {s: list(dict.fromkeys(
        ids[i] for i in idx if not c09.is_null(kept['u'].iat[i])))
                  for s, idx in self.slices.items()}
    self.ids = ids
    if unit:
      self.order = sorted((s, u) for s in self.slices for u in self.units[s])
    else:
      self.order = [(s, i) for s in self.slices for i in self.slices[s]]

  def where(self, c):
    """(replicate, slice, label) of the row that the number is drawn for."""
    r = int(c.col(None, 'meterstick_resample_idx'))
    s = tuple(norm_key(c.col(None, a)) for a in self.split)
    r += self.offset
    if self.unit:
      return r, s, norm_key(c.col(None, 'u'))
    rid = int(c.col(None, 'rid'))
    return r, s, self.pos.get(rid)

  def draw(self, nrand, n, c):
    """The row number, from 0, for a row of n."""
    del nrand
    r, s, label = self.where(c)
    if label is None:  # Not in the filter: drawn among themselves.
      if self.unit:
        self.env.fail('draws', 'a null unit is resampled')
      self.dropped.append((r, s))
      return 0
    got = self.log.setdefault((r, s), [])
    k = (r, s, n)
    if k not in self.memo:
      self.memo[k] = self.env.pick('draw:%s:%s:%s' % k,
                                   self.outcomes(r - 1, n))
    if len(got) >= n:
      raise core.Unsupported('%d draws from %d' % (len(got) + 1, n))
    x = self.memo[k][len(got)]
    got.append((label, x))
    return x

  def weight(self, r, s, label):
    if (r,) not in self.memo:
      opts = self.weights(r - 1, len(self.order))
      if not self.split:
        opts = [w for w in opts if any(w)]
      self.memo[(r,)] = self.env.pick('weights:%s' % r, opts)
    if (s, label) not in self.order:
      return 1  # Not in the filter.
    w = self.memo[(r,)][self.order.index((s, label))]
    self.log[(r, s, label)] = w
    return w

  def uniform(self, w):
    lo = stats.poisson.cdf(w - 1, 1) if w else 0
    return (float(lo) + float(stats.poisson.cdf(w, 1))) / 2

  def rand(self, c):
    r, s, label = self.where(c)
    return self.uniform(1 if label is None else self.weight(r, s, label))

  def hash(self, text, c):
    r, s, label = self.where(c)
    key = (r, s, label)
    if self.strings.setdefault(text, key) != key:
      self.env.fail('draws', '%s and %s always get the same weight' % (
          self.strings[text], key))
    return int((self.uniform(self.weight(r, s, label)) - .5) *
               0xFFFFFFFFFFFFFFFF)

  def samples(self, n_rep, poisson):
    """[{slice: row numbers}] for each resample."""
    env, out = self.env, []
    for r in range(1, n_rep + 1):
      sample = {}
      if poisson:
        for s, label in self.order:
          # The rows that the child filters out may get no weight.
          w = self.log.get((r, s, label), 1)
          rows = [i for i in self.slices[s] if self.ids[i] == label
                 ] if self.unit else [label]
          sample.setdefault(s, []).extend(rows * w)
      else:
        for s, idx in self.slices.items():
          pool = self.units[s] if self.unit else idx
          got = self.log.get((r, s), [])
          if sorted(repr(l) for l, _ in got) != sorted(map(repr, pool)):
            env.fail('draws', 'slice %s: drawn from %s instead of %s' % (
                s, [l for l, _ in got], pool))
            return None
          for _, k in got:
            l = got[k][0]
            sample.setdefault(s, []).extend(
                [i for i in idx if self.ids[i] == l] if self.unit else [l])
      out.append(sample)
    extra = [k for k in self.log if k[0] > n_rep]
    if extra:
      env.fail('draws', 'more than %d replicates: %s' % (n_rep, extra[:1]))
    return out


def executor(env, df, draws, poisson):
  hooks = {'hash': draws.hash}
  if poisson:
    hooks['rand'] = draws.rand
  else:
    hooks['draw'] = draws.draw
  run = sqltv.executor(env, {'T': df}, None, hooks)

  def execute(text):
    text = str(text)
    # PoissonBootstrap numbers the replicates throughout the queries.
    first = re.search(r'GENERATE_ARRAY\((\d+), \d+\)', text)
    if first:
      draws.queries += 1
      draws.offset = draws.per_query * (draws.queries - 1)
      draws.offset -= int(first[1]) - 1
    return run(text)

  return execute


def bs(name, make, cols='x', pos='', nulls=None, keys=c09.KEYS, n=4,
       where=None, splits=(None, 'g'), distinct='', cls='Bootstrap',
       unit='u', n_rep=2, keep=None, outs=None, ws=None, paths=(True, False),
       modes=(None, 'mixed'), batch=None, confidence=None, by=(), draws_cls=Draws, rename=None, **opts):

  def fn(env):
    m = ms()
    df = frame(env, keys, n, cols, pos, nulls, distinct)
    df['rid'] = range(len(df))
    df.rename(columns=rename or {}, inplace=True)
    sp = as_list(env.pick('split', list(splits)))
    mode = env.pick('mode', list(modes))
    opt = env.pick('optimised', list(paths if unit else paths[:1]))
    kept = df.query(where) if where else df
    poisson = cls != 'Bootstrap'
    draws = draws_cls(env, df, kept, unit, sp, outs or outcomes,
                  ws or weights, batch or 0)
    op = getattr(m, cls)(unit, make(m), n_rep, confidence,
                         enable_optimization=opt, where=where)
    kw = {'batch_size': batch} if batch else {}
    got = op.compute_on_sql('T', sp, executor(env, df, draws, poisson),
                            mode=mode, **kw)
    samples = draws.samples(n_rep, poisson)
    if samples is None:
      return
    void = empty_sum(nulls, by) if nulls and 'mean' not in name else None
    want = c09.oracle(env, make, m, kept, sp, samples, keep, void)
    pre = c10.PREFIX[cls]
    if confidence:
      c10.check_intervals(env, 'sql', c10.intervals(got, sp, pre), want,
                          confidence)
      return c10.check_base(env, 'base', got.meterstick_change_base, make, m,
                            kept, sp, changes(want))
    compare(env, 'sql', split_result(got, sp, pre + ' SE'), want)

  return Scenario(name, fn, **opts)


# --- the weights -------------------------------------------------------------
def cdf(k):
  """P(Poisson(1) <= k), a fraction within 1e-30."""
  e = sum(fractions.Fraction(1, math.factorial(i)) for i in range(40))
  return sum(fractions.Fraction(1, math.factorial(i))
             for i in range(k + 1)) / e


GAP = fractions.Fraction(1, 10**12)


class Uniform(Draws):
  """The number of one row or unit is symbolic; its weight is Poisson(1)."""

  def weight_of(self, u):
    for k in range(20):
      if bool(u < cdf(k)):
        return k
    return 20

  def number(self, r, s, label):
    env = self.env
    if (r, s, label) not in self.memo:
      u = .5  # One time.
      if (r, s, label) == (1,) + self.order[0]:
        u = env.real('uniform')
        env.assume(u > GAP)
        env.assume(u < 1 - GAP)
        for k in range(15):
          env.assume(sym_abs(u - cdf(k)) > GAP)
      self.memo[(r, s, label)] = u
      self.log[(r, s, label)] = 1 if isinstance(u, float) else None
    return self.memo[(r, s, label)]

  def rand(self, c):
    r, s, label = self.where(c)
    return self.number(r, s, label)

  def hash(self, text, c):
    r, s, label = self.where(c)
    return (self.number(r, s, label) - fractions.Fraction(1, 2)
           ) * 0xFFFFFFFFFFFFFFFF

  def samples(self, n_rep, poisson):
    for k, v in self.log.items():
      if v is None:
        self.log[k] = self.weight_of(self.memo[k])
    return super().samples(n_rep, poisson)


def sym_abs(x):
  return x if bool(x > 0) else -x


NO_SQL = ('custom', 'quantile', 'no unit')
# Nulls in the metrics of two columns are not the same in SQL (see P14).
SKIP = ('wmean nulls', 'cov nulls', 'wvar', 'wcov')


def scenarios(tier, seed):
  del tier, seed
  out = []

  def add(name, make, **k):
    if name.startswith(NO_SQL) or name in SKIP:
      return
    if name == 'sum of emptied filter':
      k['keep'] = ['k > 1']
    if name == 'filtered change':
      k['keep'] = ['k < 2 and c == "A"', 'k < 2 and c == "B"']
    if name == 'ratio of emptied filter':
      k['keep'] = [c08.W]
    out.append(jk(name, make, **k))

  c08.leaves(add)
  c08.trees(add)
  c08.operations(lambda *a, **k: add(*a, by='c', **k))
  for cls, pre in (('Bootstrap', 'b'), ('PoissonBootstrap', 'p')):
    for name, make, k in c09.children():
      if name.startswith(NO_SQL) or name == 'filters':
        continue
      out.append(bs('%s:unit:%s' % (pre, name), make, cls=cls, **k))
      if name.startswith('no unit') or 'filter' in name:
        continue
      k = dict(k, n=min(k.get('n', 4), 4))
      if name not in ('sum', 'mean', 'abs'):
        k = dict(k, keys=k.get('keys', c09.KEYS)[-1:], splits=('g',))
      out.append(bs('%s:rows:%s' % (pre, name), make, cls=cls, unit=None, **k))
  return out + more()


def more():
  """Confidence intervals, batches, weights and names."""
  out = []
  change = lambda m: m.AbsoluteChange('c', 'A', m.Sum('x'))
  kk = ['k < 2 and c == "A"', 'k < 2 and c == "B"']
  own = lambda m: m.AbsoluteChange('c', 'A', m.Sum('x'), where='k < 2')
  pct = lambda m: m.PercentChange('c', 'A', m.Mean('x'))
  both = lambda m: m.MetricList([m.Sum('x'), m.Mean('y')])
  for name, make, k in (
      ('sum', lambda m: m.Sum('x'), {}), ('change', change, dict(n=6)),
      ('pct', pct, dict(n=6, pos='x')), ('list', both, dict(cols='xy')),
      ('max', lambda m: m.Max('x'), dict(n=4)),
      ('means', lambda m: m.MetricList([m.Mean('x'), m.Mean('y')]), dict(
          cols='xy', nulls={'y': [(1, 2), (0, 3, 4), (0, 1, 3)]})),
      ('means swapped', lambda m: m.MetricList([m.Mean('y'), m.Mean('x')]),
       dict(cols='xy', nulls={'y': [(2, 4), (0, 1, 3)]})),
      ('change of means', lambda m: m.AbsoluteChange('c', 'A', m.MetricList(
          [m.Mean('x'), m.Mean('y')])), dict(
              cols='xy', n=6, nulls={'y': [(2,), (0, 3)]})),
      ('own filter', own, dict(n=6, keep=kk)),
      ('own filters', lambda m: m.PercentChange('c', 'A', m.MetricList(
          [m.Sum('x', where='h != "r"'), m.Mean('x')]), where='k < 2'),
       dict(n=6, pos='x', keep=kk + [k + ' and h != "r"' for k in kk])),
      ('change of max', lambda m: m.AbsoluteChange(
          'c', 'A', m.Max('x'), where='k < 2'), dict(n=5, keep=kk)),
      ('both filters', own, dict(n=6, where='h != "r"', keep=kk)),
      ('change where', change, dict(n=6, where='k < 2'))):
    out.append(jk('jk:confidence ' + name, make, confidence=.9, cost=4, **k))
    if name in ('sum', 'change', 'list'):
      for b in (2, 3):
        out.append(jk('jk:batch %s %s' % (b, name), make, batch=b, cost=3,
                      modes=('mixed',), **k))
  out.append(jk('jk:batch confidence', change, batch=2, n=6, confidence=.95,
                modes=('mixed',), cost=3))
  out.append(jk('jk:query', lambda m: m.Mean('x'), table='SELECT * FROM T'))
  out.append(jk('jk:query change', change, n=6, table='SELECT * FROM T'))
  w = 'k < 2'
  for boot in (None, 'Bootstrap', 'PoissonBootstrap'):
    pre = 'nested:' + (boot or 'Jackknife') + ':'
    total = lambda m: m.Sum('x')
    k = dict(boot=boot, cost=3)
    if boot:
      k.update(keys=c09.KEYS[1:], n=4)
    out += [
        nested(pre + 'list', total, lambda m, op: m.MetricList(
            [op, m.Sum('y')]), **k),
        nested(pre + 'filtered list', total, lambda m, op: m.MetricList(
            [op, m.Sum('y')], where=w), w, **k),
        nested(pre + 'inner filter', total, lambda m, op: m.MetricList(
            [m.MetricList([op], where=w), m.Sum('y')]), w, **k),
        nested(pre + 'inner filter of mean', lambda m: m.Mean('x'),
               lambda m, op: m.MetricList(
                   [m.MetricList([op], where=w), m.Sum('y')]), w, **k),
        nested(pre + 'filters of two', total, lambda m, op: m.MetricList(
            [m.MetricList([m.MetricList([op], where='k < 3')], where=w),
             m.Max('y')]), w + ' and k < 3', **k),
        nested(pre + 'twice', total, lambda m, op: op * 2, times=2, **k),
        nested(pre + 'filtered twice', total, lambda m, op: m.MetricList(
            [op * 2], where=w), w, times=2, **k),
    ]
  few = dict(outs=lambda i, n: c09.outcomes(1, n),
             ws=lambda i, n: c09.weights(1, n))
  for cls, pre in (('Bootstrap', 'b'), ('PoissonBootstrap', 'p')):
    for name, make, k in (
        ('sum', lambda m: m.Sum('x'), {}), ('change', change, {}),
        ('list', both, dict(cols='xy')), ('own filter', own, dict(keep=kk)),
        ('max', lambda m: m.Max('x'), dict(n=3))):
      k = dict(few, keys=c09.KEYS[1:], cls=cls, cost=3, **k)
      out.append(bs('%s:confidence %s' % (pre, name), make, confidence=.9, **k))
      out.append(bs('%s:batch %s' % (pre, name), make, batch=2, n_rep=3,
                    modes=('mixed',), **k))
      if name != 'max':
        out.append(bs('%s:rows batch %s' % (pre, name), make, batch=1,
                      unit=None, modes=('mixed',), **k))
    # Columns that have names like those of the preaggregated data.
    for name, make in (
        ('dist', lambda m: m.Distribution('sum_k', m.Sum('x'))),
        ('change', lambda m: m.AbsoluteChange('count_k', 1, m.Mean('x'))),
        ('mean', lambda m: m.Mean('sum_k'))):
      out.append(bs('%s:like sum %s' % (pre, name), make, cls=cls, pos='x',
                    rename={'k': 'count_k' if name == 'change' else 'sum_k'},
                    **few))
    # 1, 11 and replicates 1, 11; slices and units that agree in a row.
    out.append(bs(pre + ':same digits', lambda m: m.Sum('x'), cls=cls, n=4,
                  n_rep=12, keys=[dict(u=[1, 11, 1, 11], g=[1, 1, 11, 11],
                                       k=[1, 1, 1, 1], c=list('ABAB'),
                                       h=list('pqpq')),
                                  dict(u=[2, 12, 1, 2], g=[11, 1, 12, 1],
                                       k=[1, 1, 1, 1], c=list('ABAB'),
                                       h=list('pqpq'))],
                  outs=lambda i, n: [((0,) * n, tuple(range(n)))[i % 2]],
                  ws=lambda i, n: [tuple((i + j) % 2 + 1 for j in range(n))]))
  for unit in ('u', None):
    for split in (None, 'g'):
      out.append(bs('p:weights %s %s' % (unit, split), lambda m: m.Sum('x'),
                    cls='PoissonBootstrap', unit=unit, n=2, splits=(split,),
                    keys=[dict(u=[1, 2], g=['a', 'a'], k=[1, 1], c=['A', 'B'],
                               h=['p', 'q'])], draws_cls=Uniform,
                    modes=(None,)))
  return out


DEFAULTS = dict(intern=True, budget_s=90, max_paths=3000, zero_div='assume')
THOROUGH = dict(budget_s=400, max_paths=20000)
FUNCTIONS = [
    'operations.MetricWithCI (to_sql, get_sql_and_with_clause, '
    'compute_on_sql_sql_mode, compute_on_sql_mixed_mode)',
    'operations.Jackknife (compute_children_sql, get_resampled_data_sql)',
    'operations.Bootstrap / PoissonBootstrap (compute_children_sql, '
    'get_resampled_data_sql)',
    'operations.get_se_sql / get_preaggregated_* / '
    'get_jackknife_data_* / modify_descendants_for_jackknife_fast / '
    'bootstrap_by_row / bootstrap_by_unit',
    'utils.get_global_filter / push_filters_to_leaf',
    'metrics.*.get_sql_and_with_clause, sql.*']
EXPLANATION = (
    'compute_on_sql of the real Jackknife, Bootstrap and PoissonBootstrap '
    'generates the queries; symx/sqlrun.py runs their text on the table of '
    'symbolic cells.  RAND and FARM_FINGERPRINT are nondeterministic choices '
    'that the engine explores.  The oracle runs the child itself (in pandas) '
    'on the leave-one-out frames, or on the rows that were drawn, and takes '
    'the standard deviation; the solver decides that estimates, standard '
    'errors and confidence bounds agree for all cell values.  It is also '
    'checked that every slice draws from exactly its own rows or units, that '
    'all the parts of a metric see the same resample, that no two units or '
    'replicates share a weight by construction, and, with a symbolic uniform '
    'number, that it is mapped to the Poisson(1) quantile.')
BOUNDS = {
    'quick': '3-6 rows, 2-3 units, 2-3 patterns of units/slices, 0-2 split '
             'columns, pure SQL and mixed mode (batches of 1-3 queries), '
             'optimised and general queries; 2-3 replicates (12 for the '
             'hashes) with 1-10 draws or vectors of weights 0-2 each; about '
             '60 children for Jackknife, 35 for the bootstraps',
    'thorough': 'as quick with a budget of 400 s and 20000 paths per scenario',
}
OUTSIDE = ['the database (BigQuery is modelled by symx/sqlrun.py)',
           'null units', 'samples in which a sum is over no values (0 in '
           'pandas, null in SQL)', 'a unit whose removal empties a filter but '
           'not the slice (see P08)', 'nulls in metrics of two columns',
           'uniform numbers within 1e-12 of the Poisson quantiles, weights '
           'above 15', 'Models and CUPED in SQL', 'Quantile (approximate)']
ASSUMPTIONS = ['real arithmetic instead of float64', 'denominators are not '
               'zero on the explored paths', 'FARM_FINGERPRINT of different '
               'strings is independent and uniform']

if __name__ == '__main__':
  harness.main('checks.c16')
