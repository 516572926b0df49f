"""Comparing compute_on_sql with compute_on."""
from symx import data, harness, sqltv
from symx.core import Sym, isnan

NAN = float('nan')


def canon(v):
  """Division by zero is inf in pandas and NULL in SQL: both count as null."""
  v = harness.rnum(v)
  if isinstance(v, float) and abs(v) > 1e12:
    return NAN
  return v


def table(obj):
  c = {repr(k): canon(v) for k, v in harness.cells(obj).items()}
  return c


def check(env, label, got, want, columns=True):
  """got (SQL) and want (pandas) are the same table, up to all-null rows."""
  if hasattr(got, 'columns') != hasattr(want, 'columns'):
    return env.fail(label, 'type: got %s want %s' % (type(got), type(want)))
  if columns and hasattr(got, 'columns'):
    gc = [harness.norm_key(c) for c in got.columns]
    wc = [harness.norm_key(c) for c in want.columns]
    if gc != wc:
      return env.fail(label, 'columns: got %s want %s' % (gc, wc))
    gi, wi = list(got.index.names), list(want.index.names)
    if gi != wi:
      return env.fail(label, 'index names: got %s want %s' % (gi, wi))
  g, w = table(got), table(want)
  for k in sorted(set(g) | set(w)):
    a, b = g.get(k, NAN), w.get(k, NAN)
    if 'count' in k and isnan(b) and not isinstance(a, Sym) and a == 0:
      continue  # An empty count: 0 in SQL, absent in pandas.
    env.check_cell('%s@%s' % (label, k), a, b)


def run(env, df, make, split, label='sql', mode=None, table_sql='T', want=None,
        hooks=None, log=None, **kw):
  m1, m2 = make(), make()
  ex = sqltv.executor(env, {'T': df}, log if log is not None else [], hooks)
  got = m1.compute_on_sql(table_sql, split, ex, mode=mode, **kw)
  if want is None:
    want = m2.compute_on(df, split, **kw)
  check(env, label, got, want)
  return got, want


def any_of(conds):
  r = False
  for c in conds:
    r = c | r if not isinstance(c, bool) else (r | c)
  return r
