"""Expected tables for operations, from row lists and textbook formulas."""
import pandas as pd

from symx import harness
from symx.harness import norm_key

NAN = float('nan')


def tup(k):
  return k if isinstance(k, tuple) else (k,)


def as_list(x):
  return [] if x is None else [x] if isinstance(x, str) else list(x)


class Table(object):
  """A bounded table: key columns (concrete) and value columns (cells)."""

  def __init__(self, env, keys, vals):
    self.env = env
    self.keys = {k: list(v) for k, v in keys.items()}
    self.vals = {k: list(v) for k, v in vals.items()}
    self.n = len(next(iter(list(keys.values()) + list(vals.values()))))

  def df(self, index=None):
    df = self.env.frame(dict(self.keys, **self.vals))
    if index is not None:
      df.index = index
    return df

  def key(self, i, by):
    return tuple(self.keys[b][i] for b in by)

  def groups(self, by, rows=None):
    """{key tuple: rows} for the combinations that occur, sorted."""
    out = {}
    for i in (range(self.n) if rows is None else rows):
      out.setdefault(self.key(i, by), []).append(i)
    return {k: out[k] for k in sorted(out)}

  def col(self, c, rows):
    return [self.vals[c][i] for i in rows]


def expect(env, label, got, want, names, columns, order=None, absent_ok=True):
  """got is the table `want`: {(row tuple, column): cell}.

  `names` are the index names, `columns` the column labels in order; with
  `order`, the row keys in order.  A row that is null everywhere may be absent.
  """
  if not isinstance(got, pd.DataFrame):
    return env.fail(label, 'type %s' % type(got))
  gc = list(got.columns)
  if gc != list(columns):
    return env.fail(label, 'columns: got %s want %s' % (gc, list(columns)))
  if names is not None and list(got.index.names) != list(names):
    return env.fail(label, 'index names: got %s want %s' % (
        list(got.index.names), list(names)))
  keys = [tup(norm_key(k)) for k in got.index]
  if names == [None]:
    keys = [()] * len(keys)
    if len(got) != 1:
      return env.fail(label, '%d rows' % len(got))
  if len(set(keys)) != len(keys):
    return env.fail(label, 'duplicate rows: %s' % keys)
  g = {}
  for i, k in enumerate(keys):
    for j, c in enumerate(gc):
      g[(k, c)] = got.iat[i, j]
  w = {(tup(norm_key(k)), c): v for (k, c), v in want.items()}
  for k in sorted(set(g) | set(w), key=repr):
    if not absent_ok and (k in g) != (k in w):
      return env.fail(label, 'row %s is %s' % (
          k, 'missing' if k in w else 'unexpected'))
    env.check_cell('%s@%s' % (label, k), g.get(k, NAN), w.get(k, NAN))
  if order is not None:
    o = [tup(norm_key(k)) for k in order]
    have = [k for k in keys if k in o]
    if have != [k for k in o if k in have]:
      env.fail(label, 'order: got %s want %s' % (keys, o))
