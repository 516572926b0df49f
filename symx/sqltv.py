"""Glue: runs meterstick's SQL on a frame and returns a frame."""
import numpy as np
import pandas as pd

from symx import core, sqlrun
from symx.core import Sym


def executor(env, tables, log=None, hooks=None):
  """An `execute` callable for compute_on_sql over {name: DataFrame}."""
  data = {}
  for name, df in tables.items():
    data[name] = (list(df.columns),
                  [list(r) for r in df.astype(object).itertuples(
                      index=False, name=None)])

  def execute(text):
    text = str(text)
    if log is not None:
      log.append(text)
    run = sqlrun.Runner(env, data, hooks)
    names, rows = run.run(text)
    return to_frame(env, names, rows)

  return execute


def to_frame(env, names, rows):
  cols = {}
  for j, n in enumerate(names):
    xs = [_out(r[j]) for r in rows]
    if any(isinstance(x, Sym) for x in xs):
      a = np.empty(len(xs), dtype=object)
      for i, x in enumerate(xs):
        a[i] = np.nan if x is None else x
      cols[n] = pd.Series(a)
    elif all(x is None or (isinstance(x, (int, float)) and
                           not isinstance(x, bool)) for x in xs):
      if any(x is None for x in xs) or any(isinstance(x, float) for x in xs):
        cols[n] = pd.Series([np.nan if x is None else x for x in xs],
                            dtype=float)
      else:
        cols[n] = pd.Series(xs, dtype='int64' if xs else object)
    else:
      cols[n] = pd.Series(xs, dtype=object)
  return pd.DataFrame(cols, columns=names)


def _out(v):
  if isinstance(v, sqlrun.Str):
    return str(v)
  return v
