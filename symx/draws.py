"""Nondeterministic stand-ins for the random draws of the bootstraps.

The pandas sample() calls and np.random.poisson() return what the scenario's
choices say, so that a run covers one outcome and the engine covers all of
them.  A draw is identified by the number of the resample, the slice and the
labels to draw from, so it is the same for every path that resamples the same
units, however it gets there.
"""
import contextlib

import numpy as np
import pandas as pd
from pandas.core.groupby.generic import DataFrameGroupBy, SeriesGroupBy

from symx.harness import norm_key


class Draws(object):

  def __init__(self, env, unit=None, outcomes=None, weights=None, pre='draw'):
    """outcomes(i, n): the tuples of positions that resample i may draw."""
    self.env, self.unit, self.pre = env, unit, pre
    self.outcomes = outcomes or (lambda i, n: all_draws(n))
    self.weights = weights or (lambda i, n: all_weights(n))
    self.memo = {}
    self.calls = 0
    self.log = {}  # {(resample, slice): drawn labels}
    self.drawn_from = {}  # {(resample, slice): labels to draw from}

  def restart(self):
    self.calls = 0
    self.log = {}
    self.drawn_from = {}

  def labels(self, frame, rows):
    """Labels of the rows of a frame: units if there are, else positions."""
    u = self.unit
    if u is not None:
      if u in frame.index.names:
        return [norm_key(x) for x in np.asarray(
            frame.index.get_level_values(u))[rows]]
      if u in frame.columns:
        return [norm_key(x) for x in frame[u].to_numpy()[rows]]
    return [int(i) for i in rows]

  def draw(self, i, key, labels):
    """Positions in labels drawn by resample i within the slice key."""
    order = sorted(range(len(labels)), key=lambda j: repr(labels[j]))
    k = (i, key, tuple(repr(labels[j]) for j in order))
    if k not in self.memo:
      opts = self.outcomes(i, len(labels))
      name = '%s:%s:%s:%s' % (self.pre, i, key, ','.join(k[2]))
      self.memo[k] = self.env.pick(name, opts)
    pos = [order[j] for j in self.memo[k]]
    self.log[(i, key)] = [labels[j] for j in pos]
    self.drawn_from[(i, key)] = list(labels)
    return pos

  def sample(self, obj, frac=None, replace=False, **k):
    assert frac == 1 and replace and not k, 'unexpected sample(%s)' % k
    i = self.calls
    self.calls += 1
    if isinstance(obj, (DataFrameGroupBy, SeriesGroupBy)):
      frame = obj._selected_obj if not hasattr(obj, 'obj') else obj.obj
      rows = []
      for key, idx in obj.indices.items():
        key = tuple(map(norm_key, key if isinstance(key, tuple) else (key,)))
        idx = list(idx)
        pos = self.draw(i, key, self.labels(frame, idx))
        rows += [idx[p] for p in pos]
      return frame.iloc[rows]
    idx = list(range(len(obj)))
    return obj.iloc[self.draw(i, (), self.labels(obj, idx))]

  def poisson(self, lam=1.0, size=None):
    assert lam == 1.0
    i = self.calls
    self.calls += 1
    k = (i, size)
    if k not in self.memo:
      self.memo[k] = self.env.pick('%s:p%s:%s' % (self.pre, i, size),
                                   self.weights(i, size))
    self.log[i] = self.memo[k]
    self.drawn_from[i] = size
    return np.array(self.memo[k], dtype=int)


def all_draws(n):
  """All n**n draws with replacement."""
  out = [()]
  for _ in range(n):
    out = [o + (i,) for o in out for i in range(n)]
  return out


def multisets(n):
  """One draw per multiset of n labels."""
  return sorted({tuple(sorted(d)) for d in all_draws(n)})


def all_weights(n, top=2):
  out = [()]
  for _ in range(n):
    out = [o + (i,) for o in out for i in range(top + 1)]
  return out


@contextlib.contextmanager
def patched(draws):
  """Replaces pandas' and numpy's random draws by `draws`."""
  saved = [(pd.DataFrame, 'sample', pd.DataFrame.sample),
           (DataFrameGroupBy, 'sample', DataFrameGroupBy.sample),
           (np.random, 'poisson', np.random.poisson)]
  pd.DataFrame.sample = lambda self, **k: draws.sample(self, **k)
  DataFrameGroupBy.sample = lambda self, **k: draws.sample(self, **k)
  np.random.poisson = lambda lam=1.0, size=None: draws.poisson(lam, size)
  try:
    yield draws
  finally:
    for o, n, f in saved:
      setattr(o, n, f)
