"""Lets pandas/numpy run on object arrays that hold `Sym` cells.

Only the kernels that would force a cell to a C double are replaced, and only
when the array really holds a Sym; everything else is the real pandas.  The
replacements follow pandas' documented semantics (skipna, ddof, min_count).
"""
import builtins
import functools
import sys

import numpy as np
import pandas as pd
from pandas.core import nanops
from pandas.core.groupby import ops as gops
from pandas.core.groupby import groupby as gb
from pandas.core.dtypes import astype as pd_astype

from symx import core
from symx.core import Sym, isnan

_installed = False


def has_sym(values):
  if isinstance(values, Sym):
    return True
  if isinstance(values, (pd.Series, pd.Index)):
    if values.dtype != object:
      return False
    values = values.to_numpy()
  if isinstance(values, pd.DataFrame):
    return any(has_sym(values.iloc[:, i]) for i in range(values.shape[1]))
  if isinstance(values, (list, tuple)):
    return any(has_sym(v) for v in values)
  if not isinstance(values, np.ndarray) or values.dtype != object:
    return False
  for v in values.ravel():
    if isinstance(v, Sym):
      return True
  return False


def lift(v):
  """Concrete numbers to Sym constants so that division stays exact."""
  if isinstance(v, Sym) or isnan(v):
    return v
  if core.is_num(v):
    f = float(v)
    if f in (float('inf'), float('-inf')):
      return f
    return Sym._coerce(v)
  return v


# ----- scalar kernels over a list of cells


def k_sum(xs, min_count=0):
  xs = [x for x in xs if not isnan(x)]
  if len(xs) < (min_count or 0):
    return np.nan
  r = Sym(core.ZERO)
  for x in xs:
    r = r + x
  return r


def k_prod(xs, min_count=0):
  xs = [x for x in xs if not isnan(x)]
  if len(xs) < (min_count or 0):
    return np.nan
  r = Sym(core.ONE)
  for x in xs:
    r = r * x
  return r


def k_mean(xs):
  xs = [x for x in xs if not isnan(x)]
  if not xs:
    return np.nan
  return k_sum(xs) / len(xs)


def k_var(xs, ddof=1):
  xs = [x for x in xs if not isnan(x)]
  n = len(xs)
  if n <= ddof:
    return np.nan
  if any(isinstance(x, float) and np.isinf(x) for x in xs):
    return np.nan
  if core.engine().intern:
    xs = [core.intern(x) for x in xs]
  m = k_mean(xs)
  return k_sum([(x - m) * (x - m) for x in xs]) / (n - ddof)


def k_std(xs, ddof=1):
  v = k_var(xs, ddof)
  return v if isnan(v) else core.sqrt(lift(v))


def k_sem(xs, ddof=1):
  xs = [x for x in xs if not isnan(x)]
  s = k_std(xs, ddof)
  return s if isnan(s) else s / core.sqrt(lift(len(xs)))


def k_max(xs, min_count=-1):
  xs = [x for x in xs if not isnan(x)]
  if not xs:
    return np.nan
  r = xs[0]
  for x in xs[1:]:
    if bool(x > r):
      r = x
  return r


def k_min(xs, min_count=-1):
  xs = [x for x in xs if not isnan(x)]
  if not xs:
    return np.nan
  r = xs[0]
  for x in xs[1:]:
    if bool(x < r):
      r = x
  return r


def k_median(xs):
  return k_quantile(xs, 0.5)


def sort_cells(xs, reverse=False):
  import functools as ft
  def cmp(a, b):
    if bool(a < b):
      return -1
    if bool(a > b):
      return 1
    return 0
  return sorted(xs, key=ft.cmp_to_key(cmp), reverse=reverse)


def k_quantile(xs, q, interpolation='linear'):
  xs = sort_cells([lift(x) for x in xs if not isnan(x)])
  if not xs:
    return np.nan
  pos = core.rationalize(q) * (len(xs) - 1)
  lo = pos.numerator // pos.denominator
  frac = pos - lo
  hi = min(lo + (1 if frac else 0), len(xs) - 1)
  if interpolation == 'linear':
    if not frac:
      return xs[lo]
    return xs[lo] + (xs[hi] - xs[lo]) * frac
  if interpolation == 'lower':
    return xs[lo]
  if interpolation == 'higher':
    return xs[hi]
  if interpolation == 'midpoint':
    return (xs[lo] + xs[hi]) / 2 if frac else xs[lo]
  if interpolation == 'nearest':
    if frac == core.Frac(1, 2):
      return xs[lo] if lo % 2 == 0 else xs[hi]
    return xs[lo] if frac < core.Frac(1, 2) else xs[hi]
  raise core.Unsupported('interpolation ' + interpolation)


def k_cov(xs, ys, ddof=1):
  p = [(x, y) for x, y in zip(xs, ys) if not isnan(x) and not isnan(y)]
  n = len(p)
  if n <= ddof:
    return np.nan
  mx = k_mean([a for a, _ in p])
  my = k_mean([b for _, b in p])
  return k_sum([(a - mx) * (b - my) for a, b in p]) / (n - ddof)


def k_corr(xs, ys, min_periods=1):
  p = [(x, y) for x, y in zip(xs, ys) if not isnan(x) and not isnan(y)]
  if len(p) < max(min_periods or 1, 1):
    return np.nan
  if len(p) < 2:
    return np.nan
  xs, ys = [a for a, _ in p], [b for _, b in p]
  den = core.sqrt(lift(k_var(xs, 0))) * core.sqrt(lift(k_var(ys, 0)))
  return core.div(lift(k_cov(xs, ys, 0)), den)


def _any(xs):
  for x in xs:
    if not isnan(x) and bool(x):
      return True
  return False


def _first(xs):
  xs = [x for x in xs if not isnan(x)]
  return xs[0] if xs else np.nan


def _last(xs):
  xs = [x for x in xs if not isnan(x)]
  return xs[-1] if xs else np.nan


_AGG = {
    'sum': k_sum, 'prod': k_prod, 'mean': k_mean, 'var': k_var, 'std': k_std,
    'sem': k_sem, 'min': k_min, 'max': k_max, 'median': k_median,
    'first': _first, 'last': _last,
}


def _cum(how, xs, skipna=True):
  out = []
  acc = None
  poisoned = False
  for x in xs:
    if isnan(x):
      out.append(np.nan)
      if not skipna:
        poisoned = True
      continue
    if poisoned:
      out.append(np.nan)
      continue
    if acc is None:
      acc = x
    elif how == 'cumsum':
      acc = acc + x
    elif how == 'cumprod':
      acc = acc * x
    elif how == 'cummax':
      acc = x if bool(x > acc) else acc
    elif how == 'cummin':
      acc = x if bool(x < acc) else acc
    out.append(acc)
  return out


def _rank(xs, method='average', ascending=True, na_option='keep', pct=False):
  idx = [i for i, x in enumerate(xs) if not isnan(x)]
  if na_option != 'keep' and len(idx) < len(xs):
    raise core.Unsupported('rank with nulls')
  out = [np.nan] * len(xs)
  groups = []

  def cmp(i, j):
    if bool(xs[i] == xs[j]):
      return 0
    return -1 if bool(xs[i] < xs[j]) == bool(ascending) else 1

  for i in sorted(idx, key=functools.cmp_to_key(cmp)):
    if groups and method != 'first' and cmp(groups[-1][0], i) == 0:
      groups[-1].append(i)
    else:
      groups.append([i])
  done = 0
  for k, g in enumerate(groups):
    lo, hi = done + 1, done + len(g)
    r = {'average': (lo + hi) / 2., 'min': lo, 'max': hi, 'first': lo,
         'dense': k + 1}[method]
    for i in g:
      out[i] = float(r)
    done = hi
  if pct:
    n = len(groups) if method == 'dense' else len(idx)
    out = [v / n for v in out]
  return out


def _obj(shape):
  a = np.empty(shape, dtype=object)
  a[...] = np.nan
  return a


def _patch_nanops():
  """Series/DataFrame reductions."""

  def make(name, kern, orig):

    @functools.wraps(orig)
    def f(values, *args, axis=None, skipna=True, **kwargs):
      arr = values
      if not has_sym(arr):
        if isinstance(arr, np.ndarray) and arr.dtype == object and all(
            isinstance(v, (int, float, np.number)) and
            not isinstance(v, bool) for v in arr.ravel()):
          values = arr.astype(float)  # What the concrete run has here.
        return orig(values, *args, axis=axis, skipna=skipna, **kwargs)
      kw = {}
      if 'ddof' in kwargs:
        kw['ddof'] = kwargs['ddof']
      if kwargs.get('min_count', 0) and kwargs['min_count'] > 0 and name in (
          'nansum', 'nanprod'):
        kw['min_count'] = kwargs['min_count']
      mask = kwargs.get('mask')

      def one(xs):
        if not skipna and any(isnan(x) for x in xs):
          return np.nan
        return kern([lift(x) for x in xs], **kw)

      if mask is not None:
        arr = arr.copy()
        arr[mask] = np.nan
      if arr.ndim == 1 or axis is None:
        return one(list(arr.ravel()))
      if axis == 0:
        cols = [one(list(arr[:, j])) for j in range(arr.shape[1])]
      else:
        cols = [one(list(arr[i, :])) for i in range(arr.shape[0])]
      out = _obj(len(cols))
      for i, c in enumerate(cols):
        out[i] = c
      return out

    return f

  table = {
      'nansum': k_sum, 'nanmean': k_mean, 'nanvar': k_var, 'nanstd': k_std,
      'nansem': k_sem, 'nanmax': k_max, 'nanmin': k_min, 'nanprod': k_prod,
      'nanmedian': k_median,
  }
  for name, kern in table.items():
    orig = getattr(nanops, name)
    setattr(nanops, name, make(name, kern, orig))
  orig_corr, orig_cov = nanops.nancorr, nanops.nancov

  def nancorr(a, b, *, method='pearson', min_periods=None):
    if has_sym(a) or has_sym(b):
      if method != 'pearson':
        raise core.Unsupported('corr method')
      return k_corr([lift(x) for x in a], [lift(x) for x in b], min_periods)
    return orig_corr(a, b, method=method, min_periods=min_periods)

  def nancov(a, b, *, min_periods=None, ddof=1):
    if has_sym(a) or has_sym(b):
      return k_cov([lift(x) for x in a], [lift(x) for x in b],
                   1 if ddof is None else ddof)
    return orig_cov(a, b, min_periods=min_periods, ddof=ddof)

  nanops.nancorr = nancorr
  nanops.nancov = nancov


def _patch_groupby():
  orig = gops.WrappedCythonOp.cython_operation

  def cython_operation(self, *, values, axis, min_count=-1, comp_ids, ngroups,
                       **kwargs):
    if (isinstance(values, np.ndarray) and values.dtype == object and
        values.size and not has_sym(values) and all(
            isinstance(v, (int, float, np.number)) and
            not isinstance(v, bool) for v in values.ravel())):
      values = values.astype(float)  # What the concrete run has here.
    if not (isinstance(values, np.ndarray) and values.dtype == object and
            has_sym(values)):
      return orig(self, values=values, axis=axis, min_count=min_count,
                  comp_ids=comp_ids, ngroups=ngroups, **kwargs)
    how = self.how
    arr = values
    one_d = arr.ndim == 1
    # Rows of `arr2` are columns of the frame; groups run along axis 1.
    arr2 = arr[None, :] if one_d else arr
    if how in _AGG:
      kw = {}
      if how in ('var', 'std', 'sem'):
        kw['ddof'] = kwargs.get('ddof', 1)
      if how in ('sum', 'prod'):
        kw['min_count'] = max(min_count, 0)
      out = _obj((arr2.shape[0], ngroups))
      for r in range(arr2.shape[0]):
        for g in range(ngroups):
          xs = [lift(arr2[r, i]) for i in np.flatnonzero(comp_ids == g)]
          out[r, g] = _AGG[how](xs, **kw)
      return out[0] if one_d else out
    if how in ('cumsum', 'cumprod', 'cummax', 'cummin'):
      out = _obj(arr2.shape)
      for r in range(arr2.shape[0]):
        for g in range(ngroups):
          idx = np.flatnonzero(comp_ids == g)
          vals = _cum(how, [lift(arr2[r, i]) for i in idx],
                      kwargs.get('skipna', True))
          for i, v in zip(idx, vals):
            out[r, i] = v
      return out[0] if one_d else out
    if how == 'rank':
      kw = dict(method=kwargs.get('ties_method', 'average'),
                ascending=kwargs.get('ascending', True),
                na_option=kwargs.get('na_option', 'keep'),
                pct=kwargs.get('pct', False))
      out = np.full(arr2.shape, np.nan)
      for r in range(arr2.shape[0]):
        for g in range(ngroups):
          idx = np.flatnonzero(comp_ids == g)
          for i, v in zip(idx, _rank([arr2[r, i] for i in idx], **kw)):
            out[r, i] = v
      return out[0] if one_d else out
    raise core.Unsupported('groupby %s of symbolic values' % how)

  gops.WrappedCythonOp.cython_operation = cython_operation

  orig_q = gb.GroupBy.quantile

  def quantile(self, q=0.5, interpolation='linear', numeric_only=False):
    obj = self._selected_obj
    if not has_sym(obj):
      return orig_q(self, q, interpolation, numeric_only)
    scalar = not isinstance(q, (list, tuple, np.ndarray, pd.Series, pd.Index))
    qs = [q] if scalar else list(q)

    def one(s):
      return pd.Series([k_quantile(list(s), x, interpolation) for x in qs],
                       index=qs, dtype=object)

    if isinstance(obj, pd.Series):
      pieces = {k: one(s) for k, s in self}
      res = pd.concat(pieces, names=list(self._grouper.names) + [None])
      res.name = obj.name
      res.index.names = list(self._grouper.names) + [None]
      if scalar:
        res = res.droplevel(-1)
      return res
    raise core.Unsupported('DataFrameGroupBy.quantile')

  gb.GroupBy.quantile = quantile

  orig_idx = gb.GroupBy._idxmax_idxmin

  def idxmax_idxmin(self, how, *a, **k):
    obj = self._selected_obj
    if isinstance(obj, pd.Series) and has_sym(obj):
      return self.apply(lambda s: getattr(s, how)())
    return orig_idx(self, how, *a, **k)

  gb.GroupBy._idxmax_idxmin = idxmax_idxmin


def _patch_frame():
  orig_as = pd_astype.astype_array

  def astype_array(values, dtype, copy=False):
    if isinstance(values, np.ndarray) and values.dtype == object and has_sym(
        values):
      try:
        if np.dtype(dtype).kind == 'f':
          return values.copy() if copy else values
      except TypeError:
        pass
    return orig_as(values, dtype, copy)

  pd_astype.astype_array = astype_array

  # Object cells that became plain numbers divide like floats.
  from pandas.core.ops import array_ops
  orig_na = array_ops._na_arithmetic_op

  def _na_arithmetic_op(left, right, op, is_cmp=False):
    try:
      return orig_na(left, right, op, is_cmp)
    except ZeroDivisionError:
      l, r = np.broadcast_arrays(np.asarray(left, dtype=object),
                                 np.asarray(right, dtype=object))
      out = _obj(l.shape)
      for i in np.ndindex(l.shape):
        a, b = l[i], r[i]
        if core.is_num(a) and core.is_num(b):
          with np.errstate(all='ignore'):
            out[i] = float(op(np.float64(a), np.float64(b)))
        else:
          out[i] = op(a, b)
      return out

  array_ops._na_arithmetic_op = _na_arithmetic_op

  def wrap_series(name, fn):
    orig = getattr(pd.Series, name)

    @functools.wraps(orig)
    def f(self, *a, **k):
      if has_sym(self):
        return fn(self, *a, **k)
      if self.dtype == object and len(self) and all(
          core.is_num(v) for v in self):
        return orig(self.astype(float), *a, **k)  # As in the concrete run.
      return orig(self, *a, **k)

    setattr(pd.Series, name, f)

  def corr(self, other, method='pearson', min_periods=None):
    this, other = self.align(other, join='inner')
    if method != 'pearson':
      raise core.Unsupported('corr method')
    return k_corr([lift(x) for x in this], [lift(x) for x in other],
                  min_periods)

  def cov(self, other, min_periods=None, ddof=1):
    this, other = self.align(other, join='inner')
    return k_cov([lift(x) for x in this], [lift(x) for x in other],
                 1 if ddof is None else ddof)

  def quantile(self, q=0.5, interpolation='linear'):
    if isinstance(q, (list, tuple, np.ndarray, pd.Series, pd.Index)):
      return pd.Series(
          [k_quantile(list(self), x, interpolation) for x in q],
          index=list(q), name=self.name, dtype=object)
    return k_quantile(list(self), q, interpolation)

  def nlargest(self, n=5, keep='first'):
    return _nth_sorted(self, n, True)

  def nsmallest(self, n=5, keep='first'):
    return _nth_sorted(self, n, False)

  def _nth_sorted(s, n, largest):
    idx = [i for i in range(len(s)) if not isnan(s.iloc[i])]
    def cmp(i, j):
      a, b = s.iloc[i], s.iloc[j]
      if bool(a > b):
        return -1 if largest else 1
      if bool(a < b):
        return 1 if largest else -1
      return i - j
    idx = sorted(idx, key=functools.cmp_to_key(cmp))
    return s.iloc[idx[:n]]

  def isin(self, values):
    vals = list(values)
    return pd.Series(
        [any((isnan(v) and isnan(x)) or
             (not isnan(v) and not isnan(x) and (isinstance(v, Sym) or core.is_num(v)) and
              bool(x == v)) for v in vals) for x in self],
        index=self.index, name=self.name, dtype=bool)

  def round_(self, decimals=0, *a, **k):
    raise core.Unsupported('rounding of symbolic values')

  orig_to_numeric = pd.to_numeric

  def to_numeric(arg, *a, **k):
    return arg if has_sym(arg) else orig_to_numeric(arg, *a, **k)

  pd.to_numeric = to_numeric

  wrap_series('corr', corr)
  wrap_series('isin', isin)
  wrap_series('round', round_)
  wrap_series('cov', cov)
  wrap_series('quantile', quantile)
  wrap_series('nlargest', nlargest)
  wrap_series('nsmallest', nsmallest)
  for how in ('cumsum', 'cumprod', 'cummax', 'cummin'):
    def cum(self, axis=None, skipna=True, *a, how=how, **k):
      return pd.Series(
          np.array(_cum(how, [lift(x) for x in self], skipna) + [None],
                   dtype=object)[:-1],
          index=self.index, name=self.name)
    wrap_series(how, cum)

  def wrap_frame(name, fn):
    orig = getattr(pd.DataFrame, name)

    @functools.wraps(orig)
    def f(self, *a, **k):
      if has_sym(self):
        return fn(orig, self, *a, **k)
      return orig(self, *a, **k)

    setattr(pd.DataFrame, name, f)

  def fcorr(orig, self, method='pearson', min_periods=1, numeric_only=False):
    cols = self.columns
    out = [[pd.Series.corr(self.iloc[:, i], self.iloc[:, j], method,
                           min_periods)
            for j in range(len(cols))] for i in range(len(cols))]
    return pd.DataFrame(out, index=cols, columns=cols, dtype=object)

  def fcov(orig, self, min_periods=None, ddof=1, numeric_only=False):
    cols = self.columns
    out = [[k_cov([lift(x) for x in self.iloc[:, i]],
                  [lift(x) for x in self.iloc[:, j]], ddof)
            for j in range(len(cols))] for i in range(len(cols))]
    return pd.DataFrame(out, index=cols, columns=cols, dtype=object)

  def fquantile(orig, self, q=0.5, axis=0, numeric_only=False,
                interpolation='linear', method='single'):
    return pd.DataFrame(
        {c: self[c].quantile(q, interpolation) for c in self.columns})

  def fcum(how):
    def g(orig, self, axis=0, skipna=True, *a, **k):
      out = self.copy()
      vals = _obj(self.shape)
      arr = self.to_numpy()
      if axis in (0, 'index', None):
        for j in range(self.shape[1]):
          for i, v in enumerate(_cum(how, [lift(x) for x in arr[:, j]],
                                     skipna)):
            vals[i, j] = v
      else:
        for i in range(self.shape[0]):
          for j, v in enumerate(_cum(how, [lift(x) for x in arr[i, :]],
                                     skipna)):
            vals[i, j] = v
      return pd.DataFrame(vals, index=self.index, columns=self.columns)
    return g

  wrap_frame('corr', fcorr)
  wrap_frame('cov', fcov)
  wrap_frame('quantile', fquantile)
  for how in ('cumsum', 'cumprod', 'cummax', 'cummin'):
    wrap_frame(how, fcum(how))


def _elementwise(fn, arr):
  a = np.asarray(arr, dtype=object)
  out = _obj(a.shape)
  for i in np.ndindex(a.shape):
    out[i] = fn(a[i])
  return out


def _wrap_ufunc(name, scalar_fn, dtype=object):
  orig = getattr(np, name)

  def f(x, *args, **kwargs):
    if isinstance(x, Sym):
      return scalar_fn(x)
    if not has_sym(x):
      if isinstance(x, pd.DataFrame):
        obj = bool((x.dtypes == object).any())
      else:
        obj = getattr(x, 'dtype', None) == object
      if obj:  # Object holding only plain numbers (e.g. all NaN).
        return orig(x.astype(float), *args, **kwargs)
      return orig(x, *args, **kwargs)
    if isinstance(x, pd.Series):
      return pd.Series(_elementwise(scalar_fn, x.to_numpy()).astype(dtype),
                       index=x.index, name=x.name)
    if isinstance(x, pd.DataFrame):
      return pd.DataFrame(_elementwise(scalar_fn, x.to_numpy()).astype(dtype),
                          index=x.index, columns=x.columns)
    return _elementwise(scalar_fn, x).astype(dtype)

  f.orig = orig
  setattr(np, name, f)


def s_sqrt(v):
  return np.nan if isnan(v) else core.sqrt(lift(v))


def s_log(v):
  if isnan(v):
    return np.nan
  v = lift(v)
  if isinstance(v, Sym):
    return core.uf('log', v)
  return v


def s_exp(v):
  return np.nan if isnan(v) else core.uf('exp', lift(v))


def s_isnan(v):
  return isnan(v)


def s_abs(v):
  return abs(v)


def s_sign(v):
  if isnan(v):
    return np.nan
  if bool(v > 0):
    return 1
  return -1 if bool(v < 0) else 0


def s_square(v):
  return v * v


def s_log1p(v):
  return np.nan if isnan(v) else s_log(lift(v) + 1)


def s_expm1(v):
  return np.nan if isnan(v) else s_exp(v) - 1


def s_isinf(v):
  return not isinstance(v, Sym) and abs(v) == float('inf')


def s_isfinite(v):
  return not isnan(v) and not s_isinf(v)


def _cells(a):
  return [lift(v) for v in np.asarray(a, dtype=object).ravel()]


def _cov_matrix(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None,
                aweights=None):
  """numpy.cov on lists."""
  def rows(a):
    a = np.asarray(a, dtype=object)
    a = a[None, :] if a.ndim == 1 else a
    return a if rowvar or a.shape[0] == 1 else a.T
  m = rows(m)
  if y is not None:
    m = np.concatenate([m, rows(y)])
  n = m.shape[1]
  if ddof is None:
    ddof = 0 if bias else 1
  w = None
  for v in (fweights, aweights):
    if v is not None:
      w = _cells(v) if w is None else [a * b for a, b in zip(w, _cells(v))]
  if w is None:
    total, fact = n, n - ddof
    w = [1] * n
  else:
    total = k_sum(w)
    if ddof == 0:
      fact = total
    elif aweights is None:
      fact = total - ddof
    else:
      fact = total - core.div(
          lift(ddof * k_sum([a * b for a, b in zip(w, _cells(aweights))])),
          total)
  out = _obj((len(m), len(m)))
  if isinstance(fact, int) and fact <= 0:
    fact = 0
  mean = [core.div(lift(k_sum([lift(v) * q for v, q in zip(r, w)])),
                   lift(total)) for r in m]
  for i in range(len(m)):
    for j in range(len(m)):
      s = lift(k_sum([(lift(a) - mean[i]) * (lift(b) - mean[j]) * q
                      for a, b, q in zip(m[i], m[j], w)]))
      out[i, j] = np.nan if isinstance(fact, int) and not fact else core.div(
          s, lift(fact))
  return out


def _patch_numpy():
  _wrap_ufunc('sqrt', s_sqrt)
  _wrap_ufunc('log', s_log)
  _wrap_ufunc('exp', s_exp)
  _wrap_ufunc('isnan', s_isnan)
  _wrap_ufunc('sign', s_sign)
  _wrap_ufunc('square', s_square)
  _wrap_ufunc('log1p', s_log1p)
  _wrap_ufunc('expm1', s_expm1)
  _wrap_ufunc('isinf', s_isinf, bool)
  _wrap_ufunc('isfinite', s_isfinite, bool)

  orig_cov, orig_corrcoef, orig_nan_to_num = (np.cov, np.corrcoef,
                                              np.nan_to_num)
  orig_allclose = np.allclose

  def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None,
          aweights=None, *, dtype=None):
    args = (m, y, fweights, aweights)
    if not any(has_sym(v) for v in args if v is not None):
      return orig_cov(as_float(m), None if y is None else as_float(y), rowvar,
                      bias, ddof, fweights, aweights, dtype=dtype)
    out = _cov_matrix(m, y, rowvar, bias, ddof, fweights, aweights)
    return out[0, 0] if out.shape == (1, 1) else out

  def corrcoef(x, y=None, rowvar=True, *a, **k):
    if not (has_sym(x) or has_sym(y)):
      return orig_corrcoef(as_float(x), None if y is None else as_float(y),
                           rowvar, *a, **k)
    c = _cov_matrix(x, y, rowvar)
    out = _obj(c.shape)
    for i in range(len(c)):
      for j in range(len(c)):
        out[i, j] = 1.0 if i == j else core.div(
            c[i, j], core.sqrt(c[i, i]) * core.sqrt(c[j, j]))
    return out[0, 0] if out.shape == (1, 1) else out

  def nan_to_num(x, *a, **k):
    if not has_sym(x) or a or set(k) - {'nan', 'copy'}:
      return orig_nan_to_num(x, *a, **k)
    fill = k.get('nan', 0.)
    if isinstance(x, Sym):
      return x
    return _elementwise(lambda v: fill if isnan(v) else v, x)

  orig_isclose = np.isclose

  def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
      return orig_isclose(a, b, rtol, atol, equal_nan)
    x, y = np.broadcast_arrays(np.asarray(a, dtype=object),
                               np.asarray(b, dtype=object))
    out = np.zeros(x.shape, dtype=bool)
    for i in np.ndindex(x.shape):
      u, v = lift(x[i]), lift(y[i])
      if isnan(u) or isnan(v):
        out[i] = equal_nan and isnan(u) and isnan(v)
      else:
        out[i] = bool(abs(u - v) <= atol + rtol * abs(v))
    return out if out.ndim else bool(out)

  def allclose(a, b, *args, **k):
    if not (has_sym(a) or has_sym(b)):
      return orig_allclose(a, b, *args, **k)
    return bool(np.all(isclose(a, b, *args, **k)))

  np.isclose = isclose

  np.cov, np.corrcoef, np.nan_to_num = cov, corrcoef, nan_to_num
  np.allclose = allclose

  orig_interp = np.interp

  def interp(x, xp, fp, *a, **k):
    if not (has_sym(x) or has_sym(xp) or has_sym(fp)):
      return orig_interp(x, xp, fp, *a, **k)
    xp, fp = list(xp), list(fp)
    scalar = not isinstance(x, (list, tuple, np.ndarray, pd.Series))

    def one(v):
      v = lift(v)
      if bool(v <= xp[0]):
        return fp[0]
      for i in range(1, len(xp)):
        if bool(v <= xp[i]):
          if bool(v == xp[i]):
            # numpy takes the last of equal abscissae.
            while i + 1 < len(xp) and bool(xp[i + 1] == v):
              i += 1
            return fp[i]
          w = (v - xp[i - 1]) / (xp[i] - xp[i - 1])
          return fp[i - 1] + (fp[i] - fp[i - 1]) * w
      return fp[-1]

    if scalar:
      return one(x)
    out = _obj(len(x))
    for i, v in enumerate(x):
      out[i] = one(v)
    return out

  np.interp = interp

  # linear algebra
  la = np.linalg
  def as_float(a):
    a = np.asarray(a)
    return a.astype(float) if a.dtype == object else a

  orig_solve, orig_inv, orig_cond = la.solve, la.inv, la.cond
  orig_det, orig_pinv, orig_lstsq = la.det, la.pinv, la.lstsq
  orig_eigvalsh = la.eigvalsh
  orig_eigvals, orig_norm = la.eigvals, la.norm

  def to_rows(a):
    a = np.asarray(a, dtype=object)
    return [[lift(v) for v in r] for r in a]

  def det(a):
    if not has_sym(np.asarray(a)):
      return orig_det(a)
    return det_rows(to_rows(a))

  def solve(a, b, *args):
    if not (has_sym(np.asarray(a)) or has_sym(np.asarray(b))):
      return orig_solve(as_float(a), as_float(b), *args)
    m = to_rows(a)
    b = np.asarray(b, dtype=object)
    if b.ndim == 1:
      r = solve_rows(m, [lift(v) for v in b])
      out = _obj(len(r))
      out[:] = r
      return out
    out = _obj(b.shape)
    for j in range(b.shape[1]):
      r = solve_rows(m, [lift(v) for v in b[:, j]])
      for i, v in enumerate(r):
        out[i, j] = v
    return out

  def inv(a):
    if not has_sym(np.asarray(a)):
      return orig_inv(as_float(a))
    n = len(np.asarray(a))
    return solve(a, np.eye(n).astype(object))

  def cond(a, p=None):
    if not has_sym(np.asarray(a)):
      return orig_cond(as_float(a), p)
    # Contract stub: a well conditioned matrix (the ill-conditioned fallback
    # is outside the claim).
    return 10.0

  def pinv(a, *args, **k):
    if not has_sym(np.asarray(a)):
      return orig_pinv(a, *args, **k)
    return inv(a)

  def lstsq(a, b, rcond=None):
    if not (has_sym(np.asarray(a)) or has_sym(np.asarray(b))):
      return orig_lstsq(a, b, rcond)
    a = np.asarray(a, dtype=object)
    b = np.asarray(b, dtype=object)
    return solve(a.T.dot(a), a.T.dot(b)), None, a.shape[1], None

  def norm(x, *a, **k):
    if not has_sym(np.asarray(x)):
      return orig_norm(x, *a, **k)
    return core.sqrt(k_sum([lift(v) * v for v in np.asarray(x).ravel()]))

  def eigvalsh(a, *args):
    return eigvals(a, orig_eigvalsh)

  def eigvals(a, orig_eigvals=orig_eigvals):
    if not has_sym(np.asarray(a)):
      return orig_eigvals(as_float(a))
    m = to_rows(a)
    vals = [[x.const_value() for x in r] for r in m]
    if all(v is not None for r in vals for v in r):
      return orig_eigvals(np.array([[float(v) for v in r] for r in vals]))
    if any(vals[i][j] != 0 for i in range(len(m)) for j in range(len(m))
           if i != j):
      raise core.Unsupported('eigenvalues of a symbolic matrix')
    out = _obj(len(m))
    for i, r in enumerate(m):
      out[i] = r[i]
    return out

  la.eigvals = eigvals
  la.eigvalsh = eigvalsh
  la.solve, la.inv, la.cond, la.det = solve, inv, cond, det
  la.pinv, la.lstsq, la.norm = pinv, lstsq, norm


def det_rows(m):
  n = len(m)
  if n == 0:
    return Sym(core.ONE)
  if n == 1:
    return lift(m[0][0])
  tot = Sym(core.ZERO)
  for j in range(n):
    c = lift(m[0][j])
    if c.const_value() == 0:
      continue
    minor = [row[:j] + row[j + 1:] for row in m[1:]]
    t = c * det_rows(minor)
    tot = tot + t if j % 2 == 0 else tot - t
  return tot


def solve_rows(m, b):
  """Cramer's rule; the determinant is assumed or forked nonzero."""
  d = det_rows(m)
  if d.const_value() == 0 or not core.engine().nonzero(d.n):
    raise np.linalg.LinAlgError('Singular matrix')
  out = []
  for j in range(len(m)):
    mj = [row[:j] + [b[i]] + row[j + 1:] for i, row in enumerate(m)]
    out.append(core.div(det_rows(mj), d))
  return out


class _Numpy(object):
  """numpy whose new matrices can hold cells (for modules that fill them)."""

  def __getattr__(self, name):
    return getattr(np, name)

  @staticmethod
  def _cells(a):
    if core._engine is None or a.dtype != float:
      return a
    return a.astype(object)

  def zeros(self, *a, **k):
    return self._cells(np.zeros(*a, **k))

  def ones(self, *a, **k):
    return self._cells(np.ones(*a, **k))

  def identity(self, *a, **k):
    return self._cells(np.identity(*a, **k))

  def eye(self, *a, **k):
    return self._cells(np.eye(*a, **k))

  def empty(self, *a, **k):
    return self._cells(np.empty(*a, **k))


def install():
  global _installed
  if _installed:
    return
  _installed = True
  import warnings
  warnings.simplefilter('ignore')
  _patch_nanops()
  _patch_groupby()
  _patch_frame()
  _patch_numpy()
  from symx import skstub
  skstub.install()
  mod = sys.modules.get('meterstick.models')
  if mod is not None:
    mod.np = _Numpy()
