"""sklearn's linear models on symbolic data.

LinearRegression.fit and Ridge.fit return the minimiser of their documented
objective by its normal equations; Lasso.fit and ElasticNet.fit only record
what they were asked for and return free coefficients.
"""
import numpy as np

from symx import core, pdshim
from symx.core import Sym

_installed = False


def rows_of(x):
  a = np.asarray(x, dtype=object)
  if a.ndim == 1:
    a = a.reshape(-1, 1)
  return [[Sym._coerce(v) for v in r] for r in a]


def mean(xs):
  return core.div(pdshim.k_sum(xs), Sym.const(len(xs)))


def least_squares(x, y, alpha, fit_intercept):
  """(coefficients, intercept) minimising |y-Xw-b|^2 + alpha |w|^2."""
  n, k = len(x), len(x[0])
  mx, my = [Sym.const(0)] * k, Sym.const(0)
  if fit_intercept:
    mx = [mean([r[j] for r in x]) for j in range(k)]
    my = mean(y)
  xc = [[r[j] - mx[j] for j in range(k)] for r in x]
  yc = [v - my for v in y]
  gram = [[pdshim.k_sum([xc[i][a] * xc[i][b] for i in range(n)])
           for b in range(k)] for a in range(k)]
  for a in range(k):
    gram[a][a] = gram[a][a] + alpha
  rhs = [pdshim.k_sum([xc[i][a] * yc[i] for i in range(n)]) for a in range(k)]
  w = pdshim.solve_rows(gram, rhs)
  b = my
  for j in range(k):
    b = b - mx[j] * w[j]
  return w, b


def as_array(xs):
  out = np.empty(len(xs), dtype=object)
  for i, x in enumerate(xs):
    out[i] = x
  return out


def install():
  global _installed
  if _installed:
    return
  _installed = True
  from sklearn import linear_model as lm

  def wrap(cls, alpha_of):
    orig = cls.fit

    def fit(self, X, y, sample_weight=None, **kw):
      if not (pdshim.has_sym(np.asarray(X)) or pdshim.has_sym(np.asarray(y))):
        return orig(self, X, y, sample_weight, **kw) if sample_weight is not (
            None) else orig(self, X, y, **kw)
      if sample_weight is not None:
        raise core.Unsupported('sample_weight')
      x = rows_of(X)
      yy = [Sym._coerce(v) for v in np.asarray(y, dtype=object).ravel()]
      if any(isinstance(v, str) or v is None for r in x + [yy] for v in r):
        raise ValueError('Input contains NaN.')
      w, b = least_squares(x, yy, alpha_of(self), self.fit_intercept)
      self.coef_ = as_array(w)
      self.intercept_ = b if self.fit_intercept else 0.0
      return self

    cls.fit = fit

  wrap(lm.LinearRegression, lambda s: Sym.const(0))
  wrap(lm.Ridge, lambda s: Sym._coerce(s.alpha))

  def record(cls):
    orig = cls.fit

    def fit(self, X, y, *a, **kw):
      if not (pdshim.has_sym(np.asarray(X)) or pdshim.has_sym(np.asarray(y))):
        return orig(self, X, y, *a, **kw)
      eng = core.engine()
      k = np.asarray(X, dtype=object).shape[1]
      i = len(eng.fits)
      self.coef_ = as_array([eng.real('w%d_%d' % (i, j)) for j in range(k)])
      self.intercept_ = eng.real('b%d' % i) if self.fit_intercept else 0.0
      eng.fits.append((self, rows_of(X), [
          Sym._coerce(v) for v in np.asarray(y, dtype=object).ravel()]))
      return self

    cls.fit = fit

  record(lm.ElasticNet)
