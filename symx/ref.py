"""Textbook definitions over plain lists of cells (symbolic or float).

These are the oracles.  They never call meterstick or pandas.
"""
from symx.core import isnan

NAN = float('nan')


def pres(xs):
  return [x for x in xs if not isnan(x)]


def total(env, xs):
  r = 0
  for x in pres(xs):
    r = x + r
  return r


def count(env, xs):
  return len(pres(xs))


def mean(env, xs):
  xs = pres(xs)
  return env.div(total(env, xs), len(xs)) if xs else NAN


def wmean(env, xs, ws):
  p = [(x, w) for x, w in zip(xs, ws) if not isnan(x) and not isnan(w)]
  if not p:
    return NAN
  return env.div(total(env, [x * w for x, w in p]),
                 total(env, [w for _, w in p]))


def var(env, xs, ddof=1):
  xs = pres(xs)
  if len(xs) <= ddof:
    return NAN
  m = mean(env, xs)
  return env.div(total(env, [(x - m) * (x - m) for x in xs]), len(xs) - ddof)


def std(env, xs, ddof=1):
  return env.sqrt(var(env, xs, ddof))


def wvar(env, xs, ws, ddof=1):
  """Frequency-weighted variance: sum w (x-m)^2 / (sum w - ddof)."""
  m = wmean(env, xs, ws)
  num = total(env, [w * (x - m) * (x - m) for x, w in zip(xs, ws)])
  return env.div(num, total(env, ws) - ddof)


def cov(env, xs, ys, ddof=1):
  if len(xs) <= ddof:
    return NAN
  mx, my = mean(env, xs), mean(env, ys)
  return env.div(
      total(env, [(x - mx) * (y - my) for x, y in zip(xs, ys)]),
      len(xs) - ddof)


def npcov(env, xs, ys, aw=None, fw=None, ddof=1):
  """np.cov's definition with aweights/fweights."""
  n = len(xs)
  w = [1] * n
  if fw is not None:
    w = list(fw)
  if aw is not None:
    w = [a * b for a, b in zip(w, aw)]
  wsum = total(env, w)
  mx = env.div(total(env, [a * x for a, x in zip(w, xs)]), wsum)
  my = env.div(total(env, [a * y for a, y in zip(w, ys)]), wsum)
  num = total(env, [a * (x - mx) * (y - my) for a, x, y in zip(w, xs, ys)])
  if ddof == 0:
    fact = wsum
  elif aw is None:
    fact = wsum - ddof
  else:
    fact = wsum - env.div(ddof * total(env, [a * b for a, b in zip(w, aw)]),
                          wsum)
  return env.div(num, fact)


def corr(env, xs, ys):
  if len(xs) < 2:
    return NAN
  c = cov(env, xs, ys, 0)
  return env.div(c, env.sqrt(var(env, xs, 0)) * env.sqrt(var(env, ys, 0)))


def vmax(env, xs):
  xs = pres(xs)
  if not xs:
    return NAN
  r = xs[0]
  for x in xs[1:]:
    if x > r:
      r = x
  return r


def vmin(env, xs):
  xs = pres(xs)
  if not xs:
    return NAN
  r = xs[0]
  for x in xs[1:]:
    if x < r:
      r = x
  return r


def argsort(xs, reverse=False):
  """Stable insertion sort of positions by symbolic keys."""
  out = []
  for i in range(len(xs)):
    j = len(out)
    while j > 0 and (xs[i] > xs[out[j - 1]] if reverse else
                     xs[i] < xs[out[j - 1]]):
      j -= 1
    out.insert(j, i)
  return out


def quantile(env, xs, q, interpolation='linear'):
  from fractions import Fraction
  xs = pres(xs)
  if not xs:
    return NAN
  s = [xs[i] for i in argsort(xs)]
  pos = Fraction(q).limit_denominator(10**6) * (len(s) - 1)
  lo = pos.numerator // pos.denominator
  f = pos - lo
  hi = lo + 1 if f else lo
  if interpolation == 'lower':
    return s[lo]
  if interpolation == 'higher':
    return s[hi]
  if interpolation == 'midpoint':
    return env.div(s[lo] + s[hi], 2)
  if not f:
    return s[lo]
  if not env.symbolic:
    f = float(f)
  return s[lo] + (s[hi] - s[lo]) * f


def wquantile(env, xs, ws, q):
  """Weighted percentile: interpolate x at (S_k - w_k/2)/S."""
  p = [(x, w) for x, w in zip(xs, ws) if not isnan(x) and not isnan(w)]
  if not p:
    return NAN
  xs, ws = [x for x, _ in p], [w for _, w in p]
  # Merge equal values.
  order = argsort(xs)
  vals, wts = [], []
  for i in order:
    if vals and xs[i] == vals[-1]:
      wts[-1] = wts[-1] + ws[i]
    else:
      vals.append(xs[i])
      wts.append(ws[i])
  tot = total(env, wts)
  pos, acc = [], 0
  for w in wts:
    acc = w + acc
    pos.append(env.div(acc - env.div(w, 2), tot))
  if pos[0] >= q:
    return vals[0]
  for k in range(1, len(vals)):
    if pos[k] >= q:
      f = env.div(q - pos[k - 1], pos[k] - pos[k - 1])
      return vals[k - 1] + (vals[k] - vals[k - 1]) * f
  return vals[-1]


def slices(keys):
  """Ordered mapping from key to positions."""
  out = {}
  for i, k in enumerate(keys):
    out.setdefault(k, []).append(i)
  return {k: out[k] for k in sorted(out)}


def take(xs, idx):
  return [xs[i] for i in idx]


def nth(env, xs, keys, n, ascending=True, dropna=False):
  """The n-th x in key order; negative n counts from the end."""
  if n < 0:
    n, ascending = -n - 1, not ascending
  p = [(x, k) for x, k in zip(xs, keys) if not (dropna and isnan(x))]
  order = argsort([k for _, k in p], reverse=not ascending)
  return p[order[n]][0] if n < len(p) else NAN


def ndistinct(env, xs):
  seen = []
  for x in pres(xs):
    if not any(x == s for s in seen):
      seen.append(x)
  return len(seen)
