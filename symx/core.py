"""Symbolic reals, path exploration and solver queries.

`Sym` is a symbolic real number held as a fraction of two z3 terms.  The real
meterstick code is executed on pandas objects whose cells are `Sym`; every
comparison that the code forces to a Python bool asks the path explorer, which
replays the scenario once per feasible outcome.  Nothing here knows anything
about meterstick.
"""
import fractions
import math
import os
import sys
import time

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
  sys.path.append(_VT)  # At the end: numpy and pandas come from the repo's venv.
import z3  # pylint: disable=g-import-not-at-top

Frac = fractions.Fraction


class Unsupported(Exception):
  """The engine cannot express what the code asked for."""


class PathAbort(Exception):
  """The current path is infeasible or was cut."""


class Budget(Exception):
  """Path or time budget exhausted."""


def rationalize(f):
  """Reads a float as the simple rational it approximates, else exactly."""
  if isinstance(f, bool):
    return Frac(int(f))
  if isinstance(f, int):
    return Frac(f)
  f = float(f)
  exact = Frac(f)
  if f == 0:
    return exact
  for lim in (1000, 100000):
    r = exact.limit_denominator(lim)
    if r != 0 and abs(r - exact) <= abs(exact) * Frac(1, 2**49):
      return r
  return exact


def root_of_float(f):
  """Reads a float such as 1.7320508 as the exact square root it stands for."""
  exact = Frac(f) * Frac(f)
  r = exact.limit_denominator(1000)
  if r == 0 or abs(r - exact) > exact * Frac(1, 2**49):
    return None
  s = sqrt(Sym(_val(r)))
  return s if f > 0 else -s


def _val(fr):
  return z3.RealVal(str(fr))


ONE = _val(Frac(1))
ZERO = _val(Frac(0))

_engine = None


def engine():
  return _engine


def is_num(x):
  import numpy as np
  return isinstance(x, (int, float, np.number, Frac)) or isinstance(x, np.bool_)


class SymBool(object):
  __slots__ = ('e',)

  def __init__(self, e):
    self.e = e

  def __bool__(self):
    return _engine.branch(self.e)

  def __invert__(self):
    return SymBool(z3.Not(self.e))

  def _b(self, o):
    if isinstance(o, SymBool):
      return o.e
    return z3.BoolVal(bool(o))

  def __and__(self, o):
    return SymBool(z3.And(self.e, self._b(o)))

  __rand__ = __and__

  def __or__(self, o):
    return SymBool(z3.Or(self.e, self._b(o)))

  __ror__ = __or__

  def __hash__(self):
    return hash(bool(self))

  def __eq__(self, o):
    return bool(self) == o

  def __repr__(self):
    return 'SymBool(%s)' % self.e


def _is_const(e):
  return z3.is_rational_value(e)


# Terms are kept in a syntactic normal form: a product is a rational
# coefficient times powers of factors, a sum is a linear combination of
# coefficient-free products with leading coefficient 1, both ordered by z3's
# term ids.  Nothing is expanded, except constants over sums.
_FACT = {}
_TERM = {}


def clear_caches():
  _FACT.clear()
  _TERM.clear()


def _parse(t):
  """t as (coefficient, [(factor, exponent)]) in id order."""
  k = t.get_id()
  hit = _FACT.get(k)
  if hit is not None:
    return hit[1]
  if _is_const(t):
    r = (t.as_fraction(), [])
  elif t.decl().kind() == z3.Z3_OP_MUL:
    c, d = Frac(1), {}
    for f in t.children():
      if _is_const(f):
        c *= f.as_fraction()
      else:
        i = f.get_id()
        d[i] = (f, d[i][1] + 1 if i in d else 1)
    r = (c, [d[i] for i in sorted(d)])
  elif t.decl().kind() == z3.Z3_OP_UMINUS:
    c, fs = _parse(t.arg(0))
    r = (-c, fs)
  else:
    r = (Frac(1), [(t, 1)])
  _FACT[k] = (t, r)
  return r


def _build(c, fs):
  """The product of c and the factor powers."""
  if c == 0:
    return ZERO
  args = [] if c == 1 else [_val(c)]
  for f, e in fs:
    args.extend([f] * e)
  if not args:
    return ONE
  t = args[0] if len(args) == 1 else z3.Product(args)
  k = t.get_id()
  if k not in _FACT:
    _FACT[k] = (t, (c, list(fs)))
  return t


def _join(fa, fb):
  """The product of two factor lists."""
  if not fa:
    return fb
  if not fb:
    return fa
  d = {f.get_id(): (f, e) for f, e in fa}
  for f, e in fb:
    i = f.get_id()
    d[i] = (f, d[i][1] + e) if i in d else (f, e)
  return [d[i] for i in sorted(d)]


def _cancel(fa, fb):
  """(fa, fb) without their common factors (which are nonzero)."""
  if not fa or not fb:
    return fa, fb
  db = {f.get_id(): e for f, e in fb}
  if not any(f.get_id() in db for f, _ in fa):
    return fa, fb
  da = {f.get_id(): e for f, e in fa}

  def rest(fs, other):
    out = []
    for f, e in fs:
      e -= min(e, other.get(f.get_id(), 0))
      if e:
        out.append((f, e))
    return out

  return rest(fa, db), rest(fb, da)


def _mk_mul(a, b):
  ca, fa = _parse(a)
  cb, fb = _parse(b)
  return _build(ca * cb, _join(fa, fb))


def _summands(t):
  """t as {id of monomial: (monomial, coefficient)}."""
  k = t.get_id()
  hit = _TERM.get(k)
  if hit is not None:
    return hit[1]
  if t.decl().kind() == z3.Z3_OP_ADD:
    d = {}
    for x in t.children():
      for i, (m, c) in _summands(x).items():
        c0 = d[i][1] if i in d else 0
        if c0 + c:
          d[i] = (m, c0 + c)
        else:
          d.pop(i, None)
    r = d
  else:
    c, fs = _parse(t)
    if c == 0:
      r = {}
    elif len(fs) == 1 and fs[0][1] == 1 and fs[0][0].decl().kind() == (
        z3.Z3_OP_ADD):
      r = {i: (m, c * x) for i, (m, x) in _summands(fs[0][0]).items()}
    else:
      m = _build(Frac(1), fs)
      r = {m.get_id(): (m, c)}
  _TERM[k] = (t, r)
  return r


def _mk_add(a, b):
  ca, cb = _is_const(a), _is_const(b)
  if ca and cb:
    return _val(a.as_fraction() + b.as_fraction())
  if ca and a.as_fraction() == 0:
    return b
  if cb and b.as_fraction() == 0:
    return a
  d = dict(_summands(a))
  for i, (m, c) in _summands(b).items():
    c0 = d[i][1] if i in d else 0
    if c0 + c:
      d[i] = (m, c0 + c)
    else:
      d.pop(i, None)
  if not d:
    return ZERO
  ids = sorted(d)
  if len(ids) == 1:
    m, c = d[ids[0]]
    return _mk_mul(_val(c), m)
  lead = d[ids[0]][1]
  parts = []
  for i in ids:
    m, c = d[i]
    cm, fm = _parse(m)
    parts.append(_build(cm * c / lead, fm))
  t = z3.Sum(parts)
  k = t.get_id()
  if k not in _TERM:
    _TERM[k] = (t, {i: (d[i][0], d[i][1] / lead) for i in ids})
  return _build(lead, [(t, 1)])


def _mk_neg(a):
  if _is_const(a):
    return _val(-a.as_fraction())
  c, fs = _parse(a)
  return _build(-c, fs)


def _quot(c, fn, fd):
  """The Sym c * prod fn / prod fd, reduced."""
  if c == 0:
    return Sym(ZERO)
  fn, fd = _cancel(fn, fd)
  return _roots(c, fn, fd)


def _roots(c, fn, fd):
  """Replaces even powers of square roots by their arguments."""
  roots = _engine.roots if _engine is not None else {}
  if roots and any(e > 1 and f.get_id() in roots for f, e in fn + fd):
    rn, rd = Sym(_val(c)), Sym(ONE)
    rest = [[], []]
    for which, fs in enumerate((fn, fd)):
      for f, e in fs:
        if e > 1 and f.get_id() in roots:
          a = roots[f.get_id()][1]
          for _ in range(e // 2):
            if which == 0:
              rn = rn * a
            else:
              rd = rd * a
          e %= 2
        if e:
          rest[which].append((f, e))
    c1, f1 = _parse(rn.n)
    c2, f2 = _parse(rn.d)
    c3, f3 = _parse(rd.n)
    c4, f4 = _parse(rd.d)
    # rn / rd * rest: the arguments are positive here as the roots are nonzero
    # factors of a denominator, or they are in the numerator.
    return _quot(c1 * c4 / (c2 * c3), _join(_join(rest[0], f1), f4),
                 _join(_join(rest[1], f2), f3))
  return Sym(_build(c, fn), _build(Frac(1), fd))


class Sym(object):
  """A symbolic real n/d; d is known to be nonzero on the current path."""
  __slots__ = ('n', 'd')

  def __init__(self, n, d=ONE):
    self.n = n
    self.d = d

  # --- helpers
  @staticmethod
  def const(v):
    return Sym(_val(rationalize(v)))

  def const_value(self):
    """The exact rational value if this is a constant, else None."""
    if _is_const(self.n) and _is_const(self.d):
      return self.n.as_fraction() / self.d.as_fraction()
    return None

  @staticmethod
  def _coerce(o):
    if isinstance(o, Sym):
      return o
    if isinstance(o, Frac):
      return Sym(_val(o))
    if is_num(o):
      f = float(o)
      if math.isnan(f):
        return 'nan'
      if math.isinf(f):
        return 'inf' if f > 0 else '-inf'
      import numpy as np
      if isinstance(o, (int, np.integer)):
        return Sym(_val(Frac(int(o))))
      r = rationalize(o)
      if r.denominator > 100000 and _engine is not None:
        root = root_of_float(f)
        if root is not None:
          return root
      return Sym(_val(r))
    return None

  def _arr(self, o):
    import numpy as np
    return isinstance(o, np.ndarray) or hasattr(o, '_typ')

  # --- arithmetic
  def __add__(self, o):
    if self._arr(o):
      return NotImplemented
    b = self._coerce(o)
    if b is None:
      return NotImplemented
    if isinstance(b, str):
      return float(b)
    if self.d.eq(b.d):
      n, d = _mk_add(self.n, b.n), self.d
      if d.eq(ONE):
        return Sym(n, d)
    else:
      # Over the least common multiple of the denominators.
      ca, fa = _parse(self.d)
      cb, fb = _parse(b.d)
      ra, rb = _cancel(fa, fb)
      n = _mk_add(_mk_mul(self.n, _build(cb, rb)),
                  _mk_mul(b.n, _build(ca, ra)))
      d = _build(ca * cb, _join(fa, rb))
    c, fn = _parse(n)
    cd, fd = _parse(d)
    return _quot(c / cd, fn, fd)

  __radd__ = __add__

  def __neg__(self):
    return Sym(_mk_neg(self.n), self.d)

  def __pos__(self):
    return self

  def __sub__(self, o):
    if self._arr(o):
      return NotImplemented
    b = self._coerce(o)
    if b is None:
      return NotImplemented
    if isinstance(b, str):
      return -float(b)
    return self + (-b)

  def __rsub__(self, o):
    if self._arr(o):
      return NotImplemented
    b = self._coerce(o)
    if b is None:
      return NotImplemented
    if isinstance(b, str):
      return float(b)
    return b + (-self)

  def _sgn_times_inf(self, s):
    if s == 'nan':
      return float('nan')
    if bool(self == 0):
      return float('nan')
    inf = float(s)
    return inf if bool(self > 0) else -inf

  def __mul__(self, o):
    if self._arr(o):
      return NotImplemented
    b = self._coerce(o)
    if b is None:
      return NotImplemented
    if isinstance(b, str):
      return self._sgn_times_inf(b)
    return _times(self, b)

  __rmul__ = __mul__

  def __truediv__(self, o):
    if self._arr(o):
      return NotImplemented
    b = self._coerce(o)
    if b is None:
      return NotImplemented
    if isinstance(b, str):
      return float('nan') if b == 'nan' else Sym(ZERO)
    return div(self, b)

  def __rtruediv__(self, o):
    if self._arr(o):
      return NotImplemented
    b = self._coerce(o)
    if b is None:
      return NotImplemented
    if isinstance(b, str):
      return self._sgn_times_inf(b)
    return div(b, self)

  def __pow__(self, o):
    if self._arr(o):
      return NotImplemented
    b = self._coerce(o)
    if b is None:
      return NotImplemented
    if isinstance(b, str):
      raise Unsupported('power with nan/inf')
    return power(self, b)

  def __rpow__(self, o):
    if self._arr(o):
      return NotImplemented
    b = self._coerce(o)
    if b is None:
      return NotImplemented
    if isinstance(b, str):
      raise Unsupported('power with nan/inf')
    return power(b, self)

  def __abs__(self):
    if self.const_value() is not None:
      return Sym(_val(abs(self.const_value())))
    return self if bool(self >= 0) else -self

  # numpy calls these on the elements of object arrays.
  def sqrt(self):
    return sqrt(self)

  def log(self):
    return uf('log', self)

  def exp(self):
    return uf('exp', self)

  def conjugate(self):
    return self

  # --- comparisons
  def _cmp(self, o, op):
    if self._arr(o):
      return NotImplemented
    b = self._coerce(o)
    if b is None:
      if op == '==':
        return False
      if op == '!=':
        return True
      return NotImplemented
    if isinstance(b, str):
      if b == 'nan':
        return op == '!='
      inf = float(b)
      return {'<': 0 < inf, '<=': 0 < inf, '>': 0 > inf, '>=': 0 > inf,
              '==': False, '!=': True}[op]
    return cmp_expr(self, b, op)

  def __lt__(self, o):
    return self._cmp(o, '<')

  def __le__(self, o):
    return self._cmp(o, '<=')

  def __gt__(self, o):
    return self._cmp(o, '>')

  def __ge__(self, o):
    return self._cmp(o, '>=')

  def __eq__(self, o):
    return self._cmp(o, '==')

  def __ne__(self, o):
    return self._cmp(o, '!=')

  def __hash__(self):
    return 0  # All comparisons go through __eq__, which forks.

  def __bool__(self):
    return bool(self != 0)

  def __float__(self):
    c = self.const_value()
    if c is not None:
      return float(c)
    raise Unsupported('float() of a symbolic value')

  def __int__(self):
    c = self.const_value()
    if c is not None:
      return int(c)
    raise Unsupported('int() of a symbolic value')

  def is_integer(self):
    c = self.const_value()
    return c is not None and c.denominator == 1

  def __str__(self):
    c = self.const_value()
    if c is not None:
      return str(c)
    return 'Sym(%s / %s)' % (self.n, self.d)

  __repr__ = __str__

  def __format__(self, spec):
    c = self.const_value()
    if c is not None:
      return format(float(c), spec)
    return _engine.format_hook(self, spec)

  def __round__(self, n=None):
    raise Unsupported('round')

  def __copy__(self):
    return self

  def __deepcopy__(self, memo):
    return self

  def __reduce__(self):
    raise Unsupported('pickling a symbolic value')

  def z3(self):
    if _is_const(self.d) and self.d.as_fraction() == 1:
      return self.n
    return self.n / self.d


def is_sym(x):
  return isinstance(x, Sym)


def isnan(x):
  if x is None:
    return True
  if isinstance(x, Sym):
    return False
  try:
    return bool(x != x)
  except Exception:  # pylint: disable=broad-except
    return False


def diff_term(a, b):
  """The polynomial that is zero iff a == b (denominators nonzero)."""
  if a.d.eq(b.d):
    return _mk_add(a.n, _mk_neg(b.n))
  ca, fa = _parse(a.d)
  cb, fb = _parse(b.d)
  ra, rb = _cancel(fa, fb)
  return _mk_add(_mk_mul(a.n, _build(cb, rb)),
                 _mk_neg(_mk_mul(b.n, _build(ca, ra))))


_P = (1 << 61) - 1
_POINT = {}


def _point(name, k):
  v = _POINT.get((name, k))
  if v is None:
    import hashlib
    h = hashlib.sha256(('%s|%d' % (name, k)).encode()).digest()
    v = _POINT[(name, k)] = int.from_bytes(h[:8], 'big') % _P
  return v


def _mod_eval(t, k):
  """t at a pseudo-random point of a prime field; None if no polynomial."""
  memo = {}
  stack = [t]
  while stack:
    e = stack[-1]
    i = e.get_id()
    if i in memo:
      stack.pop()
      continue
    if _is_const(e):
      f = e.as_fraction()
      memo[i] = f.numerator % _P * pow(f.denominator % _P, _P - 2, _P) % _P
      stack.pop()
      continue
    kind = e.decl().kind()
    if kind == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
      memo[i] = _point(e.decl().name(), k)
      stack.pop()
      continue
    if kind not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS,
                    z3.Z3_OP_POWER):
      return None
    kids = e.children()
    todo = [c for c in kids if c.get_id() not in memo]
    if kind == z3.Z3_OP_POWER:
      if not (_is_const(kids[1]) and kids[1].as_fraction().denominator == 1 and
              kids[1].as_fraction() >= 0):
        return None
      todo = [c for c in kids[:1] if c.get_id() not in memo]
    if todo:
      stack.extend(todo)
      continue
    vs = [memo[c.get_id()] for c in kids] if kind != z3.Z3_OP_POWER else None
    if kind == z3.Z3_OP_ADD:
      r = sum(vs)
    elif kind == z3.Z3_OP_MUL:
      r = 1
      for v in vs:
        r = r * v % _P
    elif kind == z3.Z3_OP_SUB:
      r = vs[0] - sum(vs[1:])
    elif kind == z3.Z3_OP_UMINUS:
      r = -vs[0]
    else:
      r = pow(memo[kids[0].get_id()], int(kids[1].as_fraction()), _P)
    memo[i] = r % _P
    stack.pop()
  return memo[t.get_id()]


def is_zero_poly(t):
  """z3 rewrites t to the constant 0.

  The expansion is expensive, so it is only tried to the end for terms that
  vanish at two points of a large prime field (which no other term does, save
  with negligible probability; a wrong guess only costs a solver call).
  """
  s = z3.simplify(t, som=True)
  if _is_const(s):
    return s.as_fraction() == 0
  for k in (0, 1):
    v = _mod_eval(t, k)
    if v is None or v:
      return False
  for blow in (10, 200, 5000):
    s = z3.simplify(t, som=True, som_blowup=blow)
    # One pass may leave x*y - y*x.
    s = z3.simplify(s, som=True, som_blowup=blow)
    if _is_const(s):
      return s.as_fraction() == 0
  return False


def _lookup(table, a):
  """(the entry of the table for a value equal to a or None, a's key)."""
  key = []
  for k in (2, 3):
    n, d = _mod_eval(a.n, k), _mod_eval(a.d, k)
    if n is None or not d:
      key = None
      break
    key.append(n * pow(d, _P - 2, _P) % _P)
  key = tuple(key) if key else ('term', a.n.get_id(), a.d.get_id())
  for b, v in table.get(key, ()):
    if a.n.eq(b.n) and a.d.eq(b.d) or is_zero_poly(diff_term(a, b)):
      return v, key
  return None, key


def intern(a):
  """A variable for the value of a, the same one for equal values.

  Keeps formulas over many large fractions (variances of replicates) small:
  the variable is defined by v * a.d == a.n, and terms that the solver proves
  equal get the same variable.
  """
  a2 = Sym._coerce(a)
  if not isinstance(a2, Sym) or a2.const_value() is not None:
    return a
  a = a2
  if a.d.eq(ONE) and len(_summands(a.n)) <= 3 and all(
      len(_parse(m)[1]) == 1 and _parse(m)[1][0][1] == 1
      for m, _ in _summands(a.n).values()):
    return a
  eng = _engine
  v, key = _lookup(eng.interned, a)
  if v is not None:
    return v
  v = Sym(z3.Real('v!%d' % eng.fresh_id()))
  eng.interned.setdefault(key, []).append((a, v))
  eng.add_atom('def', (a,), v, [v.n * a.d == a.n])
  return v


def _times(a, b):
  ca, fa = _parse(a.n)
  cb, fb = _parse(b.n)
  cda, fda = _parse(a.d)
  cdb, fdb = _parse(b.d)
  return _quot(ca * cb / (cda * cdb), _join(fa, fb), _join(fda, fdb))


def _known_bool(v):
  # Not a bool: whether the sign of a term is known may differ in a replay, in
  # which the comparison has to be counted all the same.
  return SymBool(z3.BoolVal(v))


def cmp_expr(a, b, op):
  ca, cb = a.const_value(), b.const_value()
  if ca is not None and cb is not None:
    return {'<': ca < cb, '<=': ca <= cb, '>': ca > cb, '>=': ca >= cb,
            '==': ca == cb, '!=': ca != cb}[op]
  if a is b:
    return op in ('==', '<=', '>=')
  if a.n.eq(b.n) and a.d.eq(b.d):
    return _known_bool(op in ('==', '<=', '>='))
  t = diff_term(a, b)
  if op == '==':
    return SymBool(t == 0)
  if op == '!=':
    return SymBool(t != 0)
  # The sign of t / (the common denominator), without positive factors.
  ca, fa = _parse(a.d)
  cb, fb = _parse(b.d)
  _, rb = _cancel(fa, fb)
  c, fs = _parse(t)
  if c == 0:
    return _known_bool(op in ('<=', '>='))
  fs = _join(fs, _join(fa, rb))
  fs = [(f, 1 if e % 2 else 2) for f, e in fs]
  sign = 1 if c * ca * cb > 0 else -1
  if len(fs) > 1 or fs and fs[0][1] > 1:
    rest = []
    for f, e in fs:
      k = _engine.known_sign(f)
      if not k:
        rest.append((f, e))
      elif e % 2:
        sign *= k
    fs = rest
  if not fs:
    return _known_bool(op in (('>', '>=') if sign > 0 else ('<', '<=')))
  p = _build(Frac(sign), fs)
  return SymBool({'<': p < 0, '<=': p <= 0, '>': p > 0, '>=': p >= 0}[op])


def div(a, b):
  cb = b.const_value()
  ca = a.const_value()
  if cb is not None:
    if cb == 0:
      if ca is not None:
        return float('nan') if ca == 0 else math.copysign(float('inf'), ca)
      if bool(a == 0):
        return float('nan')
      return float('inf') if bool(a > 0) else float('-inf')
    return Sym(_mk_mul(a.n, _val(1 / cb)), a.d)
  eng = _engine
  if not eng.nonzero(b.n):
    # b is zero on this path.
    if ca is not None:
      return float('nan') if ca == 0 else math.copysign(float('inf'), ca)
    if bool(a == 0):
      return float('nan')
    return float('inf') if bool(a > 0) else float('-inf')
  return _times(a, Sym(b.d, b.n))


def power(a, b):
  cb = b.const_value()
  ca = a.const_value()
  if cb is not None and cb.denominator == 1 and abs(cb) <= 6:
    k = int(cb)
    if k == 0:
      return Sym(ONE)
    r = a
    for _ in range(abs(k) - 1):
      r = r * a
    return r if k > 0 else div(Sym(ONE), r)
  if cb is not None and cb.denominator == 2:
    s = sqrt(a)
    if isnan(s):
      return s
    return power(s, Sym(_val(cb * 2)))
  if ca is not None and cb is not None:
    return Sym.const(float(ca)**float(cb))
  return uf('pow', a, b)


def _square_part(q):
  """(s, r) with q == s*s*r, r a small integer or the remainder."""
  n, d = q.numerator * q.denominator, q.denominator
  s = 1
  for p in (2, 3, 5, 7, 11, 13):
    while n % (p * p) == 0:
      n //= p * p
      s *= p
  r = math.isqrt(n)
  if r * r == n:
    s, n = s * r, 1
  return Frac(s, d), Frac(n)


def sqrt(a):
  c = a.const_value()
  if c is not None:
    if c < 0:
      return float('nan')
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
      return Sym(_val(Frac(n, d)))
  eng = _engine
  if c is not None:
    return _sqrt(a, c)
  v, key = _lookup(eng.sqrts, a)
  if v is None:
    v = _sqrt(a, c)
    eng.sqrts.setdefault(key, []).append((a, v))
  return v


def _sqrt(a, c):
  eng = _engine
  # Squares that are known to be positive come out of the root.
  cn, fn = _parse(a.n)
  cd, fd = _parse(a.d)
  out = Sym(ONE)
  q = cn / cd
  if q:
    sq, rest = _square_part(abs(q))
    kn, kd = [], []
    on, od = [], []
    for fs, keep, got in ((fn, kn, on), (fd, kd, od)):
      for f, e in fs:
        if e > 1 and eng.known_positive(f):
          got.append((f, e // 2))
          e %= 2
        if e:
          keep.append((f, e))
    if sq != 1 or on or od:
      out = Sym(_build(sq, on), _build(Frac(1), od))
      a = Sym(_build(rest if q > 0 else -rest, kn), _build(Frac(1), kd))
      return out * sqrt(a)
  hit = eng.find_atom('sqrt', (a,))
  if hit is not None:
    return hit
  if c is None and eng.sqrt_domain == 'fork':
    if bool(a < 0):
      return float('nan')
  elif c is None:
    eng.assume_nonneg(a)
  s = z3.Real('sqrt!%d' % eng.fresh_id())
  v = Sym(s)
  eng.roots[s.get_id()] = (s, a)
  eng.add_atom('sqrt', (a,), v, [s >= 0, s * s * a.d == a.n])
  return v


def uf(name, *args):
  """An uninterpreted real function (log, exp, pow, ...), congruent in args."""
  eng = _engine
  hit = eng.find_atom(name, args)
  if hit is not None:
    return hit
  if name == 'exp':
    hit = eng.find_atom(name, (-args[0],))
    if hit is not None:
      return div(Sym(ONE), hit)
  if name == 'log':
    c = args[0].const_value()
    if c is not None and c == 1:
      return Sym(ZERO)
    if c is not None and c <= 0:
      return float('-inf') if c == 0 else float('nan')
    if c is None:
      if eng.log_domain == 'fork':
        if bool(args[0] == 0):
          return float('-inf')
        eng.assume(args[0] > 0)
      else:
        eng.assume(args[0] > 0)
  elif name == 'exp':
    c = args[0].const_value()
    if c is not None and c == 0:
      return Sym(ONE)
  v = z3.Real('%s!%d' % (name, eng.fresh_id()))
  # Congruence is by find_atom; the symbol is otherwise unconstrained.
  side = []
  if name == 'exp':
    side.append(v > 0)
  out = Sym(v)
  eng.add_atom(name, args, out, side)
  return out


class Stats(object):

  def __init__(self):
    self.queries = 0
    self.solver_s = 0.0
    self.unsat = 0
    self.sat = 0
    self.unknown = 0
    self.paths = 0
    self.branches = 0
    self.assumed = 0

  def as_dict(self):
    return dict(self.__dict__)

  def merge(self, d):
    for k, v in d.items():
      setattr(self, k, getattr(self, k) + v)


class Path(object):

  def __init__(self, decisions, result, error):
    self.decisions = decisions
    self.result = result
    self.error = error


class Engine(object):
  """Explores all feasible paths of a scenario by decision replay.

  `facts` is the path condition (branch outcomes, assumptions and the defining
  constraints of sqrt atoms).  To decide quickly whether the other side of a
  branch exists, a concrete witness of the current path is kept, and linear
  conditions are checked against the linear facts only; both over-approximate
  feasibility, so no path is ever lost.  Assertions are always decided against
  all facts.
  """

  def __init__(self,
               timeout_ms=8000,
               branch_timeout_ms=1500,
               zero_div='assume',
               sqrt_domain='assume',
               log_domain='assume',
               max_paths=4000,
               deadline=None,
               intern=False):
    self.intern = intern  # Abstract the arguments of variances.
    self.stats = Stats()
    self.timeout_ms = timeout_ms
    self.branch_timeout_ms = branch_timeout_ms
    self.zero_div = zero_div
    self.sqrt_domain = sqrt_domain
    self.log_domain = log_domain
    self.max_paths = max_paths
    self.deadline = deadline
    self._reset_path([])

  # --- per path state
  def _reset_path(self, prefix):
    self.prefix = prefix
    clear_caches()
    self.roots = {}
    self.trace = []  # [(number of the call, decision)]
    self.calls = 0
    self.alternatives = []
    self.facts = []
    self.interned = {}
    self.sqrts = {}
    self.formats = []
    self.fits = []
    self.light = z3.Solver()
    self.light.set('timeout', self.timeout_ms)
    self.decided = {}
    self.atoms = []
    self._nfresh = 0
    self.choices = {}
    self.assumptions = []
    self.aborted = None
    self.var_order = []
    self._pos_cache = {}
    self._lin_cache = {}
    self.wit = {}  # variable name -> Fraction, a witness of facts (or None).
    self.wit_ok = True

  def fresh_id(self):
    self._nfresh += 1
    return self._nfresh

  def real(self, name):
    v = z3.Real(name)
    if name not in self.var_order:
      self.var_order.append(name)
      if self.wit is not None:
        k = len(self.var_order)
        self.wit[name] = Frac((k * 37 + 11) % 101, 7) + Frac(k, 3)
    return Sym(v)

  # --- witness
  def _wit_eval(self, e):
    """Evaluates e under the witness; a z3 constant or None."""
    if self.wit is None:
      return None
    sub = [(z3.Real(k), _val(v)) for k, v in self.wit.items()]
    return z3.simplify(z3.substitute(e, *sub))

  def _wit_bool(self, e):
    if not self.wit_ok or self.wit is None:
      self._refresh_witness()
    if self.wit is None:
      return None
    r = self._wit_eval(e)
    if z3.is_true(r):
      return True
    if z3.is_false(r):
      return False
    return None

  def _refresh_witness(self):
    """Tries to find a witness of all facts (approximate for sqrt atoms)."""
    self.wit_ok = True
    r, m = self._solve([], self.branch_timeout_ms)
    if r == z3.sat:
      w = {}
      for name in self.var_order:
        w[name] = _model_frac(m, z3.Real(name))
      self.wit = w
      for nm, args, v in self.atoms:
        w[str(v.n)] = _model_frac(m, v.n)
    elif r == z3.unsat:
      self.wit = None
      self.aborted = self.aborted or PathAbort('infeasible path')
    else:
      self.wit = None
    return self.wit is not None

  def _solve(self, extra, timeout_ms):
    if self.deadline and time.time() > self.deadline:
      self.aborted = Budget('time budget')
      raise self.aborted
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(*self.facts)
    s.add(*extra)
    t = time.time()
    r = s.check()
    self._count(r, t)
    return r, (s.model() if r == z3.sat else None)

  def _count(self, r, t):
    self.stats.queries += 1
    self.stats.solver_s += time.time() - t
    if r == z3.unsat:
      self.stats.unsat += 1
    elif r == z3.sat:
      self.stats.sat += 1
    else:
      self.stats.unknown += 1

  def is_linear(self, e):
    k = e.get_id()
    hit = self._lin_cache.get(k)
    if hit is not None and hit[0].eq(e):
      return hit[1]
    d = e.decl().kind() if z3.is_app(e) else None
    if d == z3.Z3_OP_MUL:
      non = [c for c in e.children() if not _is_const(c)]
      r = len(non) <= 1 and all(self.is_linear(c) for c in non)
    elif d in (z3.Z3_OP_DIV, z3.Z3_OP_POWER):
      r = False
    elif e.num_args() == 0:
      r = '!' not in str(e) if z3.is_const(e) else True
    else:
      r = all(self.is_linear(c) for c in e.children())
    self._lin_cache[k] = (e, r)
    return r

  def add_fact(self, e):
    self.facts.append(e)
    if self.is_linear(e):
      self.light.add(e)

  def feasible(self, e):
    """False only if the solver proves e impossible on this path."""
    if self.is_linear(e):
      if self.deadline and time.time() > self.deadline:
        self.aborted = Budget('time budget')
        raise self.aborted
      t = time.time()
      r = self.light.check(e)
      self._count(r, t)
      return r != z3.unsat
    r, _ = self._solve([e], self.branch_timeout_ms)
    return r != z3.unsat

  def assume(self, c):
    """Restricts the claim to inputs satisfying c."""
    if isinstance(c, bool):
      if not c:
        self.aborted = PathAbort('assumption false')
        raise self.aborted
      return
    e = c.e if isinstance(c, SymBool) else c
    e = z3.simplify(e)
    if z3.is_true(e):
      return
    w = None
    if not z3.is_false(e):
      w = self._wit_bool(e)
    if z3.is_false(e) or (not w and not self.feasible(e)):
      self.aborted = PathAbort('assumption infeasible')
      raise self.aborted
    self.stats.assumed += 1
    self.assumptions.append(e)
    self.add_fact(e)
    if not w:
      self.wit_ok = False

  def assume_nonneg(self, a):
    """Assumes a >= 0 (the domain of a square root).

    s*s == a already implies it, so nothing is added; the path must have a
    model for it to count (checked when its witness is extracted).
    """
    w = self._wit_bool((a >= 0).e) if not isinstance(a >= 0, bool) else True
    if w is False:
      self.wit_ok = False

  def known_positive(self, den):
    if _is_const(den):
      return den.as_fraction() > 0
    k = den.get_id()
    if k in self._pos_cache and self._pos_cache[k][0].eq(den):
      return self._pos_cache[k][1]
    c, fs = _parse(den)
    if len(fs) > 1 or c != 1 or fs[0][1] > 1:
      if c > 0 and all(self.known_positive(f) for f, e in fs if e % 2) and all(
          self.known_nonzero(f) for f, e in fs if not e % 2):
        self._pos_cache[k] = (den, True)
        return True
    elif den.get_id() in self.roots and self.known_positive(
        self.roots[den.get_id()][1].n) and self.known_positive(
            self.roots[den.get_id()][1].d):
      self._pos_cache[k] = (den, True)
      return True
    w = self._wit_bool(den > 0)
    r = w is not False and not self.feasible(z3.simplify(den <= 0))
    self._pos_cache[k] = (den, r)
    return r

  def known_sign(self, f):
    """1 or -1 if f has that sign on this path, 0 if that is not known."""
    w = self._wit_bool(f < 0)
    if not w and self.known_positive(f):
      return 1
    if w is not False and self.known_positive(_mk_neg(f)):
      return -1
    return 0

  def known_nonzero(self, f):
    return any(x.eq(f != 0) for x in self.facts) or self.known_positive(f)

  def nonzero(self, n):
    """Whether the term n is nonzero on this path (assumes or forks)."""
    c, fs = _parse(n)
    if c == 0:
      return False
    if self.zero_div != 'fork' and (len(fs) > 1 or c != 1):
      return all(self.nonzero(f) for f, _ in fs)
    if len(fs) and (c != 1 or any(e > 1 for _, e in fs)):
      n = _build(Frac(1), [(f, 1) for f, _ in fs])
    e = z3.simplify(n != 0, som=True)
    if z3.is_true(e):
      return True
    if z3.is_false(e):
      return False
    if self.zero_div == 'fork':
      return self.branch(n != 0)
    k = ('nz', n.get_id())
    if k in self.decided and self.decided[k][0].eq(n):
      return self.decided[k][1]
    w = self._wit_bool(e)
    if w:
      r = True
    else:
      r = self.feasible(e)
      if r:
        self.wit_ok = False
    if r:
      self.stats.assumed += 1
      self.assumptions.append(e)
      self.add_fact(e)
    self.decided[k] = (n, r)
    return r

  def _replayed(self, kind=bool):
    """The decision recorded for this call in the prefix, or None.

    Decisions are identified by the number of the call to branch() or choose()
    that took them, so that a replay follows the prefix even if it resolves
    conditions syntactically that the first run had to decide, or vice versa.
    """
    i = len(self.trace)
    if i >= len(self.prefix):
      return None
    call, val = self.prefix[i]
    if call < self.calls or call == self.calls and type(val) is not kind:
      raise Unsupported('a replay took another path')
    return val if call == self.calls else None

  def _known(self, val):
    """A condition that needs no decision."""
    rep = self._replayed()
    if rep is not None:
      if rep is not val:
        self.aborted = PathAbort('infeasible path')
        raise self.aborted
      self.trace.append((self.calls, val))
    return val

  def branch(self, e):
    self.calls += 1
    e = z3.simplify(e)
    if z3.is_true(e):
      return self._known(True)
    if z3.is_false(e):
      return self._known(False)
    k = e.get_id()
    if k in self.decided and self.decided[k][0].eq(e):
      return self._known(self.decided[k][1])
    ne = z3.simplify(z3.Not(e))
    i = len(self.trace)
    rep = self._replayed()
    if rep is None and i < len(self.prefix):
      # Implied by the decisions so far: the first run saw it from the terms.
      t, f = self.feasible(e), self.feasible(ne)
      if t == f:
        raise Unsupported('a replay took another path')
      self.decided[k] = (e, t)
      self.decided[ne.get_id()] = (ne, not t)
      return t
    if rep is not None:
      val = rep
      if i == len(self.prefix) - 1:
        self.wit_ok = False  # The flipped decision: needs a new witness.
      elif self.wit_ok and self._wit_eval_quick(e, val) is False:
        self.wit_ok = False
    else:
      w = self._wit_bool(e)
      if w is None:
        t = self.feasible(e)
        f = self.feasible(ne) if t else True
        val = t
        other = t and f
        if other:
          self.wit_ok = False
      else:
        val = w
        other = self.feasible(ne if w else e)
      if other:
        self.stats.branches += 1
        self.alternatives.append(self.trace + [(self.calls, not val)])
    self.trace.append((self.calls, val))
    self.add_fact(e if val else ne)
    self.decided[k] = (e, val)
    self.decided[ne.get_id()] = (ne, not val)
    return val

  def _wit_eval_quick(self, e, val):
    r = self._wit_eval(e)
    if r is None:
      return None
    if z3.is_true(r):
      return val
    if z3.is_false(r):
      return not val
    return None

  def choose(self, name, n):
    """A nondeterministic concrete choice in range(n); explores all of them."""
    if n <= 0:
      raise PathAbort('empty choice')
    if name in self.choices:
      raise ValueError('choice %s made twice' % name)
    self.calls += 1
    val = self._replayed(int)
    if val is None:
      if len(self.trace) < len(self.prefix):
        raise Unsupported('a replay took another path')
      val = 0
      for j in range(1, n):
        self.alternatives.append(self.trace + [(self.calls, j)])
    self.trace.append((self.calls, val))
    self.choices[name] = val
    return val

  def find_atom(self, name, args):
    for nm, a, v in self.atoms:
      if nm == name and len(a) == len(args) and all(
          self._same(x, y) for x, y in zip(a, args)):
        return v
    return None

  def _same(self, x, y):
    if x.n.eq(y.n) and x.d.eq(y.d):
      return True
    if self.wit is not None:
      # Quick refutation.
      t = self._wit_eval(diff_term(x, y))
      if t is not None and _is_const(t) and abs(t.as_fraction()) > Frac(
          1, 10**6):
        return False
    return is_zero_poly(diff_term(x, y))

  def add_atom(self, name, args, v, side):
    self.atoms.append((name, args, v))
    for s in side:
      self.add_fact(s)
    if self.wit is not None:
      vals = []
      for a in args:
        n, d = self._wit_eval(a.n), self._wit_eval(a.d)
        if not (_is_const(n) and _is_const(d)) or d.as_fraction() == 0:
          vals = None
          break
        vals.append(float(n.as_fraction() / d.as_fraction()))
      w = None
      if vals is not None:
        try:
          if name == 'sqrt':
            w = math.sqrt(vals[0]) if vals[0] >= 0 else None
          elif name == 'log':
            w = math.log(vals[0]) if vals[0] > 0 else None
          elif name == 'exp':
            w = math.exp(vals[0])
          elif name == 'def':
            w = vals[0]
          elif name == 'pow':
            w = vals[0]**vals[1]
        except (ValueError, OverflowError, ZeroDivisionError):
          w = None
      if w is None or isinstance(w, complex):
        self.wit_ok = False
      else:
        self.wit[str(v.n)] = Frac(w)

  def format_hook(self, sym, spec):
    """A token standing for the text; check code looks it up in formats."""
    self.formats.append((sym, spec))
    return '\u27e6%d\u27e7' % (len(self.formats) - 1)

  # --- exploring
  def explore(self, fn):
    """Runs fn once per feasible path; yields (path number, result, error)."""
    global _engine
    work = [[]]
    n = 0
    while work:
      if n >= self.max_paths:
        raise Budget('more than %d paths' % self.max_paths)
      if self.deadline and time.time() > self.deadline:
        raise Budget('time budget')
      prefix = work.pop()
      self._reset_path(prefix)
      old, _engine = _engine, self
      try:
        res, err = None, None
        try:
          res = fn(self)
        except Budget:
          raise
        except PathAbort as e:
          err = e
        except Exception as e:  # pylint: disable=broad-except
          err = self.aborted or e
          if isinstance(err, Budget):
            raise err
        n += 1
        self.stats.paths += 1
        work.extend(self.alternatives)
        self.alternatives = []
        yield n, res, err
      finally:
        _engine = old

  # --- deciding
  def decide_zero(self, t, timeout_ms=None):
    """Decides whether polynomial t is zero for every input on this path.

    Returns ('unsat', None), ('sat', model) or ('unknown', None).
    """
    t0 = time.time()
    s = z3.simplify(t, som=True)
    if _is_const(s) and s.as_fraction() == 0 or (
        not _is_const(s) and is_zero_poly(t)):
      # z3 normalised the difference to the constant 0: t != 0 is unsat.
      self._count(z3.unsat, t0)
      return 'unsat', None
    return self.decide(s != 0, timeout_ms)

  def decide(self, e, timeout_ms=None):
    r, m = self._solve([e], timeout_ms or self.timeout_ms)
    if r == z3.unsat:
      return 'unsat', None
    if r == z3.sat:
      return 'sat', m
    # Second opinion from the nonlinear tactic.
    t = time.time()
    tac = z3.Then('simplify', 'purify-arith', 'solve-eqs', 'qfnra-nlsat')
    s2 = z3.TryFor(tac, timeout_ms or self.timeout_ms * 2).solver()
    s2.add(*self.facts)
    s2.add(e)
    try:
      r = s2.check()
    except z3.Z3Exception:
      r = z3.unknown
    self._count(r, t)
    if r == z3.unsat:
      return 'unsat', None
    if r == z3.sat:
      return 'sat', s2.model()
    return 'unknown', None

  def witness_floats(self):
    """The current witness as floats, if it is one."""
    if self.wit is None:
      return None
    return {k: float(v) for k, v in self.wit.items() if k in self.var_order}

  def models(self, extra=None, nice=True, timeout_ms=3000):
    """Models of the path (and extra), the ones easy to replay first."""
    base = list(self.facts) + ([extra] if extra is not None else [])
    vs = [z3.Real(v) for v in self.var_order]
    variants = []
    if nice:
      distinct = [z3.Distinct(*vs)] if len(vs) > 1 else []
      top = max(9, 3 * len(vs))
      rng = [z3.And(v >= -top, v <= top) for v in vs]
      ints = [v == z3.ToReal(z3.Int('int!' + str(v))) for v in vs]
      # Distinct primes: immediate when the path does not constrain much.
      variants.append([v == _PRIMES[(7 * i + 3) % len(_PRIMES)]
                       for i, v in enumerate(vs)])
      variants.append(rng + ints + distinct + [v != 0 for v in vs])
      variants.append(rng + ints)
      variants.append(rng + distinct)
      variants.append(rng)
    variants.append([])
    for extra_c in variants:
      s = z3.Solver()
      s.set('timeout', timeout_ms)
      s.add(*base)
      s.add(*extra_c)
      t = time.time()
      r = s.check()
      self._count(r, t)
      if r == z3.sat:
        yield self.read_model(s.model())

  def read_model(self, m):
    out = {}
    for name in self.var_order:
      v = m.eval(z3.Real(name), model_completion=True)
      out[name] = z3_to_float(v)
    return out


_PRIMES = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61,
           67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109)


def _model_frac(m, v):
  x = m.eval(v, model_completion=True)
  if z3.is_rational_value(x):
    return x.as_fraction()
  if z3.is_algebraic_value(x):
    return x.approx(20).as_fraction()
  return Frac(x.as_decimal(17).rstrip('?'))


def z3_to_float(v):
  if z3.is_rational_value(v):
    return float(v.as_fraction())
  if z3.is_algebraic_value(v):
    return float(v.approx(20).as_fraction())
  return float(v.as_decimal(17).rstrip('?'))
