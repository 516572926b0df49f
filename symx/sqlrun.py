"""A small evaluator of the BigQuery dialect over symbolic or plain tables.

Values are None (NULL), bool, str, Python/symbolic numbers, or lists (arrays).
Comparisons of symbolic numbers fork the current path through `bool()`.
Everything that BigQuery would reject (unknown or ambiguous columns, duplicate
output columns, ungrouped columns, malformed text) raises SqlError.
"""
import math
import re

from symx import core
from symx.core import Sym, isnan


class SqlError(Exception):
  """The query is not valid BigQuery SQL (or outside the dialect)."""


# ------------------------------------------------------------------- lexer

_TOK = re.compile(
    r'''(?P<ws>\s+|--[^\n]*)
  |(?P<num>0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)
  |(?P<id>[A-Za-z_][A-Za-z_0-9]*)
  |(?P<bt>`[^`]*`)
  |(?P<str>"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*')
  |(?P<sym>\u27e6\d+\u27e7)
  |(?P<op><=|>=|!=|<>|\|\||[-+*/%(),.\[\]=<>:;])
''', re.X)

_RESERVED = set('''ALL AND ANY ARRAY AS ASC AT BETWEEN BY CASE CAST COLLATE
CONTAINS CREATE CROSS CUBE CURRENT DEFAULT DEFINE DESC DISTINCT ELSE END ENUM
ESCAPE EXCEPT EXCLUDE EXISTS EXTRACT FALSE FETCH FOLLOWING FOR FROM FULL GROUP
GROUPING GROUPS HASH HAVING IF IGNORE IN INNER INTERSECT INTERVAL INTO IS JOIN
LATERAL LEFT LIKE LIMIT LOOKUP MERGE NATURAL NEW NO NOT NULL NULLS OF ON OR
ORDER OUTER OVER PARTITION PRECEDING PROTO QUALIFY RANGE RECURSIVE RESPECT
RIGHT ROLLUP ROWS SELECT SET SOME STRUCT TABLESAMPLE THEN TO TREAT TRUE
UNBOUNDED UNION UNNEST USING WHEN WHERE WINDOW WITH WITHIN'''.split())


def lex(s):
  out = []
  i = 0
  while i < len(s):
    m = _TOK.match(s, i)
    if not m:
      raise SqlError('bad character %r at %r' % (s[i], s[i:i + 30]))
    i = m.end()
    k = m.lastgroup
    if k == 'ws':
      continue
    t = m.group()
    if k == 'num' and i < len(s) and re.match(r'[A-Za-z_]', s[i]):
      raise SqlError('bad token near %r' % s[m.start():i + 10])
    out.append((k, t))
  out.append(('eof', ''))
  return out


# ------------------------------------------------------------------ parser


class Parser(object):

  def __init__(self, text):
    self.toks = lex(text)
    self.i = 0

  def peek(self, k=0):
    return self.toks[min(self.i + k, len(self.toks) - 1)]

  def kw(self, *words):
    for j, w in enumerate(words):
      k, t = self.peek(j)
      if k != 'id' or t.upper() != w:
        return False
    return True

  def op(self, o):
    return self.peek() == ('op', o)

  def eat_kw(self, *words):
    if self.kw(*words):
      self.i += len(words)
      return True
    return False

  def eat_op(self, o):
    if self.op(o):
      self.i += 1
      return True
    return False

  def need_kw(self, *words):
    if not self.eat_kw(*words):
      raise SqlError('expected %s near %s' % (' '.join(words), self.near()))

  def need_op(self, o):
    if not self.eat_op(o):
      raise SqlError('expected %r near %s' % (o, self.near()))

  def near(self):
    return ' '.join(t for _, t in self.toks[self.i:self.i + 12])

  def name(self):
    k, t = self.peek()
    if k == 'bt':
      self.i += 1
      return t[1:-1]
    if k == 'id' and t.upper() not in _RESERVED:
      self.i += 1
      return t
    raise SqlError('expected a name near %s' % self.near())

  # --- statements
  def statement(self):
    q = self.query()
    self.eat_op(';')
    if self.peek()[0] != 'eof':
      raise SqlError('trailing text near %s' % self.near())
    return q

  def query(self):
    ctes = []
    if self.eat_kw('WITH'):
      while True:
        n = self.name()
        self.need_kw('AS')
        self.need_op('(')
        ctes.append((n, self.query()))
        self.need_op(')')
        if not self.eat_op(','):
          break
    body = self.set_op()
    return ('query', ctes, body)

  def set_op(self):
    left = self.primary_query()
    while self.eat_kw('UNION', 'ALL'):
      left = ('union', left, self.primary_query())
    return left

  def primary_query(self):
    if self.op('(') :
      self.need_op('(')
      q = self.query()
      self.need_op(')')
      return q
    return self.select()

  def select(self):
    self.need_kw('SELECT')
    distinct = self.eat_kw('DISTINCT')
    items = [self.item()]
    while self.eat_op(','):
      items.append(self.item())
    frm = None
    if self.eat_kw('FROM'):
      frm = self.from_clause()
    where = self.expr() if self.eat_kw('WHERE') else None
    group = None
    if self.eat_kw('GROUP', 'BY'):
      group = [self.expr()]
      while self.eat_op(','):
        group.append(self.expr())
    having = self.expr() if self.eat_kw('HAVING') else None
    order = self.order_by() if self.eat_kw('ORDER', 'BY') else None
    limit = None
    if self.eat_kw('LIMIT'):
      limit = self.expr()
    return ('select', distinct, items, frm, where, group, having, order, limit)

  def order_by(self):
    out = []
    while True:
      e = self.expr()
      desc = False
      if self.eat_kw('DESC'):
        desc = True
      else:
        self.eat_kw('ASC')
      nulls = None
      if self.eat_kw('NULLS'):
        k, t = self.peek()
        nulls = t.upper()
        self.i += 1
      out.append((e, desc, nulls))
      if not self.eat_op(','):
        return out

  def item(self):
    if self.eat_op('*'):
      exc = []
      if self.eat_kw('EXCEPT'):
        self.need_op('(')
        exc.append(self.name())
        while self.eat_op(','):
          exc.append(self.name())
        self.need_op(')')
      return ('star', None, exc)
    if self.peek()[0] in ('id', 'bt') and self.peek(1) == (
        'op', '.') and self.peek(2) == ('op', '*'):
      q = self.name()
      self.i += 2
      exc = []
      if self.eat_kw('EXCEPT'):
        self.need_op('(')
        exc.append(self.name())
        while self.eat_op(','):
          exc.append(self.name())
        self.need_op(')')
      return ('star', q, exc)
    e = self.expr()
    alias = None
    if self.eat_kw('AS'):
      alias = self.name()
    elif self.peek()[0] in ('id', 'bt') and (
        self.peek()[0] == 'bt' or self.peek()[1].upper() not in _RESERVED):
      alias = self.name()
    return ('item', e, alias)

  def from_clause(self):
    left = self.source()
    while True:
      kind = None
      if self.eat_kw('CROSS', 'JOIN') or self.eat_op(','):
        left = ('join', 'CROSS', left, self.source(), None, None)
        continue
      for words, k in ((('LEFT', 'OUTER', 'JOIN'), 'LEFT'),
                       (('RIGHT', 'OUTER', 'JOIN'), 'RIGHT'),
                       (('FULL', 'OUTER', 'JOIN'), 'FULL'),
                       (('LEFT', 'JOIN'), 'LEFT'), (('RIGHT', 'JOIN'), 'RIGHT'),
                       (('FULL', 'JOIN'), 'FULL'), (('INNER', 'JOIN'), 'INNER'),
                       (('JOIN',), 'INNER')):
        if self.eat_kw(*words):
          kind = k
          break
      if not kind:
        return left
      right = self.source()
      using = on = None
      if self.eat_kw('USING'):
        self.need_op('(')
        using = [self.name()]
        while self.eat_op(','):
          using.append(self.name())
        self.need_op(')')
      elif self.eat_kw('ON'):
        on = self.expr()
      elif kind == 'INNER':
        kind = 'CROSS'
      else:
        raise SqlError('%s JOIN without a condition' % kind)
      left = ('join', kind, left, right, using, on)

  def source(self):
    if self.eat_kw('UNNEST'):
      self.need_op('(')
      e = self.expr()
      self.need_op(')')
      alias = None
      if self.eat_kw('AS'):
        alias = self.name()
      elif self.peek()[0] in ('id', 'bt') and self.peek()[1].upper(
      ) not in _RESERVED:
        alias = self.name()
      return ('unnest', e, alias)
    if self.op('('):
      self.need_op('(')
      if self.kw('SELECT') or self.kw('WITH') or self.op('('):
        q = self.query()
        self.need_op(')')
        src = ('sub', q)
      else:
        inner = self.from_clause()
        self.need_op(')')
        return inner
    else:
      n = self.name()
      while self.eat_op('.'):
        n += '.' + self.name()
      src = ('table', n)
    alias = None
    if self.eat_kw('AS'):
      alias = self.name()
    elif self.peek()[0] == 'bt' or (self.peek()[0] == 'id' and
                                    self.peek()[1].upper() not in _RESERVED):
      alias = self.name()
    return ('src', src, alias)

  # --- expressions
  def expr(self):
    return self.e_or()

  def e_or(self):
    l = self.e_and()
    while self.eat_kw('OR'):
      l = ('or', l, self.e_and())
    return l

  def e_and(self):
    l = self.e_not()
    while self.eat_kw('AND'):
      l = ('and', l, self.e_not())
    return l

  def e_not(self):
    if self.eat_kw('NOT'):
      return ('not', self.e_not())
    return self.e_cmp()

  def e_cmp(self):
    l = self.e_add()
    while True:
      k, t = self.peek()
      if k == 'op' and t in ('=', '!=', '<>', '<', '<=', '>', '>='):
        self.i += 1
        l = ('cmp', '!=' if t == '<>' else t, l, self.e_add())
      elif self.kw('IS'):
        self.i += 1
        neg = self.eat_kw('NOT')
        if self.eat_kw('NULL'):
          r = ('isnull', l)
        elif self.eat_kw('TRUE'):
          r = ('istrue', l)
        elif self.eat_kw('FALSE'):
          r = ('isfalse', l)
        else:
          raise SqlError('bad IS near %s' % self.near())
        l = ('not', r) if neg else r
      elif self.kw('BETWEEN') or self.kw('NOT', 'BETWEEN'):
        neg = self.eat_kw('NOT')
        self.need_kw('BETWEEN')
        a = self.e_add()
        self.need_kw('AND')
        b = self.e_add()
        r = ('and', ('cmp', '>=', l, a), ('cmp', '<=', l, b))
        l = ('not', r) if neg else r
      elif self.kw('IN') or self.kw('NOT', 'IN'):
        neg = self.eat_kw('NOT')
        self.need_kw('IN')
        if self.eat_kw('UNNEST'):
          raise SqlError('IN UNNEST')
        self.need_op('(')
        if self.kw('SELECT') or self.kw('WITH'):
          q = self.query()
          self.need_op(')')
          r = ('inq', l, q)
        else:
          xs = [self.expr()]
          while self.eat_op(','):
            xs.append(self.expr())
          self.need_op(')')
          r = ('in', l, xs)
        l = ('not', r) if neg else r
      else:
        return l

  def e_add(self):
    l = self.e_mul()
    while True:
      if self.eat_op('+'):
        l = ('bin', '+', l, self.e_mul())
      elif self.eat_op('-'):
        l = ('bin', '-', l, self.e_mul())
      else:
        return l

  def e_mul(self):
    l = self.e_unary()
    while True:
      if self.eat_op('*'):
        l = ('bin', '*', l, self.e_unary())
      elif self.eat_op('/'):
        l = ('bin', '/', l, self.e_unary())
      elif self.eat_op('||'):
        l = ('call', 'CONCAT', [l, self.e_unary()])
      else:
        return l

  def e_unary(self):
    if self.eat_op('-'):
      if self.op('-'):
        raise SqlError('"--" starts a comment')
      return ('neg', self.e_unary())
    if self.eat_op('+'):
      return self.e_unary()
    return self.e_post()

  def e_post(self):
    e = self.e_atom()
    while True:
      if self.op('['):
        self.i += 1
        k, t = self.peek()
        if k == 'id' and t.upper() in ('OFFSET', 'SAFE_OFFSET', 'ORDINAL',
                                       'SAFE_ORDINAL'):
          self.i += 1
          self.need_op('(')
          idx = self.expr()
          self.need_op(')')
          self.need_op(']')
          e = ('index', t.upper(), e, idx)
        else:
          raise SqlError('bad subscript near %s' % self.near())
      else:
        return e

  def e_atom(self):
    k, t = self.peek()
    if k == 'sym':  # A cell that was formatted into the query.
      self.i += 1
      return ('lit', core.engine().formats[int(t[1:-1])][0])
    if k == 'num':
      self.i += 1
      if t[:2].lower() == '0x':
        return ('lit', int(t, 16))
      if re.fullmatch(r'\d+', t):
        return ('lit', int(t))
      return ('lit', float(t))
    if k == 'str':
      self.i += 1
      body = t[1:-1]
      return ('lit', re.sub(
          r'\\(.)', lambda t: {'n': '\n', 'r': '\r', 't': '\t'}.get(
              t.group(1), t.group(1)), body))
    if k == 'op' and t == '(':
      self.i += 1
      if self.kw('SELECT') or self.kw('WITH'):
        q = self.query()
        self.need_op(')')
        return ('scalarq', q)
      e = self.expr()
      if self.op(','):
        xs = [e]
        while self.eat_op(','):
          xs.append(self.expr())
        self.need_op(')')
        return ('tuple', xs)
      self.need_op(')')
      return e
    if k == 'op' and t == '[':
      self.i += 1
      xs = []
      while not self.op(']'):
        if xs:
          self.need_op(',')
        xs.append(self.expr())
      self.need_op(']')
      if any(x[0] != 'lit' or x[1] is None for x in xs):
        raise SqlError('array of %s' % (xs,))
      if len({isinstance(x[1], str) for x in xs}) > 1:
        raise SqlError('array of several types')
      return ('lit', [x[1] for x in xs])
    if k == 'bt':
      self.i += 1
      return self.colref(t[1:-1])
    if k != 'id':
      raise SqlError('unexpected %r near %s' % (t, self.near()))
    u = t.upper()
    if u == 'NULL':
      self.i += 1
      return ('lit', None)
    if u in ('TRUE', 'FALSE'):
      self.i += 1
      return ('lit', u == 'TRUE')
    if u == 'CASE':
      return self.case()
    if u == 'CAST' or (u == 'SAFE_CAST'):
      self.i += 1
      self.need_op('(')
      e = self.expr()
      self.need_kw('AS')
      _, ty = self.peek()
      self.i += 1
      self.need_op(')')
      return ('cast', e, ty.upper())
    if u == 'ARRAY' and self.peek(1) == ('op', '('):
      self.i += 2
      q = self.query()
      self.need_op(')')
      return ('arrayq', q)
    if u == 'IF' or u not in _RESERVED:
      if self.peek(1) == ('op', '('):
        self.i += 2
        return self.call(u)
      if self.peek(1) == ('op', '.') and u == 'SAFE':
        fn = self.peek(2)[1].upper()
        if self.peek(3) == ('op', '('):
          self.i += 4
          return self.call('SAFE.' + fn)
      if u in _RESERVED:
        raise SqlError('reserved word %s near %s' % (t, self.near()))
      self.i += 1
      return self.colref(t)
    raise SqlError('unexpected keyword %s near %s' % (t, self.near()))

  def colref(self, first):
    if self.op('.') and self.peek(1)[0] in ('id', 'bt'):
      self.i += 1
      k, t = self.peek()
      self.i += 1
      return ('col', first, t[1:-1] if k == 'bt' else t)
    return ('col', None, first)

  def case(self):
    self.need_kw('CASE')
    subj = None
    if not self.kw('WHEN'):
      subj = self.expr()
    whens = []
    while self.eat_kw('WHEN'):
      c = self.expr()
      self.need_kw('THEN')
      whens.append((c, self.expr()))
    els = self.expr() if self.eat_kw('ELSE') else ('lit', None)
    self.need_kw('END')
    return ('case', subj, whens, els)

  def call(self, fn):
    args = []
    distinct = False
    ignore_nulls = False
    order = limit = None
    if fn == 'COUNT' and self.op('*'):
      self.i += 1
      args = ['*']
    elif not self.op(')'):
      distinct = self.eat_kw('DISTINCT')
      args.append(self.expr())
      while self.eat_op(','):
        args.append(self.expr())
      if self.eat_kw('IGNORE', 'NULLS'):
        ignore_nulls = True
      else:
        self.eat_kw('RESPECT', 'NULLS')
      if self.eat_kw('ORDER', 'BY'):
        order = self.order_by()
      if self.eat_kw('LIMIT'):
        limit = self.expr()
    self.need_op(')')
    node = ('call', fn, args, distinct, ignore_nulls, order, limit)
    if self.eat_kw('OVER'):
      self.need_op('(')
      part, worder, frame = [], None, None
      if self.eat_kw('PARTITION', 'BY'):
        part.append(self.expr())
        while self.eat_op(','):
          part.append(self.expr())
      if self.eat_kw('ORDER', 'BY'):
        worder = self.order_by()
      if self.kw('ROWS') or self.kw('RANGE'):
        unit = self.peek()[1].upper()
        self.i += 1
        self.need_kw('BETWEEN')
        lo = self.bound()
        self.need_kw('AND')
        hi = self.bound()
        frame = (unit, lo, hi)
      self.need_op(')')
      return ('window', node, part, worder, frame)
    return node

  def bound(self):
    if self.eat_kw('UNBOUNDED', 'PRECEDING'):
      return ('up',)
    if self.eat_kw('UNBOUNDED', 'FOLLOWING'):
      return ('uf',)
    if self.eat_kw('CURRENT', 'ROW'):
      return ('cur',)
    raise SqlError('unsupported frame bound near %s' % self.near())


AGGS = set('''SUM AVG COUNT MAX MIN VAR_SAMP VAR_POP VARIANCE STDDEV_SAMP
STDDEV_POP STDDEV COVAR_SAMP COVAR_POP CORR COUNTIF ARRAY_AGG APPROX_QUANTILES
ANY_VALUE LOGICAL_OR LOGICAL_AND'''.split())


def has_agg(e):
  if isinstance(e, tuple):
    if e and e[0] == 'call' and e[1] in AGGS:
      return True
    if e and e[0] == 'window':
      # Aggregates nested in the window arguments are group aggregates.
      _, node, part, order, _ = e
      sub = list(node[2]) + list(part) + [o[0] for o in order or []]
      return any(has_agg(x) for x in sub)
    if e and e[0] in ('scalarq', 'arrayq', 'inq'):
      return has_agg(e[1]) if e[0] == 'inq' else False
    return any(has_agg(x) for x in e)
  if isinstance(e, list):
    return any(has_agg(x) for x in e)
  return False


def windows_in(e, out):
  if isinstance(e, tuple):
    if e and e[0] == 'window':
      out.append(e)
      return out
    if e and e[0] in ('scalarq', 'arrayq'):
      return out
    for x in e:
      windows_in(x, out)
  elif isinstance(e, list):
    for x in e:
      windows_in(x, out)
  return out


# --------------------------------------------------------------- evaluation


class Col(object):
  __slots__ = ('quals', 'name', 'hidden')

  def __init__(self, quals, name, hidden=False):
    self.quals = quals
    self.name = name
    self.hidden = hidden


class Rel(object):

  def __init__(self, cols, rows):
    self.cols = cols
    self.rows = rows


class Rand(object):
  """The nondeterministic value of RAND(), optionally scaled."""

  def __init__(self, n=None):
    self.n = n

  def __mul__(self, o):
    if self.n is None:
      return Rand(o)
    raise core.Unsupported('arithmetic on RAND()')

  __rmul__ = __mul__


def _n(v):
  """Normalises cells read from the table: NaN is NULL."""
  if v is None or (not isinstance(v, (str, list, Sym)) and isnan(v)):
    return None
  return v


def eq(a, b):
  if a is None or b is None:
    return None
  if isinstance(a, str) != isinstance(b, str):
    raise SqlError('comparing %r with %r' % (a, b))
  return bool(a == b)


def same_key(a, b):
  if a is None or b is None:
    return a is None and b is None
  if isinstance(a, str) != isinstance(b, str):
    return False
  return bool(a == b)


def truth(v):
  if v is None:
    return None
  return bool(v)


class Sqrtish(object):
  pass


class Runner(object):
  """Executes statements against {table name: (columns, rows)}."""

  def __init__(self, env, tables, hooks=None):
    self.env = env
    self.tables = tables
    self.hooks = hooks or {}
    self.draws = []
    self.nrand = 0
    self.hashes = {}

  # --- public
  def run(self, text):
    ast = Parser(text).statement()
    rel = self.query(ast, {}, None)
    names = [c.name for c in rel.cols if not c.hidden]
    low = [n.lower() for n in names]
    if len(set(low)) != len(low):
      raise SqlError('duplicate column names in the result: %s' % names)
    if any(n is None for n in names):
      raise SqlError('unnamed column in the result')
    keep = [i for i, c in enumerate(rel.cols) if not c.hidden]
    return names, [[r[i] for i in keep] for r in rel.rows]

  # --- queries
  def query(self, q, ctes, outer):
    _, withs, body = q
    scope = dict(ctes)
    for n, sub in withs:
      if n.lower() in [x.lower() for x, _ in withs[:[w[0] for w in withs
                                                    ].index(n)]]:
        raise SqlError('duplicate CTE %s' % n)
      rel = self.query(sub, scope, outer)
      scope[n.lower()] = rel
    return self.body(body, scope, outer)

  def body(self, b, scope, outer):
    if b[0] == 'query':
      return self.query(b, scope, outer)
    if b[0] == 'union':
      l = self.body(b[1], scope, outer)
      r = self.body(b[2], scope, outer)
      if len(l.cols) != len(r.cols):
        raise SqlError('UNION ALL arity')
      return Rel(l.cols, l.rows + r.rows)
    return self.select(b, scope, outer)

  def source(self, s, scope, outer):
    if s[0] == 'join':
      return self.join(s, scope, outer)
    if s[0] == 'unnest':
      arr = self.ev(s[1], Ctx(self, Rel([], []), [], scope, outer))
      alias = s[2]
      return Rel([Col({alias.lower()} if alias else set(), alias)],
                 [[v] for v in arr])
    _, src, alias = s
    if src[0] == 'sub':
      rel = self.query(src[1], scope, outer)
      q = alias
    else:
      n = src[1]
      if n.lower() in scope:
        rel = scope[n.lower()]
      elif n in self.tables:
        cols, rows = self.tables[n]
        rel = Rel([Col(set(), c) for c in cols],
                  [[_n(v) for v in r] for r in rows])
      else:
        raise SqlError('unknown table %s' % n)
      q = alias or n.split('.')[-1]
    quals = {q.lower()} if q else set()
    cols = [Col(set(quals), c.name) for c in rel.cols if not c.hidden]
    keep = [i for i, c in enumerate(rel.cols) if not c.hidden]
    return Rel(cols, [[r[i] for i in keep] for r in rel.rows])

  def join(self, s, scope, outer):
    _, kind, ls, rs, using, on = s
    l = self.source(ls, scope, outer)
    if rs[0] == 'unnest':
      # Correlated UNNEST is allowed.
      alias = rs[2]
      rows = []
      for row in l.rows:
        arr = self.ev(rs[1], Ctx(self, l, row, scope, outer))
        for v in arr:
          rows.append(row + [v])
      cols = l.cols + [Col({alias.lower()} if alias else set(), alias)]
      rel = Rel(cols, rows)
      if on is not None:
        rel.rows = [r for r in rows
                    if truth(self.ev(on, Ctx(self, rel, r, scope, outer)))]
      return rel
    r = self.source(rs, scope, outer)
    lq = set().union(*[c.quals for c in l.cols]) if l.cols else set()
    rq = set().union(*[c.quals for c in r.cols]) if r.cols else set()
    if lq & rq:
      raise SqlError('duplicate table alias %s' % (lq & rq))
    ln, rn = len(l.cols), len(r.cols)
    matched_r = set()
    out = []
    if using:
      li = [self.resolve(l.cols, None, u) for u in using]
      ri = [self.resolve(r.cols, None, u) for u in using]
      merged = [Col(set(), u) for u in using]
      lcols = [Col(c.quals, c.name, c.hidden or i in li)
               for i, c in enumerate(l.cols)]
      rcols = [Col(c.quals, c.name, c.hidden or i in ri)
               for i, c in enumerate(r.cols)]
      cols = merged + lcols + rcols
      for a in l.rows:
        hit = False
        for j, b in enumerate(r.rows):
          if all(eq(a[x], b[y]) for x, y in zip(li, ri)):
            hit = True
            matched_r.add(j)
            out.append([a[x] for x in li] + a + b)
        if not hit and kind in ('LEFT', 'FULL'):
          out.append([a[x] for x in li] + a + [None] * rn)
      if kind in ('RIGHT', 'FULL'):
        for j, b in enumerate(r.rows):
          if j not in matched_r:
            out.append([b[y] for y in ri] + [None] * ln + b)
      return Rel(cols, out)
    cols = l.cols + r.cols
    rel = Rel(cols, [])
    for a in l.rows:
      hit = False
      for j, b in enumerate(r.rows):
        row = a + b
        ok = True
        if on is not None:
          ok = truth(self.ev(on, Ctx(self, rel, row, scope, outer)))
        if ok:
          hit = True
          matched_r.add(j)
          out.append(row)
      if not hit and kind in ('LEFT', 'FULL'):
        out.append(a + [None] * rn)
    if kind in ('RIGHT', 'FULL'):
      for j, b in enumerate(r.rows):
        if j not in matched_r:
          out.append([None] * ln + b)
    rel.rows = out
    return rel

  def resolve(self, cols, q, name, soft=False):
    low = name.lower()
    if q is None:
      hits = [i for i, c in enumerate(cols)
              if not c.hidden and c.name is not None and c.name.lower() == low]
    else:
      hits = [i for i, c in enumerate(cols)
              if q.lower() in c.quals and c.name is not None and
              c.name.lower() == low]
    if len(hits) == 1:
      return hits[0]
    if soft and not hits:
      return None
    raise SqlError('%s column %s%s' % ('ambiguous' if hits else 'unknown',
                                       q + '.' if q else '', name))

  def select(self, s, scope, outer):
    _, distinct, items, frm, where, group, having, order, limit = s
    rel = self.source(frm, scope, outer) if frm else Rel([], [[]])
    if where is not None:
      if has_agg(where) or windows_in(where, []):
        raise SqlError('aggregate or window function in WHERE')
      rel = Rel(rel.cols, [
          r for r in rel.rows
          if truth(self.ev(where, Ctx(self, rel, r, scope, outer)))])
    # Expand stars.
    out_items = []
    for it in items:
      if it[0] == 'star':
        exc = [x.lower() for x in it[2]]
        for x in exc:
          self.resolve(rel.cols, it[1], x)
        found = False
        for i, c in enumerate(rel.cols):
          if it[1] is None and c.hidden:
            continue
          if it[1] is not None and it[1].lower() not in c.quals:
            continue
          found = True
          if c.name is not None and c.name.lower() in exc:
            continue
          out_items.append((('slot', i), c.name))
        if not found and it[1] is not None:
          raise SqlError('unknown table %s' % it[1])
      else:
        e, alias = it[1], it[2]
        if alias is None and e[0] == 'col':
          alias = e[2]
        out_items.append((e, alias))
    aliases = {}
    for e, a in out_items:
      if a is not None:
        aliases.setdefault(a.lower(), []).append(e)

    def sub_alias(e):
      """ORDER BY / GROUP BY / HAVING may name a select alias."""
      if e[0] == 'col' and e[1] is None and e[2].lower() in aliases:
        hits = aliases[e[2].lower()]
        if len(hits) > 1 and any(h != hits[0] for h in hits):
          raise SqlError('ambiguous alias %s' % e[2])
        return hits[0]
      if e[0] == 'lit' and isinstance(e[1], int) and not isinstance(
          e[1], bool):
        return out_items[e[1] - 1][0]
      return e

    is_agg = group is not None or having is not None or any(
        has_agg(e) for e, _ in out_items) or has_agg(
            [o[0] for o in order or []])
    if is_agg:
      keys = []
      for g in group or []:
        g2 = sub_alias(g)
        if has_agg(g2):
          raise SqlError('aggregate in GROUP BY')
        keys.append(g2)
      groups = []
      for row in rel.rows:
        kv = [self.ev(k, Ctx(self, rel, row, scope, outer)) for k in keys]
        for gk, rows in groups:
          if all(same_key(a, b) for a, b in zip(gk, kv)):
            rows.append(row)
            break
        else:
          groups.append((kv, [row]))
      if group is None and not groups:
        groups = [([], [])]
      ctxs = [GroupCtx(self, rel, rows, scope, outer, keys, kv)
              for kv, rows in groups]
      if having is not None:
        ctxs = [c for c in ctxs if truth(self.ev(having, c))]
    else:
      ctxs = [Ctx(self, rel, r, scope, outer) for r in rel.rows]
    wins = windows_in([e for e, _ in out_items], [])
    wins = windows_in([sub_alias(o[0]) for o in order or []], wins)
    for w in wins:
      self.window(w, ctxs)
    rows = [[self.ev(e, c) for e, _ in out_items] for c in ctxs]
    if order:
      keyed = []
      for c, r in zip(ctxs, rows):
        keyed.append(([self.ev(sub_alias(o[0]), c) for o in order], r))
      idx = sort_idx([k for k, _ in keyed], order)
      rows = [keyed[i][1] for i in idx]
    if distinct:
      ded = []
      for r in rows:
        if not any(all(same_key(a, b) for a, b in zip(r, d)) for d in ded):
          ded.append(r)
      rows = ded
    if limit is not None:
      rows = rows[:int(self.ev(limit, Ctx(self, rel, [], scope, outer)))]
    return Rel([Col(set(), a) for _, a in out_items], rows)

  def window(self, w, ctxs):
    _, node, part, worder, frame = w
    fn, args = node[1], node[2]
    parts = []
    for i, c in enumerate(ctxs):
      k = [self.ev(p, c) for p in part]
      for pk, idx in parts:
        if all(same_key(a, b) for a, b in zip(pk, k)):
          idx.append(i)
          break
      else:
        parts.append((k, [i]))
    for _, idx in parts:
      if worder:
        ks = [[self.ev(o[0], ctxs[i]) for o in worder] for i in idx]
        o = sort_idx(ks, worder)
        idx2 = [idx[i] for i in o]
        ks = [ks[i] for i in o]
      else:
        idx2, ks = idx, None
      n = len(idx2)
      for pos, i in enumerate(idx2):
        if fn == 'ROW_NUMBER':
          v = pos + 1
        elif fn in ('LAG', 'LEAD'):
          off = 1
          if len(args) > 1:
            off = int(self.ev(args[1], ctxs[i]))
          j = pos - off if fn == 'LAG' else pos + off
          if 0 <= j < n:
            v = self.ev(args[0], ctxs[idx2[j]])
          else:
            v = self.ev(args[2], ctxs[i]) if len(args) > 2 else None
        elif fn in ('RANK', 'DENSE_RANK'):
          raise core.Unsupported(fn)
        elif fn in AGGS:
          lo, hi = 0, n - 1
          if frame:
            unit, a, b = frame
            if unit == 'RANGE':
              raise core.Unsupported('RANGE frame')
            if a == ('cur',):
              lo = pos
            if b == ('cur',):
              hi = pos
            elif b == ('up',):
              hi = -1
          elif worder:
            # Default frame: RANGE up to the current row's peers.
            hi = pos
            while hi + 1 < n and all(
                same_key(x, y) for x, y in zip(ks[hi + 1], ks[pos])):
              hi += 1
          sel = [ctxs[idx2[j]] for j in range(lo, hi + 1)]
          v = self.agg(node, sel)
        else:
          raise SqlError('window function %s' % fn)
        ctxs[i].wvals[id(w)] = v

  # --- aggregates over contexts
  def agg(self, node, ctxs):
    _, fn, args, distinct, ignore_nulls, order, limit = node
    if args == ['*']:
      return len(ctxs)
    if fn == 'COUNTIF':
      return sum(1 for c in ctxs if truth(self.ev(args[0], c)))
    vals = [[self.ev(a, c) for a in args] for c in ctxs]
    xs = [v[0] for v in vals if v]
    env = self.env
    if fn == 'ARRAY_AGG':
      idx = list(range(len(xs)))
      if order:
        ks = [[self.ev(o[0], c) for o in order] for c in ctxs]
        idx = sort_idx(ks, order)
      out = [xs[i] for i in idx if not (ignore_nulls and xs[i] is None)]
      if limit is not None:
        out = out[:int(self.ev(limit, ctxs[0]))] if ctxs else []
      return out if out else None
    if fn == 'APPROX_QUANTILES':
      return Quantiles(env, [x for x in xs if x is not None],
                       int(vals[0][1]) if vals else 1)
    if fn in ('COVAR_SAMP', 'COVAR_POP', 'CORR'):
      p = [(a, b) for a, b in vals if a is not None and b is not None]
      n = len(p)
      if n == 0 or (n < 2 and fn != 'COVAR_POP'):
        return None
      mx = env.div(_sum([a for a, _ in p]), n)
      my = env.div(_sum([b for _, b in p]), n)
      c = _sum([(a - mx) * (b - my) for a, b in p])
      if fn == 'COVAR_SAMP':
        return env.div(c, n - 1)
      if fn == 'COVAR_POP':
        return env.div(c, n)
      vx = env.div(_sum([(a - mx) * (a - mx) for a, _ in p]), n)
      vy = env.div(_sum([(b - my) * (b - my) for _, b in p]), n)
      return _n(env.div(env.div(c, n), env.sqrt(vx) * env.sqrt(vy)))
    xs = [x for x in xs if x is not None]
    if distinct:
      ded = []
      for x in xs:
        if not any(same_key(x, d) for d in ded):
          ded.append(x)
      xs = ded
    if fn == 'COUNT':
      return len(xs)
    if not xs:
      return None
    if fn in ('SUM', 'AVG', 'VAR_SAMP', 'VAR_POP', 'VARIANCE', 'STDDEV',
              'STDDEV_SAMP', 'STDDEV_POP') and any(
                  isinstance(x, (str, bool)) for x in xs):
      raise SqlError('%s of non-numbers' % fn)
    if fn == 'SUM':
      return _sum(xs)
    if fn == 'AVG':
      return env.div(_sum(xs), len(xs))
    if fn in ('MAX', 'MIN'):
      r = xs[0]
      for x in xs[1:]:
        if bool(x > r) if fn == 'MAX' else bool(x < r):
          r = x
      return r
    if fn == 'ANY_VALUE':
      return xs[0]
    if fn in ('LOGICAL_OR', 'LOGICAL_AND'):
      return any(xs) if fn == 'LOGICAL_OR' else all(xs)
    if fn in ('VAR_SAMP', 'VAR_POP', 'VARIANCE', 'STDDEV', 'STDDEV_SAMP',
              'STDDEV_POP'):
      ddof = 0 if fn.endswith('_POP') else 1
      n = len(xs)
      if n <= ddof:
        return None
      xs = [env.intern(x) for x in xs]
      m = env.div(_sum(xs), n)
      v = env.div(_sum([(x - m) * (x - m) for x in xs]), n - ddof)
      return env.sqrt(v) if fn.startswith('STD') else v
    raise SqlError('aggregate %s' % fn)

  # --- scalar expressions
  def ev(self, e, c):
    k = e[0]
    if k == 'lit':
      return e[1]
    key = c.group_value(e)
    if key is not _MISS:
      return key
    if k == 'slot':
      return c.slot(e[1])
    if k == 'col':
      return c.col(e[1], e[2])
    if k == 'window':
      return c.wvals[id(e)]
    if k == 'call':
      return self.call(e, c)
    if k == 'bin':
      return self.binop(e[1], self.ev(e[2], c), self.ev(e[3], c))
    if k == 'neg':
      v = self.ev(e[1], c)
      return None if v is None else -v
    if k == 'cmp':
      return self.cmp(e[1], self.ev(e[2], c), self.ev(e[3], c))
    if k == 'and':
      a = truth(self.ev(e[1], c))
      if a is False:
        return False
      b = truth(self.ev(e[2], c))
      if b is False:
        return False
      return None if a is None or b is None else True
    if k == 'or':
      a = truth(self.ev(e[1], c))
      if a is True:
        return True
      b = truth(self.ev(e[2], c))
      if b is True:
        return True
      return None if a is None or b is None else False
    if k == 'not':
      v = truth(self.ev(e[1], c))
      return None if v is None else not v
    if k == 'isnull':
      return self.ev(e[1], c) is None
    if k == 'istrue':
      return truth(self.ev(e[1], c)) is True
    if k == 'isfalse':
      return truth(self.ev(e[1], c)) is False
    if k == 'in':
      v = self.ev(e[1], c)
      if v is None:
        return None
      null = False
      for x in e[2]:
        if isinstance(v, tuple) or x[0] == 'tuple':
          r = self.tuple_eq(v, self.ev(x, c))
        else:
          r = self.cmp('=', v, self.ev(x, c))
        if r is None:
          null = True
        elif r:
          return True
      return None if null else False
    if k == 'tuple':
      return tuple(self.ev(x, c) for x in e[1])
    if k == 'case':
      subj = self.ev(e[1], c) if e[1] is not None else None
      for cond, val in e[2]:
        if e[1] is not None:
          r = self.cmp('=', subj, self.ev(cond, c))
        else:
          r = truth(self.ev(cond, c))
        if r:
          return self.ev(val, c)
      return self.ev(e[3], c)
    if k == 'cast':
      v = self.ev(e[1], c)
      if v is None:
        return None
      if e[2] == 'STRING':
        return Str(v)
      if e[2] in ('INT64', 'FLOAT64', 'NUMERIC'):
        if isinstance(v, Str):
          v = v.v
        if isinstance(v, bool):
          return int(v)
        if e[2] == 'INT64' and isinstance(v, float):
          return int(round(v))
        return v
      raise SqlError('CAST AS %s' % e[2])
    if k == 'index':
      arr = self.ev(e[2], c)
      i = self.ev(e[3], c)
      if arr is None:
        return None
      if 'ORDINAL' in e[1]:
        i = i - 1
      if isinstance(arr, Quantiles):
        return arr.at(i)
      if 0 <= i < len(arr):
        return arr[i]
      if e[1].startswith('SAFE'):
        return None
      raise SqlError('array index out of bounds')
    if k == 'scalarq':
      rel = self.query(e[1], c.scope, c)
      if len(rel.rows) > 1:
        raise SqlError('scalar subquery produced more than one row')
      return rel.rows[0][0] if rel.rows else None
    if k == 'arrayq':
      rel = self.query(e[1], c.scope, c)
      return [r[0] for r in rel.rows]
    if k == 'inq':
      rel = self.query(e[2], c.scope, c)
      v = self.ev(e[1], c)
      if v is None:
        return None
      return any(eq(v, r[0]) for r in rel.rows)
    raise SqlError('expression %s' % k)

  def tuple_eq(self, a, b):
    res = True
    for x, y in zip(a, b):
      r = self.cmp('=', x, y)
      if r is False:
        return False
      if r is None:
        res = None
    return res

  def binop(self, op, a, b):
    if a is None or b is None:
      return None
    for v in (a, b):
      if isinstance(v, (str, bool, Str, list, tuple)):
        raise SqlError('arithmetic on %r' % (v,))
    if op == '+':
      return a + b
    if op == '-':
      return a - b
    if op == '*':
      return b * a if isinstance(b, Rand) else a * b
    if isinstance(a, Rand) or isinstance(b, Rand):
      raise core.Unsupported('RAND() / x')
    zero = (bool(b == 0))
    if zero:
      raise DivisionByZero('division by zero')
    return self.env.div(a, b)

  def cmp(self, op, a, b):
    if a is None or b is None:
      return None
    if isinstance(a, Str):
      a = a.v if isinstance(a.v, str) else str(a.v)
    if isinstance(b, Str):
      b = b.v if isinstance(b.v, str) else str(b.v)
    if isinstance(a, str) != isinstance(b, str):
      raise SqlError('comparing %r with %r' % (a, b))
    if isinstance(a, bool) != isinstance(b, bool):
      raise SqlError('comparing %r with %r' % (a, b))
    if op == '=':
      return bool(a == b)
    if op == '!=':
      return not bool(a == b)
    if op == '<':
      return bool(a < b)
    if op == '<=':
      return bool(a <= b)
    if op == '>':
      return bool(a > b)
    return bool(a >= b)

  def call(self, e, c):
    fn, args = e[1], e[2]
    if fn in AGGS:
      return self.agg(e, c.group())
    env = self.env
    if fn == 'IF' and env.symbolic and self.hooks.get('merge'):
      # Both branches may be the same value.
      cond = self.ev(args[0], c)
      if isinstance(cond, core.SymBool):
        a, b = self.ev(args[1], c), self.ev(args[2], c)
        if isinstance(a, Sym) and isinstance(b, Sym) and core.is_zero_poly(
            core.diff_term(a, b)):
          return a
      return self.ev(args[1] if truth(cond) else args[2], c)
    if fn == 'IF':
      return self.ev(args[1] if truth(self.ev(args[0], c)) else args[2], c)
    if fn == 'COALESCE' or fn == 'IFNULL':
      for a in args:
        v = self.ev(a, c)
        if v is not None:
          return v
      return None
    if fn == 'RAND':
      if 'rand' in self.hooks:
        return self.hooks['rand'](c)
      return Rand()
    vs = [self.ev(a, c) for a in args]
    if fn == 'NULLIF':
      if vs[0] is None:
        return None
      return None if self.cmp('=', vs[0], vs[1]) else vs[0]
    if fn in ('CEILING', 'CEIL', 'FLOOR') and isinstance(vs[0], Rand):
      n = int(vs[0].n)
      self.nrand += 1
      k = self.hooks['draw'](self.nrand, n, c)
      return k + 1 if fn != 'FLOOR' else k
    if fn == 'GENERATE_ARRAY':
      return list(range(int(vs[0]), int(vs[1]) + 1))
    if any(v is None for v in vs):
      return None
    if fn == 'SAFE_DIVIDE':
      if bool(vs[1] == 0):
        return None
      return env.div(vs[0], vs[1])
    if fn in ('SQRT', 'SAFE.SQRT'):
      v = vs[0]
      if bool(v < 0):
        if fn == 'SQRT':
          raise SqlError('SQRT of a negative number')
        return None
      return env.sqrt(v)
    if fn in ('POWER', 'POW', 'SAFE.POWER', 'SAFE.POW'):
      a, b = vs
      safe = fn.startswith('SAFE')
      bf = Sym._coerce(b).const_value() if isinstance(b, Sym) else (
          core.rationalize(b))
      if bf is not None:
        if bf.denominator != 1 and bool(a < 0):
          if safe:
            return None
          raise SqlError('POWER of a negative number')
        if bf < 0 and bool(a == 0):
          if safe:
            return None
          raise SqlError('0 to a negative power')
      elif bool(a < 0):
        if safe:
          return None
        raise SqlError('POWER of a negative number')
      return _n(env.pow(a, b))
    if fn in ('LOG', 'LN', 'SAFE.LOG', 'SAFE.LN'):
      if bool(vs[0] <= 0):
        if fn.startswith('SAFE'):
          return None
        raise DivisionByZero('LOG of a non-positive number')
      return env.log(vs[0])
    if fn == 'EXP':
      if env.symbolic:
        return core.uf('exp', Sym._coerce(vs[0]))
      return math.exp(vs[0])
    if fn == 'ABS':
      return abs(vs[0])
    if fn in ('CEILING', 'CEIL', 'FLOOR', 'ROUND'):
      if isinstance(vs[0], Sym):
        raise core.Unsupported(fn)
      return {'CEIL': math.ceil, 'CEILING': math.ceil, 'FLOOR': math.floor,
              'ROUND': round}[fn](vs[0])
    if fn == 'CONCAT':
      return Str('|'.join(str(v) for v in vs)) if False else ''.join(
          str(v) for v in vs)
    if fn == 'FARM_FINGERPRINT':
      return self.hooks['hash'](str(vs[0]), c)
    if fn in ('GREATEST', 'LEAST'):
      r = vs[0]
      for v in vs[1:]:
        if bool(v > r) if fn == 'GREATEST' else bool(v < r):
          r = v
      return r
    if fn == 'ARRAY_LENGTH':
      return len(vs[0])
    raise SqlError('unknown function %s' % fn)


class DivisionByZero(SqlError):
  pass


class Str(object):
  """CAST(x AS STRING): kept by value."""

  def __init__(self, v):
    self.v = v

  def __eq__(self, o):
    if isinstance(o, Str):
      o = o.v
    return self.v == o

  def __hash__(self):
    return hash(self.v)

  def __str__(self):
    if isinstance(self.v, float) and self.v == int(self.v):
      return str(int(self.v))
    return str(self.v)


class Quantiles(object):
  """APPROX_QUANTILES taken as the exact empirical quantile is outside the
  dialect; element i is an uninterpreted function of the sorted values."""

  def __init__(self, env, xs, n):
    self.env, self.xs, self.n = env, xs, n

  def at(self, i):
    from symx import ref
    if not self.xs:
      return None
    s = [self.xs[j] for j in ref.argsort(self.xs)]
    # Nearest-rank: exact for i=0 and i=n; in between an approximation.
    k = (len(s) - 1) * i / self.n
    return ('approx', s, k)


_MISS = object()


class Ctx(object):
  """Row context."""

  def __init__(self, run, rel, row, scope, outer):
    self.run, self.rel, self.row = run, rel, row
    self.scope, self.outer = scope, outer
    self.wvals = {}

  def group_value(self, e):
    return _MISS

  def slot(self, i):
    return self.row[i]

  def col(self, q, n):
    i = self.run.resolve(self.rel.cols, q, n, soft=True)
    if i is None:
      if self.outer is not None:
        return self.outer.col(q, n)
      raise SqlError('unknown column %s%s' % (q + '.' if q else '', n))
    return self.row[i]

  def group(self):
    raise SqlError('aggregate outside of a group')


class GroupCtx(Ctx):

  def __init__(self, run, rel, rows, scope, outer, keys, kv):
    super(GroupCtx, self).__init__(run, rel, rows[0] if rows else None, scope,
                                   outer)
    self.rows = rows
    self.keys, self.kv = keys, kv

  def group_value(self, e):
    for k, v in zip(self.keys, self.kv):
      if k == e:
        return v
    if e[0] in ('col', 'slot') :
      # A column equal to a grouped one under another spelling.
      try:
        i = e[1] if e[0] == 'slot' else self.run.resolve(
            self.rel.cols, e[1], e[2], soft=True)
      except SqlError:
        raise
      if i is not None:
        for k, v in zip(self.keys, self.kv):
          j = None
          if k[0] == 'col':
            j = self.run.resolve(self.rel.cols, k[1], k[2], soft=True)
          elif k[0] == 'slot':
            j = k[1]
          if j == i:
            return v
    return _MISS

  def slot(self, i):
    raise SqlError('column %s is neither grouped nor aggregated' %
                   self.rel.cols[i].name)

  def col(self, q, n):
    i = self.run.resolve(self.rel.cols, q, n, soft=True)
    if i is None and self.outer is not None:
      return self.outer.col(q, n)
    raise SqlError('column %s%s is neither grouped nor aggregated' %
                   (q + '.' if q else '', n))

  def group(self):
    return [Ctx(self.run, self.rel, r, self.scope, self.outer)
            for r in self.rows]


def _sum(xs):
  r = xs[0]
  for x in xs[1:]:
    r = r + x
  return r


def sort_idx(keys, order):
  """Stable sort of positions; NULLs first when ascending, last descending."""

  def less(a, b):
    for (x, y, (_, desc, nulls)) in zip(a, b, order):
      if x is None or y is None:
        if x is None and y is None:
          continue
        first = (nulls == 'FIRST') if nulls else not desc
        return (x is None) == first
      if bool(x == y):
        continue
      return bool(x > y) if desc else bool(x < y)
    return False

  out = []
  for i in range(len(keys)):
    j = len(out)
    while j > 0 and less(keys[i], keys[out[j - 1]]):
      j -= 1
    out.insert(j, i)
  return out
