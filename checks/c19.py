"""P19: display marks exactly the significant changes, under the right keys."""
import html.parser
import re

import pandas as pd

from checks import catalog
from symx import harness
from symx.core import Sym, SymBool, isnan
from symx.harness import Scenario, norm_key

PROPERTY = 'P19'
LEVEL = 'other'

NAN = catalog.NAN
ms = catalog.ms
SPECS = {'absolute': ('.4f', ''), 'percent': ('.2f', '%'), 'pp': ('.2f', 'pp')}


def display():
  from meterstick import confidence_interval_display  # pylint: disable=g-import-not-at-top
  return confidence_interval_display


# --- reading what is shown ------------------------------------------------
class Texts(html.parser.HTMLParser):
  """[(classes of the enclosing elements, text)] of a piece of HTML."""

  def __init__(self):
    super().__init__()
    self.stack = []
    self.texts = []
    self.classes = set()

  def handle_starttag(self, tag, attrs):
    c = dict(attrs).get('class') or ''
    self.stack.append(c.split())
    self.classes.update(c.split())

  def handle_endtag(self, tag):
    self.stack.pop()

  def handle_data(self, data):
    if data.strip():
      self.texts.append((set(sum(self.stack, [])), data.strip()))


def parse(text):
  p = Texts()
  p.feed(text)
  p.close()
  if p.stack:
    raise ValueError('unbalanced HTML: %s' % text)
  return p


def number(env, label, text, want, spec):
  """text shows the number want, formatted as spec."""
  m = re.fullmatch('\u27e6(\\d+)\u27e7', text)
  if m:
    sym, used = env.eng.formats[int(m.group(1))]
    env.check(label + ':format', used == spec, 'format %r want %r' % (
        used, spec))
    return env.check_cell(label, sym, want)
  try:
    got = float(text.rstrip('%')) / (100. if text.endswith('%') else 1)
  except ValueError:
    return env.fail(label, 'shows %r' % text)
  if isnan(want):
    return env.fail(label, 'shows %r for a null' % text)
  digits = int(re.search(r'\d+', spec).group(0)) + 2 * spec.endswith('%')
  if isinstance(want, Sym) and want.const_value() is None:
    return env.check_cell(label, got, want)
  w = float(want.const_value()) if isinstance(want, Sym) else float(want)
  env.check(label, abs(got - w) <= .5000001 * 10**-digits + 1e-9 * abs(w),
            'shows %r want %r' % (text, w))


def positive(x):
  return x > 0 if not isnan(x) else False


def negative(x):
  return x < 0 if not isnan(x) else False


def both(a, b):
  if isinstance(a, SymBool):
    return a & b
  return b & a if isinstance(b, SymBool) else a and b


def either(a, b):
  if isinstance(a, SymBool):
    return a | b
  return b | a if isinstance(b, SymBool) else a or b


def iff(env, label, shown, cond, detail):
  if isinstance(cond, SymBool):
    cond = cond if shown else ~cond
  else:
    cond = bool(cond) == shown
  env.check(label, cond, detail)


def check_cell(env, label, shown, row, o):
  """One metric cell against (value, ratio, lower, upper) or None."""
  if not isinstance(shown, str):
    return env.fail(label, 'not HTML: %r' % (shown,))
  p = parse(shown)
  texts = [t for _, t in p.texts]
  good = 'ci-display-good-change' in p.classes
  bad = 'ci-display-bad-change' in p.classes
  if row is None or (isnan(row[0]) and isnan(row[1])):
    env.check(label + ':empty', texts == ['N/A'] and not good and not bad,
              'shows %s for no value' % texts)
    return
  value, ratio, lower, upper = row
  fv = SPECS.get(o['formats'].get('Value', 'absolute'))
  fr = SPECS.get(o['formats'].get('Ratio', 'absolute'))
  fv = fv or (re.search('{:(.*)}', o['formats']['Value']).group(1), '')
  fr = fr or (re.search('{:(.*)}', o['formats']['Ratio']).group(1), '')
  if o['formats'].get('Value') == 'percent' and not isnan(value):
    value = value * 100
  want = []
  if not isnan(value):
    want.append(value)
  elif not o['hide']:
    want.append('-')
  if not isnan(ratio):
    want += ['ratio', 'interval']
  if len(texts) != len(want):
    return env.fail(label, 'shows %s' % texts)
  if isnan(value):
    if not o['hide']:
      env.check(label + ':value', texts[0] == '-', 'shows %s' % texts)
  else:
    t = texts[0]
    env.check(label + ':unit', t.endswith(fv[1]), 'shows %s' % t)
    number(env, label + ':value', t[:len(t) - len(fv[1])], value, fv[0])
  if isnan(ratio):
    env.check(label + ':class', not good and not bad,
              'a value without a change is marked')
    return
  t = texts[-2]
  env.check(label + ':unit', t.endswith(fr[1]), 'shows %s' % t)
  number(env, label + ':ratio', t[:len(t) - len(fr[1])], ratio, fr[0])
  m = re.fullmatch(r'\[(.*), (.*)\] ?(.*)', texts[-1])
  if not m:
    return env.fail(label, 'shows %s' % texts)
  env.check(label + ':unit', m.group(3) == fr[1], 'shows %s' % texts[-1])
  for n, t, x in (('lower', m.group(1), lower), ('upper', m.group(2), upper)):
    if isnan(x):
      env.check(label + ':' + n, t == 'N/A', 'shows %s for no bound' % t)
    else:
      number(env, '%s:%s' % (label, n), t, x, fr[0])
  up = both(positive(lower), positive(upper))
  down = both(negative(lower), negative(upper))
  if o['flipped']:
    up, down = down, up
  iff(env, label + ':good', good, up, 'good: %s' % good)
  iff(env, label + ':bad', bad, down, 'bad: %s' % bad)


def dimension_key(shown):
  p = parse(shown)
  d = {}
  for c, t in p.texts:
    for k in ('description-text', 'experiment-id', 'dimension'):
      if 'ci-display-' + k in c:
        if k in d:
          raise ValueError('two %s in %s' % (k, shown))
        d[k] = t
  if len(d) != len(p.texts):
    raise ValueError('unexpected text in %s' % shown)
  return tuple(d.get(k, '') for k in ('description-text', 'experiment-id',
                                      'dimension'))


def ordered(env, label, keys):
  """keys: one list per sort column, (values, ascending), of cells."""
  n = len(keys[0][0])
  for i in range(n - 1):
    ok = True
    for vals, asc in reversed(keys):
      a, b = vals[i], vals[i + 1]
      if isnan(a) or isnan(b):  # Nulls last.
        lt, eq = (not isnan(a)) and isnan(b), isnan(a) and isnan(b)
      else:
        lt = a < b if asc else b < a
        eq = (a <= b) & (b <= a) if isinstance(a, Sym) or isinstance(
            b, Sym) else a == b
      ok = either(lt, both(eq, ok))
    env.check('%s:row %d' % (label, i), ok, 'rows out of order')


def check_table(env, label, res, rows, o):
  """rows: {(metric, id, control id, is control, desc, dims): cell tuple}."""
  if not isinstance(res, pd.DataFrame):
    return env.fail(label, 'type %s' % type(res))
  metrics = []
  for k in rows:
    if k[0] not in metrics:
      metrics.append(k[0])
  order = o.get('metric_order')
  want_metrics = sorted(metrics) if order is None else [
      x for x in order if x in metrics]
  lines = []
  for k in rows:
    if k[1:] not in lines:
      lines.append(k[1:])
  has_id = any(l[0] is not None for l in lines)
  cols = list(res.columns)
  if o['aggregate']:
    def key_of(l):
      return (l[3] or '', '' if l[0] is None else str(l[0]),
              ' * '.join(map(str, l[4])))
    front = ['Dimensions'] if any(any(key_of(l)) for l in lines) else []
    def read(i):
      return dimension_key(res['Dimensions'].iloc[i]) if front else (
          '', '', '')
  else:
    front = list(o['dims'])
    if has_id:
      front += ['Experiment_Id' if o.get('id_name') is None else o['id_name']]
      if o['info']:
        front += ['Control_Id', 'Is_Control']
        if lines[0][3] is not None:
          front += ['Description']
    def key_of(l):
      k = list(map(str, l[4]))
      if has_id:
        k += [str(l[0])]
        if o['info']:
          k += [str(l[1]), str(l[2])]
          if l[3] is not None:
            k += [str(l[3])]
      return tuple(k)
    def read(i):
      return tuple(' '.join(t for _, t in parse(res[c].iloc[i]).texts)
                   for c in front)
  got_front = [c for c in cols if c not in metrics]
  if sorted(got_front) != sorted(front):
    env.fail(label, 'columns %s want %s' % (cols, front + want_metrics))
    return
  got_metrics = [c for c in cols if c in metrics]
  if got_metrics != want_metrics:
    env.fail(label, 'metrics %s want %s' % (got_metrics, want_metrics))
  try:
    got = [read(i) for i in range(len(res))]
  except ValueError as e:
    return env.fail(label, str(e))
  want = {}
  for l in lines:
    want[key_of(l)] = l
  if len(want) != len(lines):
    raise ValueError('ambiguous lines in the scenario')
  if sorted(got) != sorted(want):
    return env.fail(label, 'rows %s want %s' % (got, sorted(want)))
  for i, k in enumerate(got):
    for j, m in enumerate(cols):
      if m in metrics:
        oo = dict(o, flipped=m in (o.get('flip') or ()))
        check_cell(env, '%s@%s' % (label, (k, m)), res.iloc[i, j],
                   rows.get((m,) + want[k]), oo)
  by = o.get('sort_by')
  categories = o.get('categories') or {}
  if not by:  # Slices together, each control above its experiments.
    by = [dict(column=d) for d in o['dims']]
    if has_id:
      by += [dict(column=c, ascending=c != 'Is_Control')
             for c in ('Control_Id', 'Is_Control', 'Experiment_Id')
             if c == 'Experiment_Id' or lines[0][1] is not None]
    if any(len({type(want[k][j]) for k in got}) > 1 for j in (0, 1)):
      by = []
  if by:
    ks = []
    for s in by:
      c, asc = s['column'], s.get('ascending', True)
      if isinstance(c, tuple):
        f = ['Value', 'Ratio', 'CI_Lower', 'CI_Upper'].index(c[0])
        vals = [(rows.get((c[1],) + want[k]) or (NAN,) * 4)[f] for k in got]
      else:
        if c in o['dims']:
          vals = [want[k][4][o['dims'].index(c)] for k in got]
          if c in categories and 'order' not in s:
            vals = [categories[c].index(v) for v in vals]
        elif c == 'Control_Id':
          vals = [want[k][1] for k in got]
        elif c == 'Is_Control':
          vals = [want[k][2] for k in got]
        else:
          vals = [want[k][0] for k in got]
        if 'order' in s:
          vals = [s['order'].index(v) for v in vals]
      ks.append((vals, asc))
    ordered(env, label + ':order', ks)


# --- long tables ----------------------------------------------------------
DEFAULT = dict(aggregate=True, show_control=True, formats=None, sort_by=None,
               metric_order=None, flip=None, hide=False, info=False,
               auto=False, auto_desc=True, show_value=False, ctrl=None,
               names=None, range=False, control_value=False, nulls=(),
               desc=None, twice=False, free=None, fields=None)


def table(env, o, lines):
  """The long frame of lines [(metric, id or None, dims)] and its cells."""
  cells, cols = [], {k: [] for k in ('value', 'ratio', 'lower', 'upper',
                                     'range', 'control')}
  for i, (metric, eid, dims) in enumerate(lines):
    free = o['free'] is None or i in o['free']
    def real(n, default):
      if not free or o['fields'] and n not in o['fields']:  # pylint: disable=cell-var-from-loop
        return default
      return env.real('%s%d' % (n, i))  # pylint: disable=cell-var-from-loop
    v = real('v', 1.5 + i)
    r = real('r', (-1)**i * (i + .25))
    if o['range']:
      w = real('w', 1.)
      if isinstance(w, Sym):
        env.assume(w >= 0)
      lo, hi = r - w / 2, r + w / 2
    else:
      w = 0.
      lo = real('l', (-1)**i * (i + .25) - .125)
      hi = real('h', (-1)**i * (i + .25) + .125)
      if free:
        env.assume(lo <= hi)
    c = [v, r, lo, hi]
    for what in ('value', 'ratio', 'lower', 'upper'):
      if (i, what) in o['nulls']:
        c[['value', 'ratio', 'lower', 'upper'].index(what)] = NAN
    cells.append(tuple(c))
    for k, x in zip(('value', 'ratio', 'lower', 'upper'), c):
      cols[k].append(x)
    cols['range'].append(w)
  return cells, cols


def long_scenario(name, lines, dims, **opts):
  o0 = dict(DEFAULT, dims=dims, **opts)

  def fn(env):
    o = dict(o0)
    cells, cols = table(env, o, lines)
    n = dict(metric='Metric', ratio='Ratio', value='Value', ci_upper='CI_Upper',
             ci_lower='CI_Lower', ci_range='CI_Range', expr_id='Experiment_Id',
             control_value='Control_Value', description='Description')
    n.update(o['names'] or {})
    has_id = lines[0][1] is not None
    data = {n['metric']: [l[0] for l in lines]}
    for j, d in enumerate(dims):
      data[d] = [l[2][j] for l in lines]
    if has_id:
      data[n['expr_id']] = [l[1] for l in lines]
      o['id_name'] = n['expr_id']
    data[n['value']] = cols['value']
    data[n['ratio']] = cols['ratio']
    if o['range']:
      data[n['ci_range']] = cols['range']
    else:
      data[n['ci_upper']] = cols['upper']
      data[n['ci_lower']] = cols['lower']
    if o['desc']:
      data[n['description']] = o['desc']
    control = {}
    if o['control_value']:
      controls = []
      for i, (metric, eid, dv) in enumerate(lines):
        c = control_of(o['ctrl'], eid)
        if (metric, c, dv) not in control:
          control[metric, c, dv] = env.real('c%d' % i)
        controls.append(control[metric, c, dv])
      data[n['control_value']] = controls
    df = env.frame(data)
    for d, cats in (o.get('categories') or {}).items():
      df[d] = pd.Categorical(df[d], cats, ordered=o.get('ordered', False))
    before = df.copy()
    sort_by = o['sort_by'] and [dict(s) for s in o['sort_by']]
    args = dict(
        dims=list(dims) if opts.get('give_dims', True) else None,
        aggregate_dimensions=o['aggregate'], show_control=o['show_control'],
        metric_formats=o['formats'] and dict(o['formats']),
        ctrl_id=o['ctrl'], sort_by=sort_by,
        metric_order=o['metric_order'], flip_color=o['flip'],
        hide_null_ctrl=o['hide'], display_expr_info=o['info'],
        auto_decide_control_vals=o['auto'],
        auto_add_description=o['auto_desc'],
        show_metric_value_when_control_hidden=o['show_value'], **n)
    o['formats'] = o['formats'] or {}
    res = display().get_formatted_df(df, **args)
    # What has to be shown.
    rows = {}
    for i, (metric, eid, dv) in enumerate(lines):
      c = control_of(o['ctrl'], eid) if o['ctrl'] is not None else None
      is_ctrl = None if o['ctrl'] is None else c == eid
      v, r, lo, hi = cells[i]
      if is_ctrl and not o['show_control']:
        continue
      if is_ctrl:
        r = lo = hi = NAN
      if not o['show_control'] and not o['show_value']:
        v = NAN
      desc = o['desc'][i] if o['desc'] else None
      if o['auto_desc'] and is_ctrl is not None and not desc:
        desc = 'Control' if is_ctrl else 'Not Control'
      rows[metric, eid, c, is_ctrl, desc, dv] = (v, r, lo, hi)
    if o['auto']:
      for (metric, c, dv), v in control.items():
        k = (metric, c, c, True, 'Control', dv)
        if k not in rows:
          rows[k] = (v, NAN, NAN, NAN)
        elif isnan(rows[k][0]):
          rows[k] = (v,) + rows[k][1:]
    o['sort_by'] = o0['sort_by']
    check_table(env, 'table', res, rows, o)
    env.check_eq('argument', df, before)
    if o['twice']:
      args['aggregate_dimensions'] = not o['aggregate']
      res = display().get_formatted_df(df, **args)
      check_table(env, 'other layout', res, rows, dict(
          o, aggregate=not o['aggregate']))

  return Scenario('long:' + name, fn, cost=opts.get('cost', 2))


def control_of(ctrl, eid):
  if ctrl is None:
    return None
  if not isinstance(ctrl, dict):
    return ctrl
  for c, es in ctrl.items():
    if eid == c or eid in es:
      return c
  return None


def inconsistent(name, deltas):
  """auto_decide_control_vals skips slices with inconsistent control values."""

  def fn(env):
    base = env.reals('c', len(deltas))
    gap = env.real('gap')
    env.assume(gap > 2e-5)
    data = {k: [] for k in ('Metric', 'Experiment_Id', 'Dim_1', 'Value',
                            'Ratio', 'CI_Lower', 'CI_Upper', 'Control_Value')}
    rows = {}
    for i, same in enumerate(deltas):
      d = 'd%d' % i
      for e in (1, 2):
        data['Metric'].append('m')
        data['Experiment_Id'].append(e)
        data['Dim_1'].append(d)
        cell = (2. + e + i, -.5 + i, -1. + i, .25 + i)
        for k, x in zip(('Value', 'Ratio', 'CI_Lower', 'CI_Upper'), cell):
          data[k].append(x)
        data['Control_Value'].append(
            base[i] + (0 if same or e == 1 else gap))
        rows['m', e, 'A', False, 'Not Control', (d,)] = cell
      if same:
        rows['m', 'A', 'A', True, 'Control', (d,)] = (base[i], NAN, NAN, NAN)
    res = display().get_formatted_df(
        env.frame(data), ctrl_id='A', auto_decide_control_vals=True)
    check_table(env, 'table', res, rows, dict(DEFAULT, dims=['Dim_1'],
                                              formats={}))

  return Scenario('inconsistent:' + name, fn)


# --- the display bound to results -----------------------------------------
def bound_scenario(name, make, split, value_of, melted=False, **opts):
  """res.display() of a result whose numbers are arbitrary."""
  o0 = dict(DEFAULT, hide=True, auto_desc=False)
  o0.update(opts)

  def fn(env):
    m = ms()
    o = dict(o0)
    keys = value_of['keys']
    n = len(keys['u'])
    df = pd.DataFrame(dict(keys, x=[1., 2., 4., 3., 5., 2.5, 7., 1.25][:n],
                           y=[2., 1., 3., 3., 4., 6., 1.5, 2.][:n]))
    res = make(m).compute_on(df, split or None, melted=melted)
    stats = (list(res.columns) if melted else
             [c[1] for c in res.columns[:3]])
    cells = {}
    lines = []
    frame = res.copy()
    names = [x for x in res.index.names if x not in (None, 'Metric')]
    obj = {}
    for r, k in enumerate(res.index):
      k = tuple(map(norm_key, k if isinstance(k, tuple) else (k,)))
      if res.index.names == [None]:
        k = ()
      for j, c in enumerate(res.columns):
        if melted:
          metric, stat, kk = k[0], c, k[1:]
        else:
          metric, stat, kk = c[0], c[1], k
        if (metric, kk) not in cells:
          i = len(lines)
          lines.append((metric, kk))
          free = o['free'] is None or i in o['free']
          if free:
            p, lo, hi = (env.real('%s%d' % (q, i)) for q in 'rlh')
            env.assume(lo <= hi)
          else:
            p, lo, hi = (-1)**i * (i + .25), (-1)**i * (i + .25) - .5, (
                -1)**i * (i + .25) + .5
          cells[metric, kk] = (p, lo, hi)
        obj.setdefault(c, [None] * len(res))[r] = cells[metric, kk][
            stats.index(stat)]
    for c, v in obj.items():
      s = env.series(v)
      s.index = res.index
      frame[c] = s
    for a in ('meterstick_change_base',):
      setattr(frame, a, getattr(res, a))
    cond = value_of.get('cond')
    base = {}
    if cond:
      b = res.meterstick_change_base
      obj = []
      for i, k in enumerate(b.index):
        k = tuple(map(norm_key, k))
        free = o['free'] is None or i in o['free']
        v = env.real('b%d' % i) if free else 3. + i
        metric = k[0]
        if metric.endswith(value_of['suffix']):
          metric = metric[:-len(value_of['suffix'])]
        base[metric, k[1:]] = v
        obj.append(v)
      s = env.series(obj)
      b = b.copy()
      s.index = b.index
      b[b.columns[0]] = s
      frame.meterstick_change_base = b
      suffix = value_of['suffix']
    args = dict(
        aggregate_dimensions=o['aggregate'],
        sort_by=o['sort_by'] and [dict(s) for s in o['sort_by']],
        metric_formats=o['formats'] and dict(o['formats']),
        metric_order=o['metric_order'], flip_color=o['flip'],
        hide_null_ctrl=o['hide'], display_expr_info=o['info'],
        auto_add_description=o['auto_desc'],
        show_metric_value_when_control_hidden=o['show_value'])
    if 'show' in opts:
      args['show_control'] = opts['show']
    shown = res.display.__func__(frame, return_formatted_df=True, **args)
    show = opts.get('show', True if cond else None)
    if o['formats'] is None:
      o['formats'] = value_of.get('formats', {})
    rows = {}
    sp = list(split or [])
    def put(metric, kk, v, p, lo, hi):
      d = dict(zip(names, kk))
      eid = c = is_ctrl = desc = None
      if cond:
        eid = tuple(d[x] for x in cond)
        c = value_of['baseline']
        c = c if isinstance(c, tuple) else (c,)
        is_ctrl = eid == c
        if len(cond) == 1:
          eid, c = eid[0], c[0]
        if o['auto_desc']:
          desc = 'Control' if is_ctrl else 'Not Control'
        if is_ctrl:
          if not show:
            return
          p = lo = hi = NAN
      if not show and not o['show_value']:
        v = NAN
      rows[metric, eid, c, is_ctrl, desc, tuple(d[x] for x in sp)] = (
          v, p, lo, hi)
    if cond:
      for (metric, kk), v in base.items():
        put(metric, kk, v, *cells.get((metric + suffix, kk), (NAN,) * 3))
    else:
      for (metric, kk), x in cells.items():
        put(metric, kk, NAN, *x)
    o['dims'] = sp
    if o['metric_order'] is None:
      o['metric_order'] = []
      for metric, kk in lines:
        metric = metric[:-len(suffix)] if cond else metric
        if metric not in o['metric_order']:
          o['metric_order'].append(metric)
    o['id_name'] = (cond[0] if len(cond) == 1 else '_expr_id') if cond else None
    check_table(env, 'display', shown, rows, o)

  return Scenario('bound:' + name, fn, cost=opts.get('cost', 3))


ONE = dict(u=[1, 1, 2, 2, 3, 3])
GRP = dict(u=[1, 1, 2, 2, 3, 3], g=['b', 'a', 'b', 'a', 'b', 'a'])
TWO = dict(u=[1, 1, 2, 2, 1, 1, 2, 2], g=['b', 'b', 'b', 'b', 'a', 'a', 'a', 'a'],
           c=['A', 'B', 'A', 'B', 'A', 'B', 'A', 'B'])
CHG = dict(u=[1, 1, 2, 2, 3, 3], c=['A', 'B', 'A', 'B', 'B', 'A'])
ZERO = dict(u=[1, 1, 2, 2, 3, 3], c=[0, 1, 0, 1, 1, 0])
MULTI = dict(u=[1, 1, 2, 2, 3, 3, 1, 2], c=[1, 1, 1, 2, 2, 1, 2, 1],
             h=[5, 6, 5, 5, 5, 6, 5, 6])
PCT = ' Percent Change'
ABS = ' Absolute Change'


def scenarios(tier, seed):
  del seed
  out = []
  L = long_scenario
  one = [('m', 'A', ('x',)), ('m', 'B', ('x',))]
  out.append(L('one change', one, ['Dim_1'], ctrl='A'))
  two = [('m2', 'B', ('x',)), ('m1', 'A', ('x',)), ('m1', 'B', ('x',)),
         ('m2', 'A', ('x',))]
  out.append(L('two metrics', two, ['Dim_1'], ctrl='A'))
  slices = [('m', 'B', ('y',)), ('m', 'A', ('x',)), ('m', 'A', ('y',)),
            ('m', 'B', ('x',))]
  out.append(L('two slices', slices, ['g'], ctrl='A'))
  big = [(m, e, (g, k)) for g in 'yx' for m in ('m2', 'm1') for e in 'BA'
         for k in (2, 1)]
  partial = [l for i, l in enumerate(big) if i not in (3, 6, 12)]
  for agg in (True, False):
    w = 'agg' if agg else 'flat'
    a = dict(aggregate=agg, ctrl='A')
    out.append(L('two dims:' + w, big, ['g', 'k'], free=[0, 1], **a))
    out.append(L('missing rows:' + w, partial, ['g', 'k'], free=[0, 2], **a))
    out.append(L('hidden control:' + w, slices, ['g'], show_control=False, **a))
    out.append(L('hidden control, value:' + w, slices, ['g'],
                 show_control=False, show_value=True, **a))
    out.append(L('hide null:' + w, slices, ['g'], hide=True,
                 nulls=[(0, 'value'), (1, 'value')], **a))
    out.append(L('null value:' + w, slices, ['g'],
                 nulls=[(0, 'value'), (1, 'value')], **a))
    out.append(L('null bounds:' + w, slices, ['g'],
                 nulls=[(0, 'lower'), (0, 'upper')], **a))
    out.append(L('null ratio:' + w, slices, ['g'],
                 nulls=[(0, 'lower'), (0, 'upper'), (0, 'ratio')], **a))
    out.append(L('all null:' + w, slices, ['g'],
                 nulls=[(0, x) for x in ('value', 'lower', 'upper', 'ratio')],
                 **a))
    out.append(L('flip:' + w, two, ['g'], flip=['m1'], **a))
    out.append(L('flip both:' + w, two, ['g'], flip=('m1', 'm2'), **a))
    out.append(L('metric order:' + w, two, ['g'], metric_order=['m2', 'm1'],
                 **a))
    out.append(L('metric subset:' + w, two, ['g'],
                 metric_order=['m2', 'm0', 'm1'], flip=['m2'], **a))
    out.append(L('info:' + w, slices, ['g'], info=True, **a))
    out.append(L('info, order:' + w, two, ['g'], info=True,
                 metric_order=['m2', 'm1'], **a))
    out.append(L('no description:' + w, slices, ['g'], auto_desc=False, **a))
    out.append(L('description:' + w, slices, ['g'], info=True,
                 desc=['new', 'old', 'old', 'new'], **a))
    out.append(L('some description:' + w, slices, ['g'], info=True,
                 desc=['new', '', '', 'new'], **a))
    out.append(L('range:' + w, slices, ['g'], range=True, **a))
    out.append(L('no dims:' + w, [('m', 'B', ()), ('m', 'A', ())], [], **a))
    out.append(L('three experiments:' + w, [
        (m, e, ('x',)) for e in 'CAB' for m in ('m1', 'm2')], ['g'],
                 free=[0, 2, 4], **a))
    out.append(L('twice:' + w, slices, ['g'], sort_by=[
        dict(column='g', order=['x', 'y'])], twice=True, free=[0, 1], **a))
    for fm in (dict(Value='percent', Ratio='percent'),
               dict(Value='pp', Ratio='pp'), dict(Ratio='percent'),
               dict(Value='percent'), dict(Value='absolute', Ratio='pp'),
               dict(Value='{:.1f}', Ratio='{:.3%}')):
      out.append(L('format %s:%s' % ('+'.join('%s %s' % x for x in sorted(
          fm.items())), w), slices, ['g'], formats=fm, **a))
    out.append(L('format percent hidden:' + w, slices, ['g'],
                 formats=dict(Value='percent', Ratio='percent'),
                 show_control=False, **a))
    # Several controls.
    multi = [('m', e, ('x',)) for e in (3, 1, 4, 2, 0)]
    out.append(L('several controls:' + w, multi, ['g'],
                 **dict(a, ctrl={1: [2, 3], 0: [4]}, info=True, free=[0, 2])))
    out.append(L('several controls hidden:' + w, multi, ['g'], **dict(
        a, ctrl={1: [2, 3], 0: [4]}, show_control=False, free=[0, 2])))
    out.append(L('numeric ids:' + w, [
        ('m', 0, ('',)), ('m', 1, ('',)), ('m', 1, ('x',)), ('m', 0, ('x',))],
                 ['g'], **dict(a, ctrl=0)))
    out.append(L('no control:' + w, [
        ('m', e, ('x',)) for e in 'BA'], ['g'], **dict(a, ctrl=None)))
    out.append(L('no ids:' + w, [
        ('m', None, (g,)) for g in 'yxz'], ['g'], **dict(
            a, ctrl=None, cost=6)))
    out.append(L('no ids, no dims:' + w, [
        (m, None, ()) for m in ('m2', 'm1')], [], **dict(a, ctrl=None)))
    out.append(L('renamed:' + w, slices, ['g'], names=dict(
        metric='what', ratio='change', value='level', ci_upper='hi',
        ci_lower='lo', expr_id='who', description='words'), sort_by=[
            dict(column='who', ascending=False)], **a))
    # Sorting.
    for sn, by in (
        ('dim', [dict(column='g')]),
        ('dim desc', [dict(column='g', ascending=False)]),
        ('id', [dict(column='Experiment_Id', ascending=False)]),
        ('order', [dict(column='g', order=['y', 'x'])]),
        ('order desc', [dict(column='g', order=['y', 'x'], ascending=False)]),
        ('order of ids', [dict(column='Experiment_Id', order=['B', 'A'])]),
        ('two orders', [dict(column='Experiment_Id', order=['B', 'A']),
                        dict(column='g', order=['y', 'x'])]),
        ('dim and id', [dict(column='Experiment_Id', ascending=False),
                        dict(column='g', ascending=True)])):
      out.append(L('sort %s:%s' % (sn, w), slices, ['g'], sort_by=by,
                   free=[0, 1], **a))
    three = [('m', 'B', ('y',)), ('m', 'B', ('z',)), ('m', 'B', ('x',))]
    for f in ('Value', 'Ratio', 'CI_Lower', 'CI_Upper'):
      for asc in (True, False):
        if not asc and f in ('Value', 'CI_Upper') and tier == 'quick':
          continue
        out.append(L('sort by %s %s:%s' % (f, asc, w), three, ['g'], sort_by=[
            dict(column=(f, 'm'), ascending=asc)], cost=4, fields={
                'Value': 'v', 'Ratio': 'rv', 'CI_Lower': 'l', 'CI_Upper': 'h'
            }[f], **dict(
                a, ctrl=None)))
    out.append(L('sort by dim, ratio:' + w, slices, ['g'], sort_by=[
        dict(column='g', ascending=False), dict(column=('Ratio', 'm'))],
                 cost=4, fields='rv', **dict(a, ctrl=None)))
    out.append(L('sort by ratio, control:' + w, slices, ['g'], sort_by=[
        dict(column=('Ratio', 'm'), ascending=False)], cost=4, fields='rl',
                 **a))
    out.append(L('sort by second metric:' + w, [
        (m, 'B', (g,)) for m in ('m1', 'm2') for g in 'yx'], ['g'], sort_by=[
            dict(column=('Value', 'm2'))], cost=4, fields='vh', **dict(
                a, ctrl=None)))
    out.append(L('sort order, no ids:' + w, [
        ('m', None, (g,)) for g in 'yxz'], ['g'], sort_by=[
            dict(column='g', order=['y', 'z', 'x'])], free=[0], **dict(
                a, ctrl=None)))
    # Categorical dimensions: shown in the order of the categories.
    for ordered_ in (False, True):
      v = '%s:%s' % ('ordered' if ordered_ else 'unordered', w)
      c = dict(categories={'g': ['z', 'y', 'u', 'x']}, ordered=ordered_)
      out.append(L('categories %s' % v, slices, ['g'], free=[0, 1], **c, **a))
      out.append(L('categories by name first %s' % v, slices[::-1], ['g'],
                   free=[0, 1], **c, **a))
      out.append(L('categories sorted %s' % v, slices, ['g'], free=[0, 1],
                   sort_by=[dict(column='g', ascending=False)], **c, **a))
      out.append(L('categories reordered %s' % v, slices, ['g'], free=[0, 1],
                   sort_by=[dict(column='g', order=['x', 'y'])], **c, **a))
      out.append(L('categories two dims %s' % v, big, ['g', 'k'], free=[0],
                   **c, **a))
      out.append(L('categories no ids %s' % v, [
          ('m', None, (g,)) for g in 'yxz'], ['g'], free=[0], **c, **dict(
              a, ctrl=None)))
    # Control rows from Control_Value.
    exp = [('m', 'B', ('y',)), ('m', 'C', ('y',)), ('m', 'B', ('x',)),
           ('m', 'C', ('x',))]
    out.append(L('auto control:' + w, exp, ['g'], auto=True, free=[0, 2],
                 control_value=True, **a))
    out.append(L('auto control, some given:' + w, exp + [('m', 'A', ('y',))],
                 ['g'], auto=True, free=[0, 4], control_value=True, **a))
    out.append(L('auto control, two metrics:' + w, [
        (m, 'B', (g,)) for g in 'yx' for m in ('m2', 'm1')], ['g'], auto=True,
                 free=[0, 3], control_value=True, **a))
    out.append(L('auto several controls:' + w, [
        ('m', e, ('x',)) for e in (3, 4, 2)], ['g'], auto=True, free=[0],
                 control_value=True, **dict(a, ctrl={1: [2, 3], 0: [4]})))
  out.append(L('implicit dims', [(m, e, (g, k)) for m, e, (g, k) in partial],
               ['Dim_1', 'Dim_2'], ctrl='A', give_dims=False, free=[1, 4]))
  for n, d in (('first', [False, True]), ('last', [True, False]),
               ('none', [True, True]), ('all', [False, False])):
    out.append(inconsistent(n, d))

  B = bound_scenario
  jk = lambda child, conf=.9: lambda m: m.Jackknife('u', child(m), conf)
  bs = lambda child: lambda m: m.Bootstrap('u', child(m), 3, .9)
  sx = lambda m: m.Sum('x')
  lst = lambda m: m.MetricList([m.Sum('y'), m.Sum('x', name='b'),
                                m.Sum('x', name='a')])
  pc = lambda m: m.PercentChange('c', 'A', m.Sum('x'))
  ac = lambda m: m.AbsoluteChange('c', 'A', m.MetricList([
      m.Sum('y'), m.Mean('x')]))
  for melted in (False, True):
    w = 'long' if melted else 'wide'
    for agg in (True, False):
      v = w + (':agg' if agg else ':flat')
      a = dict(melted=melted, aggregate=agg)
      if agg:
        out.append(B('sum:' + v, jk(sx), None, dict(keys=ONE), **a))
        out.append(B('list:' + v, bs(lst), None, dict(keys=ONE), free=[0, 1],
                     **a))
      out.append(B('sum by g:' + v, jk(sx), ['g'], dict(keys=GRP), **a))
      out.append(B('list by g:' + v, jk(lst), ['g'], dict(keys=GRP),
                   free=[0, 3], **a))
      out.append(B('sorted sum by g:' + v, jk(sx), ['g'], dict(keys=GRP),
                   sort_by=[dict(column=('Ratio', 'sum(x)'),
                                 ascending=False)], **a))
      out.append(B('ordered sum by g:' + v, jk(sx), ['g'], dict(keys=GRP),
                   sort_by=[dict(column='g', order=['b', 'a'])], **a))
      c = dict(keys=CHG, cond=['c'], baseline='A', suffix=PCT,
               formats={'Ratio': 'percent'})
      out.append(B('change:' + v, jk(pc), None, c, **a))
      out.append(B('change hidden:' + v, jk(pc), None, c, show=False, **a))
      out.append(B('change hidden value:' + v, jk(pc), None, c, show=False,
                   show_value=True, **a))
      out.append(B('change described:' + v, jk(pc), None, c,
                   auto_desc=True, info=True, **a))
      out.append(B('change pp:' + v, jk(pc), None, c, formats={'Ratio': 'pp'},
                   **a))
      out.append(B('bs change:' + v, bs(pc), None, c, **a))
      out.append(B('change 0:' + v, jk(
          lambda m: m.PercentChange('c', 0, m.Sum('x'))), None, dict(
              c, keys=ZERO, baseline=0), **a))
      out.append(B('change by g:' + v, jk(pc), ['g'], dict(c, keys=TWO), **a))
      out.append(B('changes:' + v, jk(ac), None, dict(
          keys=CHG, cond=['c'], baseline='A', suffix=ABS), flip=['sum(y)'],
                   **a))
      out.append(B('changes ordered:' + v, jk(ac), None, dict(
          keys=CHG, cond=['c'], baseline='A', suffix=ABS),
                   metric_order=['mean(x)', 'sum(y)'], **a))
      out.append(B('two conditions:' + v, jk(lambda m: m.AbsoluteChange(
          ['c', 'h'], (1, 5), m.Sum('x'))), None, dict(
              keys=MULTI, cond=['c', 'h'], baseline=(1, 5), suffix=ABS),
                   free=[0, 1], **a))
  return out


DEFAULTS = dict(zero_div='assume', max_paths=900, budget_s=60)
THOROUGH = dict(budget_s=400, max_paths=20000)
FUNCTIONS = [
    'confidence_interval_display.get_formatted_df, _pre_aggregate_df, '
    '_sorted_long_to_wide, _merge_dimensions, add_control_rows, '
    '_add_is_control_and_control_id, MetricFormatter, dimension_formatter',
    'operations.get_display_fn, MetricWithCI.add_display_fn (res.display)',
]
EXPLANATION = (
    'The display functions run on long tables and on results of Jackknife and '
    'Bootstrap whose values, changes and bounds are solver variables. '
    'Formatting a variable gives a token, so that the HTML can be read back: '
    'every line and cell has to appear once, show the terms of its own row in '
    'the requested format, and be marked good or bad exactly when both bounds '
    'are on the same side of zero. Sorted tables have to be in order. z3 '
    'decides each of these on every path of the comparisons.')
BOUNDS = (
    'Tables of 1 to 16 lines: up to 2 dimensions, 5 experiments, 3 metrics, '
    'with up to 4 free lines (value, change and bounds unconstrained except '
    'lower <= upper), the other lines fixed; every option in turn, combined '
    'with both layouts; the rows are in the order asked for or, by default, '
    'that of the dimensions (of the categories, if categorical), controls '
    'first.')
OUTSIDE = (
    'Bounds with only one of the two null; duplicate lines; lines with null '
    'keys; experiments missing from a dict of controls; the browser rendering '
    'and CSS; the digits printed for a number (the format of Python floats).')
ASSUMPTIONS = 'lower <= upper; see DESIGN.md for the encoding.'

if __name__ == '__main__':
  harness.main('checks.c19')
