"""P10: an interval is the point estimate +/- the t quantile times the SE."""
from scipy import stats

from checks import c08, c09, catalog
from checks.c08 import KEYS, LONELY, NAN, W, frame
from symx import draws as draws_lib, harness
from symx.harness import Scenario, norm_key
from symx.opcheck import as_list

PROPERTY = 'P10'
LEVEL = 'other'

ms = catalog.ms
PREFIX = {'Jackknife': 'Jackknife', 'Bootstrap': 'Bootstrap',
          'PoissonBootstrap': 'Poisson Bootstrap'}
CONF = (.9, .5, .975)
# Units that are in one slice only, so that slices have other replicates.
UNEVEN = [
    dict(u=[1, 1, 2, 3, 3, 2], g=['a', 'b', 'a', 'a', 'b', 'c'],
         k=[2, 1, 1, 1, 2, 2], c=['A', 'B', 'B', 'A', 'A', 'B'],
         h=['p', 'q', 'q', 'p', 'p', 'q']),
    dict(u=['z', 'y', 'x', 'w', 'x', 'z'], g=['b', 'b', 'b', 'b', 'a', 'a'],
         k=[1, 1, 1, 2, 2, 2], c=['B', 'A', 'A', 'B', 'B', 'A'],
         h=['p', 'p', 'q', 'p', 'q', 'p']),
]


def intervals(res, split, prefix):
  """{(slice, rest, metric): {'Value', 'lower', 'upper'}} of a wide result."""
  out = {}
  for k, v in catalog.tab(res, split).items():
    metric, stat = k[2]
    name = {'Value': 'Value', prefix + ' CI-lower': 'lower',
            prefix + ' CI-upper': 'upper'}.get(stat, stat)
    out.setdefault((k[0], k[1], metric) + k[3:], {})[name] = v
  return out


def check_intervals(env, label, got, want, conf):
  for k in sorted(set(got) | set(want), key=repr):
    g = got.get(k, {})
    if set(g) - {'Value', 'lower', 'upper'}:
      return env.fail(label, 'columns %s' % sorted(g))
    pt, se, n = want.get(k, (NAN, NAN, 0))
    lo = hi = NAN
    if se is None:
      continue
    if not harness.isnan(se) and not harness.isnan(pt) and n > 1:
      half = se * float(stats.t.ppf((1 + conf) / 2, n - 1))
      lo, hi = pt - half, pt + half
    env.check_cell('%s value@%s' % (label, k), g.get('Value', NAN), pt)
    env.check_cell('%s lower@%s' % (label, k), g.get('lower', NAN), lo)
    env.check_cell('%s upper@%s' % (label, k), g.get('upper', NAN), hi)


def check_base(env, label, base, make, m, df, split, shown=None):
  """The values the changes are relative to, that display() shows."""
  change = make(m)
  if not isinstance(change, (m.AbsoluteChange, m.PercentChange)):
    if base is not None:
      env.fail(label, 'there is a base for %s' % type(change))
    return
  if base is None:
    return env.fail(label, 'no base')
  if list(base.columns) != ['_base_value']:
    return env.fail(label, 'columns %s' % list(base.columns))
  by = split + list(change.extra_index)
  names = ['Metric'] + by
  if list(base.index.names) != names:
    return env.fail(label, 'index names %s' % list(base.index.names))
  got = {}
  for i, k in enumerate(base.index):
    k = k if isinstance(k, tuple) else (k,)
    k = (k[0],) + tuple(map(norm_key, k[1:]))
    if k in got:
      return env.fail(label, 'row %s is there twice' % (k,))
    got[k] = base.iat[i, 0]
  want = {}
  kept = df.query(change.where) if change.where else df
  for s, idx in c09.rows_of(kept, by).items():
    child = make(m).children[0]
    for k, v in catalog.tab(child.compute_on(kept.iloc[idx])).items():
      want[(change.name_tmpl.format(k[2]),) + s] = v
  for k in sorted(set(got) | set(want), key=repr):
    if shown is not None and k not in shown:
      continue
    env.check_cell('%s@%s' % (label, k), got.get(k, NAN), want.get(k, NAN))


def scn(name, make, cols='x', pos='', nulls=None, keys=KEYS, n=5, where=None,
        splits=(None, 'g'), cls='Jackknife', unit='u', n_rep=3,
        optimised=(True, False), keep=None, conf=CONF[:2], outs=None, ws=None,
        **opts):

  def fn(env):
    m = ms()
    df = frame(env, keys, n, cols, pos, nulls)
    sp = as_list(env.pick('split', list(splits)))
    c = env.pick('confidence', list(conf))
    kept = df.query(where) if where else df
    opt = env.pick('optimised', list(optimised)) if unit else True
    kw = dict(confidence=c, enable_optimization=opt, where=where)
    if cls == 'Jackknife':
      got = m.Jackknife(unit, make(m), **kw).compute_on(df, sp)
      want = c08.oracle(env, make, m, kept, unit, sp, keep)
    else:
      draws = draws_lib.Draws(env, unit, outs or outcomes, ws or weights)
      with draws_lib.patched(draws):
        got = getattr(m, cls)(unit, make(m), n_rep, **kw).compute_on(df, sp)
      samples = c09.drawn_rows(env, kept, unit, sp, draws,
                               cls != 'Bootstrap', n_rep)
      if samples is None:
        return
      want = c09.oracle(env, make, m, kept, sp, samples, keep)
    check_intervals(env, 'interval', intervals(got, sp, PREFIX[cls]), want, c)
    check_base(env, 'base', got.meterstick_change_base, make, m, kept, sp)

  return Scenario('%s:%s' % (cls, name), fn, **opts)


def outcomes(i, n):
  some = [tuple(range(n)), (0,) * n, (n - 1,) * n]
  return some[:2] if i == 0 else some[i % 3:i % 3 + 1]


def weights(i, n):
  some = [tuple(j % 3 for j in range(n)), (0,) * (n - 1) + (2,),
          tuple((j + 1) % 2 for j in range(n)), (1,) * n]
  return some if i == 0 else some[i % 4:i % 4 + 1]


def scenarios(tier, seed):
  del tier, seed
  out = []
  N = {'x': [(), (1,), (0, 1)]}

  def jk(name, make, **k):
    out.append(scn(name, make, **k))

  def all_(name, make, **k):
    jk(name, make, **k)
    k.pop('optimised', None)
    for cls in ('Bootstrap', 'PoissonBootstrap'):
      # P09 covers the draws.
      out.append(scn(name, make, cls=cls, **dict(
          k, n=min(k.get('n', 5), 5), conf=k.get('conf', CONF)[-1:],
          keys=k.get('keys', KEYS)[:2])))

  all_('sum', lambda m: m.Sum('x'), keys=UNEVEN, n=6,
       splits=(None, 'g', ['g', 'k']), conf=CONF)
  all_('sum null', lambda m: m.Sum('x'), nulls=N)
  all_('mean', lambda m: m.Mean('x'), keys=UNEVEN, nulls=N)
  all_('ratio', lambda m: m.Ratio('x', 'y'), cols='xy', pos='y', keys=UNEVEN)
  all_('list', lambda m: m.MetricList([m.Sum('x'), m.Mean('y')]), cols='xy',
       keys=UNEVEN, nulls=N)
  all_('arith', lambda m: m.Sum('x') / m.Sum('y') - 1, cols='xy', pos='y',
       keys=UNEVEN)
  all_('where', lambda m: m.Mean('x'), where=W, n=6)
  all_('filter', lambda m: m.Mean('x', where=W), n=6)
  all_('lonely', lambda m: m.Mean('x'), keys=LONELY, n=4)
  all_('abs', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x')), keys=UNEVEN,
       n=6)
  all_('pct', lambda m: m.PercentChange('c', 'A', m.Mean('x')), pos='x',
       keys=UNEVEN, n=6, nulls={'x': [(), (1,)]})
  all_('base', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x'), True), n=5)
  all_('filtered change', lambda m: m.AbsoluteChange(
      'c', 'A', m.Mean('x', where='k < 2'), where=W), n=6, keep=[W, 'k < 2'])
  all_('change where', lambda m: m.AbsoluteChange('c', 'A', m.Sum('x')),
       where=W, n=6)
  all_('change list', lambda m: m.PercentChange('c', 'A', m.MetricList(
      [m.Mean('x'), m.Sum('y') / m.Count('y')])), cols='xy', pos='xy', n=5)
  all_('multi change', lambda m: m.AbsoluteChange(
      ['c', 'k'], ('A', 2), m.Mean('x')), keys=KEYS[:2], n=6)
  all_('dist', lambda m: m.Distribution('h', m.Sum('x')), pos='x')
  jk('var', lambda m: m.Variance('x', False), n=4, cost=3)
  jk('max', lambda m: m.Max('x'), n=4, cost=3, keys=UNEVEN)
  for cls in ('Bootstrap', 'PoissonBootstrap'):
    out.append(scn('rows', lambda m: m.Sum('x'), unit=None, n=4, cls=cls,
                   nulls=N))
    out.append(scn('rows change', lambda m: m.AbsoluteChange(
        'c', 'A', m.Mean('x')), unit=None, n=5, cls=cls))
  return out


DEFAULTS = dict(intern=True, budget_s=90, max_paths=3000, zero_div='assume')
THOROUGH = dict(budget_s=400, max_paths=20000)
FUNCTIONS = ['operations.MetricWithCI (compute_slices, compute_on_children, '
             'get_stderrs_or_ci_half_width, get_stderrs, get_ci_width, '
             'compute_ci, compute_change_base, add_base_to_res, manipulate)',
             'operations.Jackknife, Bootstrap, PoissonBootstrap',
             'utils.melt / unmelt']
EXPLANATION = (
    'Jackknife and the bootstraps are run symbolically with a confidence on '
    'both paths.  The oracle computes point estimate, standard error and the '
    'number of valid replicates of each slice from the definitions (see P08, '
    'P09) and the t quantile from scipy; the solver decides that the bounds '
    'are their combination for all cell values.  The base values kept for '
    'display() are compared with the child of the change on the rows of each '
    'slice and condition.')
BOUNDS = {
    'quick': '4-6 rows, 2-4 units, up to 4 key patterns incl. units in one '
             'slice only, confidence .5/.9/.975, 3 bootstrap replicates with '
             'a few draws, 0-3 split columns, about 20 children',
    'thorough': 'as quick with a budget of 400 s and 20000 paths per scenario',
}
OUTSIDE = ['other confidence levels (the quantile is a number computed by '
           'scipy)', 'more rows, units or replicates', 'compute_on_sql (P16)',
           'the formatting in display() (P19)']
ASSUMPTIONS = ['real arithmetic instead of float64', 'denominators are not '
               'zero on the explored paths', 'scipy.stats.t.ppf is right']

if __name__ == '__main__':
  harness.main('checks.c10')
