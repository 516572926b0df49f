"""P11: HHI, Entropy, TopK and Nxx equal their definitions."""
from checks.c07 import CH
from symx import data, harness, opcheck, ref
from symx.harness import Scenario
from symx.opcheck import NAN, as_list

PROPERTY = 'P11'
LEVEL = 'other'


def ms():
  return harness.load_meterstick()


KEYS = [
    dict(g=['b', 'a', 'a', 'b', 'b'], k=[2, 1, 1, 2, 1],
         h=['p', 'q', 'p', 'r', 'p']),
    dict(g=['a', 'b', 'b', 'c', 'a'], k=[1, 1, 1, 2, 1],
         h=['q', 'q', 'p', 'p', 'r']),
    dict(g=['a'] * 5, k=[1, 2, 1, 2, 1], h=['r', 'q', 'q', 'p', 'p']),
]


def hhi(env, shares):
  return ref.total(env, [p * p for p in shares])


def entropy(env, shares):
  r = 0
  for p in shares:
    if p > 0:  # A zero share contributes nothing.
      r = r - p * env.log(p)
  return r


def topk(k):
  def f(env, shares):
    order = ref.argsort(shares, reverse=True)
    return ref.total(env, [shares[i] for i in order[:k]])
  return f


def nxx(share):
  def f(env, shares):
    acc = 0
    for j, i in enumerate(ref.argsort(shares, reverse=True)):
      acc = shares[i] + acc
      if acc >= share:
        return j + 1
    return len(shares) + 1
  return f


OPS = {
    'HHI': (lambda m, o, c: m.HHI(o, c), hhi, 'HHI of %s'),
    'Entropy': (lambda m, o, c: m.Entropy(o, c), entropy, 'Entropy of %s'),
    'Top1': (lambda m, o, c: m.TopK(o, 1, c), topk(1), "Top-1's share of %s"),
    'Top2': (lambda m, o, c: m.TopK(o, 2, c), topk(2), "Top-2's share of %s"),
    'Top9': (lambda m, o, c: m.TopK(o, 9, c), topk(9), "Top-9's share of %s"),
    'N50': (lambda m, o, c: m.Nxx(o, 0.5, c), nxx(0.5), 'N(50) of %s'),
    'N25': (lambda m, o, c: m.Nxx(o, 0.25, c), nxx(0.25), 'N(25) of %s'),
    'N12': (lambda m, o, c: m.Nxx(o, 0.125, c), nxx(0.125), 'N(12.5) of %s'),
}


def scn(name, op, child, over='h', splits=(None, 'g', ['k', 'g']), keys=KEYS,
        nulls=((),), cut=None, where=False, zero=False, **opts):
  make_op, formula, tmpl = OPS[op]
  make, cols = CH[child]
  if zero:
    opts['log_domain'] = 'fork'

  def fn(env):
    m = ms()
    ks = env.pick('keys', keys)
    n = cut or len(ks['g'])
    x = env.reals('x', n, pos=not zero, nonneg=zero)
    x = data.with_nulls(x, env.pick('null', list(nulls)))
    y = env.reals('y', n, pos=True)
    t = opcheck.Table(env, {k: v[:n] for k, v in ks.items()}, dict(x=x, y=y))
    split = env.pick('split', list(splits))
    sp, ov = as_list(split), as_list(over)
    met = make_op(m, over, make(m))
    rows = None
    if where:
      rows = [i for i in range(n) if t.vals['y'][i] > 2]
      if not rows:
        env.assume(False)
      met = met.add_where('y > 2') or met
    df = t.df(index=env.pick('index', [None, [3] * n]))
    before = df.copy()
    want = {}
    for sk, rs in t.groups(sp, rows).items():
      cells = t.groups(ov, rs)
      for c, f in cols.items():
        raw = [v for v in (f(env, t, r) for r in cells.values())
               if not harness.isnan(v)]
        if zero and not any(v > 0 for v in raw):
          env.assume(False)  # No total, no shares.
        tot = ref.total(env, raw)
        want[(sk, tmpl % c)] = formula(env, [
            env.div(v, tot) for v in raw]) if raw else None
    got = met.compute_on(df, split)
    # A slice without any value: null or the value of an empty distribution.
    for k in [k for k, v in want.items() if v is None]:
      del want[k]
      if sp:
        if k[0] in [opcheck.tup(harness.norm_key(i)) for i in got.index]:
          got = got.astype(object)
          got.loc[k[0] if len(k[0]) > 1 else k[0][0], k[1]] = NAN
    opcheck.expect(env, name, got, want, sp or [None],
                   [tmpl % c for c in cols])
    env.check_eq('input frame', df, before)

  return Scenario(name, fn, **opts)


def scenarios(tier, seed):
  del seed
  out = []
  N = ((), (1,), (0, 4))
  for op in OPS:
    sort = op[0] in 'TN'
    c4 = 4 if sort else None
    spl = (None, 'g') if sort else (None, 'g', ['k', 'g'])
    out.append(scn(op + ':sum', op, 'sum', cut=c4))
    out.append(scn(op + ':list', op, 'list', nulls=N if not sort else
                   ((), (1,)), cut=3 if sort else None, splits=spl,
                   cost=3))
    out.append(scn(op + ':comp', op, 'comp', cut=3 if sort else None,
                   splits=spl))
    out.append(scn(op + ':two', op, 'sum', over=['h', 'k'],
                   splits=(None, 'g'), cut=3 if sort else 4))
    if op in ('HHI', 'Entropy', 'Top2', 'N50'):
      out.append(scn(op + ':mean', op, 'mean', nulls=N, cut=c4,
                     splits=spl))
      out.append(scn(op + ':zero', op, 'sum', zero=True, cut=3, cost=2,
                     splits=spl))
      out.append(scn(op + ':where', op, 'sum', where=True, cut=3, cost=2,
                     splits=(None, 'g')))
  if tier == 'thorough':
    big = [dict(g=['b', 'a', 'a', 'b', 'b', 'a'], k=[2, 1, 1, 2, 1, 2],
                h=['p', 'q', 'p', 'r', 'p', 'r'])]
    for op in OPS:
      out.append(scn('big:%s' % op, op, 'sum', keys=big, cost=9))
      out.append(scn('big:%s:list' % op, op, 'list', keys=big, cut=5, cost=9,
                     nulls=N if op[0] not in 'TN' else ((), (1,))))
  return out


DEFAULTS = dict(budget_s=120)
THOROUGH = dict(budget_s=900, max_paths=30000)
FUNCTIONS = ['diversity.py: HHI, Entropy, TopK, Nxx .compute_on_children, '
             'nxx_for_one_col, to_dataframe',
             'operations.py: Distribution.compute_on_children']
EXPLANATION = (
    'compute_on of the diversity metrics is executed on frames with symbolic '
    'cells and compared with the definitions on the shares of every slice; '
    'the logarithm is an uninterpreted function, congruent in its argument.')
BOUNDS = dict(quick='3-5 rows, up to 3 values of over and 3 slices in 3 key '
              'patterns, null cells, zero shares, 0-2 split columns, 1-2 over '
              'columns', thorough='also 6 rows')
OUTSIDE = ['floating point rounding', 'negative shares',
           'the value reported for a slice without any non-null value']
ASSUMPTIONS = ['reals for floats', 'non-zero totals']

if __name__ == '__main__':
  harness.main('checks.c11')
