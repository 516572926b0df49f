"""Bounded table shapes shared by the checks."""
import itertools

NAN = float('nan')

G4 = [['b', 'a', 'a', 'b'], ['a', 'b', 'b', 'b'], ['a', 'a', 'a', 'a'],
      ['b', 'a', 'c', 'a']]
G4_ALL = [list(t) for t in itertools.product('ab', repeat=4)]
G5 = [list(t) for t in itertools.product('ab', repeat=5)]
NULLS4 = [(), (0,), (1, 2), (0, 1, 2, 3)]


def null_patterns(n):
  return [c for k in range(n + 1) for c in itertools.combinations(range(n), k)]


def with_nulls(xs, pattern):
  return [NAN if i in pattern else x for i, x in enumerate(xs)]


def ints(keys):
  """Deterministic positions per key."""
  out = {}
  for i, k in enumerate(keys):
    out.setdefault(k, []).append(i)
  return out


def by_key(keys):
  out = ints(keys)
  return {k: out[k] for k in sorted(out)}
