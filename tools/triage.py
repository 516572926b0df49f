"""Prints every violation and undecided scenario of a check (a dev tool)."""
import importlib, multiprocessing as mp, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import harness


def go(i):
  return harness._worker((MOD, i, DEF, TIER, 1, DEF.get('budget_s', 120) * 2))


if __name__ == '__main__':
  MOD = 'checks.' + sys.argv[1]
  only = sys.argv[2].split(',') if len(sys.argv) > 2 else None
  TIER = os.environ.get('VERIF_TIER', 'quick')
  harness.load_meterstick()
  from symx import pdshim
  pdshim.install()
  mod = importlib.import_module(MOD)
  DEF = dict(mod.DEFAULTS)
  sc = [s for s in mod.scenarios(TIER, 1)
        if not only or any(o in s.name for o in only)]
  sc.sort(key=lambda s: -s.opts.get('cost', 1))
  harness._SCN = sc
  t0 = time.time()
  slow = []
  with mp.get_context('fork').Pool(8, maxtasksperchild=25) as pool:
    for r in pool.imap_unordered(go, range(len(sc))):
      slow.append((r['wall_s'], r['name']))
      for v in r['violations'][:2]:
        print('VIOL', r['name'], v['label'], '|', str(v['detail'])[:200])
        print('     ', v['choices'], {k: round(x, 3) for k, x in v['values'].items()})
        for f in v['failures'][:3]:
          print('      ', f[0], str(f[1])[:400])
      for v in r['inconclusive'][:2]:
        print('INC ', r['name'], str(v)[:900])
      sys.stdout.flush()
  print(len(sc), 'scenarios', '%.0fs' % (time.time() - t0),
        ['%s %.0f' % (n, w) for w, n in sorted(slow)[-8:]])
