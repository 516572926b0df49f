"""Writes MANIFEST.json from the checks that exist (run by hand; committed)."""
import importlib.util, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TV = {'P14', 'P15', 'P16', 'P18'}
NA = {}
p = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(p):
  NA = json.load(open(p))
checks, na = [], []
for d in props:
  i = d['id']
  mod = 'c' + i[1:]
  if os.path.exists(os.path.join(V, 'checks', mod + '.py')) and i not in NA:
    src = open(os.path.join(V, 'checks', mod + '.py')).read()
    level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
    if i in TV:
      tech = ('symbolic execution of compute_on_sql/compute_on over symbolic '
              'tables, generated SQL evaluated symbolically, equality decided '
              'by z3 (translation validation)')
      note = ('For every real value of the cells within the stated table '
              'shapes the SQL result equals the pandas result; trusts the '
              'BigQuery evaluator symx/sqlrun.py, the pandas kernel shims and '
              'real arithmetic in place of floats. Counterexamples are '
              'replayed on the unpatched code.')
    else:
      tech = ('symbolic execution of the real Python code on pandas frames '
              'with symbolic cells; z3 decides every assertion on every path')
      note = ('For every real value of the cells within the stated table '
              'shapes, key patterns and options; trusts the pandas kernel '
              'shims (validated by concrete twins of explored paths) and real '
              'arithmetic in place of floats. Counterexamples are replayed on '
              'the unpatched code.')
    checks.append(dict(
        property=i, quick_cmd='./run.sh ' + mod,
        thorough_cmd='VERIF_TIER=thorough ./run.sh ' + mod,
        evidence_file='evidence/%s.json' % i, technique=tech, level=level,
        level_note=note))
  else:
    na.append(dict(property=i, reason=NA.get(
        i, 'No check registered yet; see DESIGN.md.')))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -B -c "import symx.harness as h; '
         'h.load_meterstick(); import symx.core"',
         checks=checks, not_applicable=na,
         notes='No hooks are needed: the checks import /repo and replace pandas kernels from outside.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print([c['property'] for c in checks])
