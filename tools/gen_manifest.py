"""Writes MANIFEST.json from the checks present in props/."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Every assertion is discharged by z3 for all values of the symbolic inputs on "
        "every feasible path of the real functions, within the sizes and steps listed as "
        "bounds in the evidence. Trusted: the symbolic interpreter of JAX primitives "
        "(vsym), exact real arithmetic in place of float32, uninterpreted models of "
        "random number generators and user functions. Counterexamples are replayed on "
        "the real code before they are reported.")
PY = '/opt/venv/bin/python run_check.py'
checks, na = [], []
extra = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
for line in open(os.path.join(HERE, 'properties.jsonl')):
  p = json.loads(line)
  i = p['id']
  if os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')):
    checks.append(dict(property=i, quick_cmd=f'{PY} {i}',
                       thorough_cmd=f'{PY} {i} --tier thorough',
                       technique='bounded symbolic execution of the real JAX code, '
                       'z3 decides every assertion',
                       level='other', level_note=NOTE + extra.get(i, '')))
  else:
    na.append(dict(property=i, reason=extra.get(i, 'No check yet.')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import z3, jax" || '
         '/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na)
m['setup_cmd'] = '/opt/venv/bin/python tools/setup.py'
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
