"""Confirms a planted bug and writes it to seeded/<id>/.

usage: plant.py SEEDS.py [id ...] [--no-tests] [--no-check]

SEEDS.py defines SEEDS, a list of dictionaries with id, property, edits (list of
(file, old, new)), demo (python source), needs, breaks. A bug is kept if the demo
passes on the unchanged tree and fails on the changed one, and if the stable tests
still pass with the change. Everything happens in copies of /repo.
"""
import json, os, subprocess, sys, runpy, shutil, textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get('PLANT_WORK', '/tmp/sd')
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# Runs in the root of the repository, exit code 0 if the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
export JAX_PLATFORMS=cpu PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
  e = dict(os.environ); e.update(env or {})
  r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True,
                     timeout=timeout)
  return r.returncode, r.stdout + r.stderr


def run_tests(copy):
  tmp = os.path.join(WORK, 'tfds'); os.makedirs(tmp, exist_ok=True)
  out = os.path.join(WORK, 'junit.xml')
  sh(f'{PY} -m pytest -q -p no:cacheprovider -n 8 -m "not pmap" --timeout=120 '
     f'--junitxml={out} tests', cwd=copy,
     env=dict(JAX_PLATFORMS='cpu', PYTHONPATH=copy, PYTHONHASHSEED='0', TFDS_DATA_DIR=tmp))
  import xml.etree.ElementTree as ET
  bad = []
  n = 0
  for c in ET.parse(out).getroot().iter('testcase'):
    if c.find('failure') is not None or c.find('error') is not None:
      if 'TestTensorflowDataLoader' not in c.get('classname'):
        bad.append(c.get('classname') + '::' + c.get('name'))
    elif c.find('skipped') is None:
      n += 1
  return n, bad


def main():
  args = [a for a in sys.argv[1:] if not a.startswith('--')]
  seeds = runpy.run_path(args[0])['SEEDS']
  wanted = args[1:]
  os.makedirs(WORK, exist_ok=True)
  clean = os.path.join(WORK, 'clean')
  shutil.rmtree(clean, ignore_errors=True)
  sh(f'cp -a /repo {clean}')
  for s in seeds:
    if wanted and s['id'] not in wanted:
      continue
    copy = os.path.join(WORK, s['id'])
    shutil.rmtree(copy, ignore_errors=True)
    sh(f'cp -a /repo {copy}')
    ok = True
    for f, old, new in s['edits']:
      p = os.path.join(copy, f)
      t = open(p).read()
      if t.count(old) != 1:
        print(s['id'], 'EDIT', f, 'matches', t.count(old)); ok = False; break
      open(p, 'w').write(t.replace(old, new))
    if not ok:
      continue
    d = os.path.join(WORK, s['id'] + '.seed')
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(os.path.join(d, 'demo.py'), 'w').write(textwrap.dedent(s['demo']).lstrip())
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    _, diff = sh('git diff', cwd=copy)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    a, oa = sh(f'bash {d}/demo.sh', cwd=clean)
    b, ob = sh(f'bash {d}/demo.sh', cwd=copy)
    line = f"{s['id']:28s} {s['property']} demo clean={a} changed={b}"
    if a != 0 or b == 0:
      print(line, 'DEMO WRONG\n', oa[-1500:] if a else ob[-500:], flush=True)
      continue
    if '--no-check' not in sys.argv:
      rc, out = sh(f'{PY} -W ignore run_check.py {s["property"]}', cwd=HERE,
                   env=dict(VERIF_REPO=copy))
      v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
      line += f' check rc={rc} violations={len(v)}'
    if '--no-tests' not in sys.argv:
      n, bad = run_tests(copy)
      line += f' tests passed={n} failed={bad[:4]}'
      if not bad and n >= 193:
        dest = os.path.join(HERE, 'seeded', s['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        line += ' KEPT'
    print(line, flush=True)
    shutil.rmtree(copy, ignore_errors=True)


main()
