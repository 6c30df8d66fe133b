"""Runs the check of one property: run_check.py ID [--replay FILE] [--only H]."""
import argparse
import importlib
import json
import os
import sys

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('XLA_FLAGS', '--xla_force_host_platform_device_count=20')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('id')
  ap.add_argument('--replay')
  ap.add_argument('--only')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--worker')
  a = ap.parse_args()
  sys.setrecursionlimit(20000)
  from vsym import harness
  harness.load_repo()
  mod = importlib.import_module(f'props.{a.id.lower()}')
  chk = mod.CHECK
  if a.replay:
    with open(a.replay) as f:
      v = json.load(f)
    msg = chk.concrete(v['harness'], v['config'], v['values'], v['ufs'], v['salt'])
    print(msg or 'not reproduced')
    return 1 if msg else 0
  if a.worker:
    wdir, wid = a.worker.rsplit(':', 1)
    chk.worker(a.tier, a.only, wdir, wid)
    return 0
  known = []
  kf = os.path.join(HERE, 'known_findings.json')
  if os.path.exists(kf):
    with open(kf) as f:
      known = json.load(f).get('findings', [])
  return chk.main(a.tier, int(os.environ.get('VERIF_SEED', '1')), known,
                  os.environ.get('VERIF_OUT', HERE),
                  a.only)


if __name__ == '__main__':
  sys.stdout.flush()
  rc = main()
  sys.stdout.flush()
  os._exit(rc)
