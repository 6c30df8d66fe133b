"""Runs the harnesses concretely on random inputs: all must be quiet on /repo.

Sanity check of the replay machinery, decides nothing.  concrete.py ID... [salts]
"""
import importlib
import os
import sys
import time

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('XLA_FLAGS', '--xla_force_host_platform_device_count=20')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vsym import harness  # noqa: E402
harness.load_repo()
for pid in [a for a in sys.argv[1:] if a.startswith('P')]:
  chk = importlib.import_module(f'props.{pid.lower()}').CHECK
  salts = int(sys.argv[-1]) if sys.argv[-1].isdigit() else 3
  for hname, cfg in chk.cases_of(os.environ.get('VERIF_TIER', 'quick')):
    t0 = time.time()
    for salt in range(1, salts + 1):
      msg = chk.concrete(hname, cfg, {}, {}, salt)
      if msg:
        print(pid, hname, cfg, salt, msg[:300], flush=True)
        break
      if time.time() - t0 > 40:
        break
  print(pid, 'done', flush=True)
os._exit(0)
