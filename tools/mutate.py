"""Mutation campaign: small changes of jax_sgmc, and which check notices them.

usage: mutate.py FILE[,FILE] OUT.jsonl [--n N] [--seed S] [--jobs J]

Makes mutants of the files (relative to /repo/jax_sgmc) in copies under /tmp/mut, runs
the checks that concern the file until one reports a violation, and appends a line per
mutant to OUT. A tool to find weak spots; no registered check uses it.
"""
import ast, json, os, random, shutil, subprocess, sys, difflib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
import warnings
warnings.simplefilter('ignore')
CHECKS = {
  'adaption.py': 'P14 P10 P16', 'alias.py': 'P16 P13', 'integrator.py': 'P10 P13 P11 P16',
  'io.py': 'P09 P08', 'potential.py': 'P06 P10 P11 P16', 'scheduler.py': 'P07 P13 P16',
  'solver.py': 'P11 P12 P13 P08 P16', 'data/core.py': 'P01 P03 P05 P02 P06 P16',
  'data/numpy_loader.py': 'P02 P04 P01 P05', 'data/hdf5_loader.py': 'P01 P02 P04 P05',
  'util/list_map.py': 'P15 P07 P08', 'util/tree_util.py': 'P15 P14',
  'util/uuid.py': 'P08 P05 P03',
}


def seg(src, node):
  lines = src.splitlines(keepends=True)
  a = sum(len(l) for l in lines[:node.lineno - 1]) + len(
    lines[node.lineno - 1].encode()[:node.col_offset].decode())
  b = sum(len(l) for l in lines[:node.end_lineno - 1]) + len(
    lines[node.end_lineno - 1].encode()[:node.end_col_offset].decode())
  return a, b


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/',
       ast.Mod: '//', ast.Pow: '*', ast.MatMult: '*'}


def mutants(src):
  tree = ast.parse(src)
  out = []
  text = lambda n: src[slice(*seg(src, n))]

  def put(n, new, what):
    out.append((seg(src, n), new, what, n.lineno))
  annotations = set()
  for n in ast.walk(tree):
    for f in ('annotation', 'returns'):
      a = getattr(n, f, None)
      if isinstance(a, ast.AST):
        annotations.update(id(x) for x in ast.walk(a))
  for fn in ast.walk(tree):
    if not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
      continue
    if isinstance(fn, ast.FunctionDef):
      names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name)
                      and isinstance(n.ctx, ast.Store)} |
                     {a.arg for a in fn.args.args})
    else:
      names = []
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for st in body:
      for n in ast.walk(st):
        if id(n) in annotations:
          continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
          put(n, f'{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}', 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
          put(n, f'({text(n.left)}) {BIN[type(n.op)]} ({text(n.right)})', 'arith')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
          put(n, text(n.operand), 'unary')
        elif isinstance(n, ast.BoolOp):
          op = ' or ' if isinstance(n.op, ast.And) else ' and '
          put(n, op.join(text(v) for v in n.values), 'bool')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
          put(n, str(not n.value), 'const')
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
          put(n, repr(n.value + 1), 'const')
        elif isinstance(n, ast.If):
          put(n.test, f'not ({text(n.test)})', 'cond')
        elif isinstance(n, ast.IfExp):
          put(n.test, f'not ({text(n.test)})', 'cond')
        elif isinstance(n, ast.Call):
          if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            x, y = seg(src, n.args[0]), seg(src, n.args[1])
            (a, b), t = (x[0], y[1]), text(n.args[1]) + ', ' + text(n.args[0])
            out.append(((a, b), t, 'swap', n.lineno))
          if len(n.args) == 1 and not n.keywords and not isinstance(
              n.args[0], ast.Starred) and text(n.func) not in (
                'len', 'str', 'int', 'tuple', 'list', 'iter'):
            put(n, text(n.args[0]), 'unwrap')
          for k in n.keywords:
            if k.arg:
              a = src.rfind(k.arg, 0, seg(src, k.value)[0])
              b = seg(src, k.value)[1]
              rest = src[b:]
              m = len(rest) - len(rest.lstrip())
              if rest.lstrip().startswith(','):
                b += m + 1
              out.append(((a, b), '', 'dropkw', n.lineno))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
          others = [o for o in names if o != n.id]
          close = difflib.get_close_matches(n.id, others, 2, 0.5)
          for o in close:
            put(n, o, 'name')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(
            n.targets[0] if isinstance(n, ast.Assign) else n.target,
            (ast.Subscript, ast.Attribute)) or isinstance(n, ast.AugAssign):
          put(n, 'pass', 'delete')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
          put(n, 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(
            n.value, ast.Name):
          pass
  seen, res = set(), []
  for m in out:
    k = (m[0], m[1])
    if k in seen:
      continue
    seen.add(k)
    new = src[:m[0][0]] + m[1] + src[m[0][1]:]
    try:
      ast.parse(new)
    except SyntaxError:
      continue
    res.append((new, m[2], m[3]))
  return res


def main():
  a = sys.argv[1:]
  opt = {a[i]: a[i + 1] for i in range(len(a)) if a[i].startswith('--')}
  files, out = a[0].split(','), a[1]
  jobs = int(opt.get('--jobs', '2'))
  rnd = random.Random(int(opt.get('--seed', '1')))
  done = set()
  if os.path.exists(out):
    done = {tuple(json.loads(l)['id']) for l in open(out)}
  todo = []
  for f in files:
    src = open(f'{REPO}/jax_sgmc/{f}').read()
    ms = mutants(src)
    pick = rnd.sample(range(len(ms)), min(len(ms), int(opt.get('--n', '40'))))
    print(f, len(ms), 'mutants,', len(pick), 'chosen', flush=True)
    todo += [(f, k, src, ms[k]) for k in sorted(pick) if (f, k) not in done]

  def run(job):
    f, k, src, (new, what, line) = job
    d = f'/tmp/mut/{f.replace("/", "_")}_{k}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(REPO + '/jax_sgmc', d + '/jax_sgmc')
    with open(f'{d}/jax_sgmc/{f}', 'w') as g:
      g.write(new)
    env = dict(os.environ, VERIF_REPO=d, VERIF_FAST='1', VERIF_JOBS='4', VERIF_OUT=d)
    res, by = {}, None
    for p in CHECKS[f].split():
      try:
        r = subprocess.run([PY, '-W', 'ignore', HERE + '/run_check.py', p], env=env,
                           capture_output=True, text=True, timeout=1000)
        rc, tail = r.returncode, [l for l in r.stdout.splitlines() if l[:2] != '[S']
      except subprocess.TimeoutExpired:
        rc, tail = 'timeout', []
      res[p] = rc
      if rc == 1:
        by = p
        break
      if rc != 0:
        res[p] = [rc, (tail or ['?'])[0][:300]]
      elif any('INCONCLUSIVE' in t for t in tail):
        res[p] = [0, next(t for t in tail if 'INCONCLUSIVE' in t)[:300]]
    shutil.rmtree(d, ignore_errors=True)
    diff = ''.join(l for l in difflib.unified_diff(
      src.splitlines(True), new.splitlines(True), n=0) if l[:2] not in ('--', '++'))
    with open(out, 'a') as g:
      g.write(json.dumps(dict(id=[f, k], what=what, line=line, by=by, res=res,
                              diff=diff)) + '\n')
    return f, k, what, by
  n = c = 0
  with ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(run, todo):
      n += 1
      c += r[3] is not None
      if r[3] is None:
        print('missed', r, flush=True)
  print(f'{c} of {n} noticed')


main()
