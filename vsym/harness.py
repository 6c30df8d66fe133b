"""Harness context, symbolic runs, concrete replay, evidence."""
import contextlib
import hashlib
import json
import os
import sys
import time
import traceback
import warnings
from fractions import Fraction

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
from jax import tree_util  # noqa: E402
from jax.experimental import enable_x64  # noqa: E402

from . import scope
from . import terms as t  # noqa: E402
from . import trace, stubs, bits, fp  # noqa: E402
from .terms import z3  # noqa: E402
from .trace import SV  # noqa: E402
from .engine import Engine, Unsupported, Budget, PathAbort  # noqa: E402

stubs.install()

REPO = os.environ.get('VERIF_REPO', '/repo')
PROMPT_PY = []
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET_S = 800         # of a quick run; what is not finished then is undecided


class Reject(Exception):
  """A concrete assignment violates an assumption of the harness."""


class Failed(Exception):
  """A concrete check failed."""


class Refuted(Exception):
  def __init__(self, label, model, detail='', values=None):
    self.label, self.model, self.detail = label, model, detail
    self.values = values or {}


class Inconclusive(Exception):
  pass


def load_repo():
  """Imports jax_sgmc from the working tree under check."""
  if REPO not in sys.path:
    sys.path.insert(0, REPO)
  import jax_sgmc  # noqa: F401
  assert os.path.abspath(jax_sgmc.__file__).startswith(os.path.abspath(REPO)), \
      jax_sgmc.__file__
  from jax_sgmc.data import numpy_loader, core as dcore
  from jax_sgmc import io
  for m in list(sys.modules.values()):
    if getattr(m, '__name__', '').startswith('jax_sgmc'):
      stubs.shim_numpy(m)


# -- function coverage -------------------------------------------------------

COVERED = set()


def start_coverage():
  mon = sys.monitoring
  tool = 4
  mon.use_tool_id(tool, 'verif')
  root = os.path.join(os.path.abspath(REPO), 'jax_sgmc')

  def on_start(code, _):
    if code.co_filename.startswith(root):
      COVERED.add(os.path.relpath(code.co_filename, REPO) + ':' + code.co_qualname)
    return mon.DISABLE
  mon.register_callback(tool, mon.events.PY_START, on_start)
  mon.set_events(tool, mon.events.PY_START)


# -- oracle arithmetic -------------------------------------------------------

def _lift1(fs, fc):
  def go(x):
    r = stubs.run()
    a = np.asarray(x, dtype=object) if r.sym else np.asarray(x, dtype=float)
    if r.sym:
      out = np.empty(a.shape, object)
      for i in np.ndindex(a.shape):
        out[i] = SV(fs(trace.unwrap(a[i])))
      return out if out.shape else out[()]
    with np.errstate(all='ignore'):
      return fc(a)
  return go


def _lift2(fs, fc):
  def go(x, y):
    r = stubs.run()
    if r.sym:
      a, b = np.broadcast_arrays(np.asarray(x, dtype=object),
                                 np.asarray(y, dtype=object))
      out = np.empty(a.shape, object)
      for i in np.ndindex(a.shape):
        out[i] = SV(fs(trace.unwrap(a[i]), trace.unwrap(b[i])))
      return out if out.shape else out[()]
    with np.errstate(all='ignore'):
      return fc(np.asarray(x, float), np.asarray(y, float))
  return go


sqrt = _lift1(lambda a: t.sqrt(t.to_real(a)), np.sqrt)
exp = _lift1(lambda a: t.exp(t.to_real(a)), np.exp)
log = _lift1(lambda a: t.log(t.to_real(a)), np.log)
power = _lift2(lambda a, b: t.power(t.to_real(a), b), np.power)
minimum = _lift2(t.minimum, np.minimum)
maximum = _lift2(t.maximum, np.maximum)


def where(c, a, b):
  r = stubs.run()
  if not r.sym:
    return np.where(np.asarray(c, bool), np.asarray(a, float), np.asarray(b, float))
  c, a, b = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in (c, a, b)])
  out = np.empty(a.shape, object)
  for i in np.ndindex(a.shape):
    out[i] = SV(t.ite(trace.unwrap(c[i]), trace.unwrap(a[i]), trace.unwrap(b[i])))
  return out if out.shape else out[()]


def land(*cs):
  r = stubs.run()
  acc = True
  for c in cs:
    c = trace.unwrap(c) if r.sym else bool(c)
    acc = t.land(acc, c) if r.sym else (acc and c)
  return SV(acc) if r.sym else acc


def lor(*cs):
  r = stubs.run()
  acc = False
  for c in cs:
    c = trace.unwrap(c) if r.sym else bool(c)
    acc = t.lor(acc, c) if r.sym else (acc or c)
  return SV(acc) if r.sym else acc


def lnot(c):
  return SV(t.lnot(trace.unwrap(c))) if stubs.run().sym else not c


def frac(a, b=1):
  return Fraction(a, b) if stubs.run().sym else a / b


def val(x):
  """Array-like result of the real code -> array of oracle scalars."""
  r = stubs.run()
  if r.sym:
    o = trace.to_obj(x)
    out = np.empty(o.shape, object)
    for i in np.ndindex(o.shape):
      out[i] = SV(o[i])
    return out
  a = np.asarray(x)
  if a.dtype == object:
    a = a.astype(float)
  return a.astype(float) if a.dtype != bool else a


def leaves(tree):
  return [val(x) for x in tree_util.tree_leaves(tree)]


def flat(tree):
  """All leaves as one flat vector of oracle scalars."""
  ls = [np.ravel(x) for x in leaves(tree)]
  return np.concatenate(ls) if ls else np.zeros(0)


def ufv(name, *args, shape=()):
  """Oracle-side application of an uninterpreted function (cf. stubs.UF)."""
  r = stubs.run()
  fl = []
  for a in args:
    fl += [trace.unwrap(x) if r.sym else float(x) for x in np.ravel(
      np.asarray(a, dtype=object))]
  out = np.empty(tuple(shape), object)
  for j in np.ndindex(tuple(shape)):
    v = stubs.uf_scalar(f"{name}{list(j)}", fl)
    out[j] = SV(v) if r.sym else v
  if not r.sym:
    out = out.astype(float)
  return out if shape else out[()]


class H:
  """What a harness function sees."""

  def __init__(self, check, cfg):
    self.check, self.cfg = check, cfg
    self.run = stubs.run()
    self.sym = self.run.sym

  # inputs
  def scalar(self, name, kind='real', lo=None, hi=None, strict=False):
    v = stubs.draw(name, kind, lo, hi, strict)
    return SV(v) if self.sym else v

  def array(self, name, shape=(), kind='real', lo=None, hi=None, strict=False,
            dtype=None):
    shape = tuple(shape)
    out = np.empty(shape, object)
    for i in np.ndindex(shape):
      nm = name if not shape else f"{name}{list(i)}"
      out[i] = stubs.draw(nm, kind, lo, hi, strict)
    dt = dtype or {'real': np.float32, 'int': np.int32, 'bool': np.bool_}[kind]
    if self.sym:
      return trace.make(out, dt)
    if kind == 'real' and dtype is None:
      dt = jax.dtypes.canonicalize_dtype(np.float64)
    return jnp.asarray(out.astype(dt))

  def pos(self, name, shape=()):
    return self.array(name, shape, lo=0, strict=True)

  def host(self, name, shape, kind='real', lo=None, hi=None, dtype=np.float32):
    """numpy array for host code (SymData when symbolic)"""
    out = np.empty(tuple(shape), object)
    for i in np.ndindex(tuple(shape)):
      out[i] = stubs.draw(f"{name}{list(i)}", kind, lo, hi)
    if self.sym:
      for i in np.ndindex(tuple(shape)):
        out[i] = SV(out[i])
      return stubs.SymData(out, dtype)
    return out.astype(dtype)

  def bits(self, name, width):
    """A non-negative integer of the given number of bits."""
    if self.sym:
      self.widths = dict(getattr(self, 'widths', {}), **{name: width})
      return bits.var(name, width)
    if name in self.run.values:
      return int(self.run.values[name])
    return sum(int(self.run.rnd(f"{name}{k}") * 65536) << k
               for k in range(0, width, 16)) % 2 ** width

  def bits_hold(self, label, goal, *assume):
    """goal(): a z3 formula over bits, or a condition on plain integers"""
    self.check.count(label)
    if not self.sym:
      if not all(a() for a in assume):
        raise Reject()
      if not goal():
        raise Failed(f"{label}: condition is false")
      return
    self.check.obligations += 1
    s = t.z3.Solver()
    s.set('timeout', self.check.timeout_ms)
    t0 = time.time()
    s.add(*[a() for a in assume], t.z3.Not(goal()))
    res = s.check()
    t.STATS.queries += 1
    t.STATS.solver_s += time.time() - t0
    if res == t.z3.unsat:
      t.STATS.unsat += 1
      self.check.discharged += 1
      return
    if res == t.z3.unknown:
      t.STATS.unknown += 1
      raise Inconclusive(f"{label}: solver gave up")
    t.STATS.sat += 1
    m = s.model()
    raise Refuted(label, None, 'bits', {
      n: m.eval(t.z3.BitVec(n, w), model_completion=True).as_long()
      for n, w in self.widths.items()})

  def floats(self, *names):
    """Arbitrary IEEE single precision numbers (NaN and infinities included)."""
    xs = [self.bits(n, 32) for n in names]
    if self.sym:
      return [t.z3.fpBVToFP(t.z3.BitVec(n, 32), fp.F32) for n in names]
    return [np.array(x, np.uint32).view(np.float32)[()] for x in xs]

  def on_floats(self, f, args, uniform=None, rough=False):
    """f on single precision numbers -> (results, conditions on them, axioms)"""
    if self.sym:
      res, axioms = fp.run(f, args, uniform, rough)
      return res, fp.Z, axioms
    with fp.drawn(None if uniform is None else jnp.asarray(uniform)):
      res = f(*[jnp.asarray(a) for a in args])
    return jax.tree_util.tree_map(lambda x: np.asarray(x)[()], res), fp.C, []

  def key(self, name='k'):
    return jnp.asarray(np.array(stubs._mk(self.run, name), np.uint32))

  def assume(self, c):
    if self.sym:
      self.run.engine.assume(trace.unwrap(c))
    elif not bool(c):
      raise Reject()

  def fork(self, c):
    """Python bool of a condition (explores both sides)."""
    return bool(c)

  def pick(self, name, options):
    """A symbolic choice among finitely many options (explores all)."""
    n, r = len(options), self.run
    if self.sym:
      v = t.T.input(name, 'int')
      if name not in r.draws or v.get_id() in r.engine.forked:
        r.draws[name] = 'int'
        k = r.engine.fork(v, n)
        if k >= n:
          raise PathAbort()
        return options[k]
    return options[int(self.scalar(name, 'int', 0, n - 1))]

  # checks
  def true(self, label, c):
    self.check.count(label)
    if self.sym:
      c = trace.unwrap(c.reshape(())[()] if isinstance(c, np.ndarray) else c)
      self.check.prove(label, c, self.run.engine)
    elif not bool(c):
      raise Failed(f"{label}: condition is false")

  def eq(self, label, got, want):
    self.check.count(label)
    w = want if isinstance(want, np.ndarray) else val(want)
    try:
      g = val(got)
    except (TypeError, ValueError) as e:
      msg = f"{label}: {type(got)} is not an array ({e})"
      raise (Refuted(label, None, msg) if self.sym else Failed(msg)) from e
    if g.shape != w.shape:
      msg = f"{label}: shape {g.shape}, expected {w.shape}"
      if self.sym:
        raise Refuted(label, None, msg)
      raise Failed(msg)
    if self.sym:
      for i in np.ndindex(g.shape):
        a, b = trace.unwrap(g[i]), trace.unwrap(w[i])
        self.check.prove(label, t.eq(a, b), self.run.engine)
      return
    g, w = np.asarray(g, float), np.asarray(w, float)
    tol = self.check.tol
    with np.errstate(all='ignore'):
      ok = (np.abs(g - w) <= tol * (1 + np.abs(w))) | (g == w) | np.isnan(w)
    if not np.all(ok):
      raise Failed(f"{label}: got {g.tolist()}, expected {w.tolist()}")

  def treeeq(self, label, got, want):
    gl, gt = tree_util.tree_flatten(got)
    wl, wt = tree_util.tree_flatten(want)
    self.same(label + ' (structure)', str(gt), str(wt))
    for k, (a, b) in enumerate(zip(gl, wl)):
      self.eq(f"{label}", a, b)

  def possible(self, label, fn):
    """fn() -> condition which must hold in at least one execution.

    Symbolically: the solver finds inputs for which it holds.  In a replay: some
    of many outcomes of the random generators satisfies it.
    """
    self.check.count(label)
    if self.sym:
      c = t.canon(trace.unwrap(fn()))
      self.check.obligations += 1
      if c is not False and c is not True:
        verdict, _ = t.prove(t.lnot(c), self.run.engine.pc, self.check.timeout_ms)
        if verdict == 'unknown':
          raise Inconclusive(f"{label}: solver gave up")
        c = verdict != 'proved'
      if not c:
        raise Refuted(label, None, 'impossible')
      self.check.discharged += 1
      return
    r, salt, values = self.run, self.run.salt, self.run.values
    r.values = {}
    try:
      for k in range(300):
        r.salt = f"{salt}.{k}"
        if bool(fn()):
          return
    finally:
      r.salt, r.values = salt, values
    raise Failed(f"{label}: not reached for 300 outcomes of the generators")

  def same(self, label, got, want):
    """Equality of plain Python values."""
    self.check.count(label)
    if got != want:
      msg = f"{label}: got {got!r}, expected {want!r}"
      if self.sym:
        raise Refuted(label, None, msg)
      raise Failed(msg)

  def raises(self, label, exc, fn):
    self.check.count(label)
    try:
      fn()
    except exc:
      return
    msg = f"{label}: {exc} not raised"
    if self.sym:
      raise Refuted(label, None, msg)
    raise Failed(msg)


class Check:
  """One property check: a list of (name, harness, configs)."""

  def __init__(self, pid, title='', tol=1e-5):
    self.pid, self.title = pid, title
    self.harnesses = {}
    self.tol = tol
    self.labels = {}
    self.obligations = 0
    self.discharged = 0
    self.paths = 0
    self.decisions = 0
    self.cases = 0
    self.samples = []
    self.bounds = []
    self.assumptions = list(scope.ASSUMPTIONS)
    self.outside = list(scope.OUTSIDE.get(pid, []))
    self.violations = []
    self.known_hit = []
    self.incon = []
    self.path_labels = 0
    self.timeout_ms = 20000

  def harness(self, name, quick, thorough=None, bounds='', max_paths=4000):
    def deco(fn):
      self.harnesses[name] = (fn, quick, thorough or quick, max_paths)
      if bounds:
        self.bounds.append(f"{name}: {bounds}")
      return fn
    return deco

  def count(self, label):
    self.labels[label] = self.labels.get(label, 0) + 1
    self.path_labels += 1

  def prove(self, label, goal, engine):
    self.obligations += 1
    verdict, model = t.prove(goal, engine.pc, self.timeout_ms)
    if verdict == 'proved':
      self.discharged += 1
      return
    if verdict == 'unknown':
      raise Inconclusive(f"{label}: solver gave up on {str(goal)[:300]}")
    # model of the whole path, so that every input has a value
    raise Refuted(label, model, str(goal)[:400])

  # -- model -> concrete values --------------------------------------------
  @staticmethod
  def extract(model):
    values, ufs = {}, {}
    if model is None:
      return values, ufs
    for name, c in t.T.inputs.items():
      v = t.model_value(model, c)
      if v is None:
        continue
      values[name] = v if isinstance(v, (bool, int)) else float(v)
    for at in t.T.atoms.values():
      if not at.fn.startswith('uf:'):
        continue
      try:
        av = [float(t.model_value(model, a)) for a in at.args]
        ov = float(t.model_value(model, at.const))
      except (TypeError, OverflowError):
        continue
      ufs.setdefault(at.fn[3:], []).append((av, ov))
    return values, ufs

  def concrete(self, hname, cfg, values, ufs, salt, x64=True):
    """One run of the harness on the real code; returns failure text or None."""
    fn = self.harnesses[hname][0]
    stubs.RUN[0] = stubs.Run(False, None, values, ufs, salt)
    stubs.TAPS.clear()
    ctx = enable_x64() if x64 else contextlib.nullcontext()
    self.tol = 1e-5 if x64 else 3e-3
    try:
      with ctx, jax.disable_jit(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn(H(self, cfg), cfg)
    except Failed as e:
      return str(e)
    except Reject:
      return None
    except Unsupported:
      return None
    except (SystemExit, KeyboardInterrupt):
      raise
    except Exception as e:  # pylint: disable=broad-except
      tb = traceback.extract_tb(e.__traceback__)
      inrepo = [f for f in tb if f.filename.startswith(os.path.abspath(REPO))]
      if x64 and isinstance(e, TypeError):
        return self.concrete(hname, cfg, values, ufs, salt, x64=False)
      where = f" at {inrepo[-1].filename}:{inrepo[-1].lineno}" if inrepo else ''
      inner = tb[-1].filename if tb else ''
      if not inrepo and (not tb or inner.startswith(HERE) or
                         not isinstance(e, (TypeError, ValueError, IndexError,
                                            KeyError, AttributeError))):
        return None
      return f"raised {type(e).__name__}: {str(e)[:300]}{where}"
    finally:
      stubs.RUN[0] = None
    return None

  def replay(self, hname, cfg, ref, budget_s=60):
    """Tries to reproduce a solver counterexample on the real code."""
    values, ufs = self.extract(ref.model)
    values.update(ref.values)
    t0 = time.time()
    attempts = [(values, ufs, 0), (values, {}, 0)]
    attempts += [(values, ufs, s) for s in range(1, 4)]
    reals = {k: v for k, v in values.items() if not isinstance(v, float)}
    attempts += [(reals, {}, s) for s in range(1, 12)]
    attempts += [({}, {}, s) for s in range(1, 60)]
    for vals, uf, salt in attempts:
      if time.time() - t0 > budget_s:
        break
      msg = self.concrete(hname, cfg, vals, uf, salt)
      if msg is not None:
        return dict(values=vals, ufs=uf, salt=salt, message=msg)
    return None

  # -- one harness over one configuration -----------------------------------
  def symbolic(self, hname, cfg):
    fn, _, _, max_paths = self.harnesses[hname]
    t.reset()
    self.engine = eng = Engine(max_paths)
    reached = [0]

    def body():
      stubs.RUN[0] = stubs.Run(True, eng)
      stubs.TAPS.clear()
      before = self.path_labels
      with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn(H(self, cfg), cfg)
      if self.path_labels > before:
        reached[0] += 1
    try:
      with trace.symbolic(eng):
        eng.explore(body)
      if not reached[0]:
        raise Inconclusive("no path reached an assertion (vacuous harness)")
      return None
    except Refuted as e:
      if e.model is None:
        e.model = self.path_model()
      return e
    finally:
      self.paths += eng.paths
      self.decisions += eng.decisions
      stubs.RUN[0] = None

  def path_model(self):
    """Values for which the code takes the path that failed."""
    try:
      pc = self.engine.pc
      _, m = t.solve(pc, 5000)
      if m is None:
        _, m = t.solve([x for x in pc if t.size(x) <= 60], 5000)
      return m
    except Exception:  # pylint: disable=broad-except
      return None

  def case(self, hname, cfg):
    self.cases += 1
    try:
      ref = self.symbolic(hname, cfg)
    except (SystemExit, KeyboardInterrupt):
      raise
    except (Inconclusive, Budget, Unsupported) as e:
      # no verdict: a concrete search may still find a real counterexample
      found = self.replay(hname, cfg, Refuted('-', self.path_model()), budget_s=20)
      if found:
        return self.report(hname, cfg, '-', found)
      if os.environ.get('VERIF_DEBUG'):
        traceback.print_exc()
      self.incon.append(f"{hname} {cfg}: {type(e).__name__}: {e}")
      return None
    except Exception as e:  # pylint: disable=broad-except
      found = self.replay(hname, cfg, Refuted('exception', self.path_model()),
                          budget_s=30)
      if found:
        return self.report(hname, cfg, 'exception', found)
      if os.environ.get('VERIF_DEBUG'):
        traceback.print_exc()
      self.incon.append(f"{hname} {cfg}: {type(e).__name__}: {str(e)[:500]}")
      return None
    if ref is None:
      if len(self.samples) < 12:
        self.samples.append(f"{hname} {cfg}: all assertions proved")
      return None
    found = self.replay(hname, cfg, ref)
    if found:
      return self.report(hname, cfg, ref.label, found)
    self.incon.append(f"{hname} {cfg}: solver counterexample for '{ref.label}' "
                      f"not reproduced: {ref.detail}")
    return None

  def report(self, hname, cfg, label, found):
    self.violations.append(dict(harness=hname, config=cfg, label=label, **found))

  # -- whole check -----------------------------------------------------------
  def cases_of(self, tier, only=None):
    only, _, index = (only or '').partition(':')
    cases = [(hname, cfg) for hname, (fn, quick, thorough, _) in self.harnesses.items()
             if not only or only == hname
             for cfg in (thorough if tier == 'thorough' else quick)]
    return [cases[int(k)] for k in index.split(',')] if index else cases

  COUNTERS = ('obligations', 'discharged', 'paths', 'decisions', 'cases')

  def run_cases(self, tier, only, claim, done=lambda k: None):
    start_coverage()
    for k, (hname, cfg) in enumerate(self.cases_of(tier, only)):
      if not claim(k):
        continue
      h0 = time.time()
      self.case(hname, cfg)
      if os.environ.get('VERIF_VERBOSE'):
        print(f"  {hname} {cfg}: {time.time() - h0:.1f}s", flush=True)
      done(k)

  def worker(self, tier, only, wdir, wid):
    """Claims and runs cases until none is left; writes its results."""
    t0 = time.time()
    patience = 0 if os.environ.get('VERIF_FAST') else 120
    mine = []

    def claim(k):
      # once a violation is known there is no need to finish a long search
      if time.time() - t0 >= patience and os.path.exists(
          os.path.join(wdir, 'violation')):
        return False
      try:
        os.close(os.open(os.path.join(wdir, f"case{k}"), os.O_CREAT | os.O_EXCL))
        return True
      except FileExistsError:
        return False

    def done(k):
      mine.append(k)
      out = dict(
        counters={c: getattr(self, c) for c in self.COUNTERS}, labels=self.labels,
        samples=self.samples, violations=self.violations, incon=self.incon,
        covered=sorted(COVERED), stats=vars(t.STATS), done=mine)
      path = os.path.join(wdir, f"out{wid}.json")
      with open(path + '.part', 'w') as f:
        json.dump(out, f, default=str)
      os.replace(path + '.part', path)
      if self.violations:
        with open(os.path.join(wdir, 'violation'), 'w'):
          pass
    self.run_cases(tier, only, claim, done)

  def parallel(self, tier, only, n):
    import subprocess
    import tempfile
    import shutil
    wdir = tempfile.mkdtemp(prefix='verif_')
    try:
      cmd = [sys.executable, os.path.abspath(sys.argv[0]), self.pid, '--tier', tier]
      if only:
        cmd += ['--only', only]
      procs = [subprocess.Popen(cmd + ['--worker', f"{wdir}:{w}"]) for w in range(n)]
      end = time.time() + (BUDGET_S if tier == 'quick' else 20 * BUDGET_S)
      for p in procs:
        try:
          p.wait(max(0, end - time.time()))
        except subprocess.TimeoutExpired:
          pass
      late = [p for p in procs if p.poll() is None]
      for p in late:
        p.kill()
        p.wait()
      finished = set()
      for w in range(n):
        path = os.path.join(wdir, f"out{w}.json")
        if not os.path.exists(path):
          continue
        with open(path) as f:
          o = json.load(f)
        for c, v in o['counters'].items():
          setattr(self, c, getattr(self, c) + v)
        for k, v in o['labels'].items():
          self.labels[k] = self.labels.get(k, 0) + v
        self.samples = (self.samples + o['samples'])[:12]
        self.violations += o['violations']
        self.incon += o['incon']
        finished.update(o['done'])
        COVERED.update(o['covered'])
        for k, v in o['stats'].items():
          setattr(t.STATS, k, getattr(t.STATS, k) + v)
      if not self.violations:
        for k, (hname, cfg) in enumerate(self.cases_of(tier, only)):
          if k not in finished:
            self.cases += 1
            self.incon.append(f"{hname} {cfg}: " + (
              'time is up' if late else 'a worker ended early'))
    finally:
      shutil.rmtree(wdir, ignore_errors=True)

  def main(self, tier, seed, known, out_dir, only=None):
    t0 = time.time()
    n = min(len(self.cases_of(tier, only)), int(os.environ.get('VERIF_JOBS', '7')))
    if n > 2:
      self.parallel(tier, only, n)
    else:
      self.run_cases(tier, only, lambda k: True)
    # known findings
    rest = []
    for v in self.violations:
      k = self.match_known(known, v)
      if k:
        self.known_hit.append((k, v))
      else:
        rest.append(v)
    wall = time.time() - t0
    self.evidence(tier, seed, wall, out_dir, rest)
    for k in sorted({k for k, _ in self.known_hit}):
      print(f"KNOWN-FINDING: property={self.pid} {k}")
    if rest:
      v = rest[0]
      rdir = os.path.join(out_dir, 'replays')
      os.makedirs(rdir, exist_ok=True)
      h = hashlib.sha256(json.dumps([v['harness'], v['config'], v['label']],
                                    default=str).encode()).hexdigest()[:10]
      path = os.path.join(rdir, f"{self.pid}_{h}.json")
      with open(path, 'w') as f:
        json.dump(v, f, indent=1, default=str)
      for x in rest[:8]:
        print(f"  {x['harness']} {x['config']} [{x['label']}]: {x['message'][:600]}")
      print(f"VIOLATION property={self.pid} replay={path}")
      return 1
    for x in self.incon[:10]:
      print(f"INCONCLUSIVE {x[:800]}")
    if 2 * len(self.incon) > self.cases or not self.cases:
      return 2
    print(f"{self.pid}: held ({self.cases} configurations, {self.paths} paths, "
          f"{self.obligations} obligations, {self.discharged} discharged, "
          f"{t.STATS.solver_s:.1f}s solver, {wall:.1f}s"
          + (f", {len(self.incon)} configurations undecided)" if self.incon else ")"))
    return 0

  def match_known(self, known, v):
    for k in known:
      if k['property'] == self.pid and k['harness'] == v['harness'] and \
          json.loads(json.dumps(v['config'], default=str)) in k['configs'] and \
          k['contains'] in v['message']:
        return k['what']
    return None

  def evidence(self, tier, seed, wall, out_dir, rest):
    s = t.STATS
    ev = dict(
      property=self.pid, tier=tier, seed=seed, level='other',
      coverage=dict(
        explanation=(
          "Bounded symbolic execution of the real functions of /repo (re-imported "
          "from the working tree on this run): every JAX primitive and host "
          "operation they perform is evaluated over z3 terms; inputs, noise, data, "
          "RNG outputs and schedules are symbolic; each assertion is discharged by "
          "z3 for all values of the symbolic inputs on every feasible path within "
          "the bounds."),
        functions_encoded=sorted(COVERED),
        bounds=self.bounds, outside_bounds=self.outside,
        configurations=self.cases, paths=self.paths,
        forked_decisions=self.decisions,
        obligations=self.obligations, discharged=self.discharged,
        discharged_by_normalisation_alone=s.trivial,
        queries=s.queries, unsat=s.unsat, sat=s.sat, unknown=s.unknown,
        path_feasibility_queries=s.feas_queries,
        solver_seconds=round(s.solver_s, 2),
        assertion_labels=self.labels,
        inconclusive=self.incon,
        known_findings=[k for k, _ in self.known_hit],
        samples=self.samples or ["no configuration completed"]),
      assumptions=self.assumptions, wall_s=round(wall, 2),
      violations=len(rest))
    os.makedirs(os.path.join(out_dir, 'evidence'), exist_ok=True)
    with open(os.path.join(out_dir, 'evidence', f'{self.pid}.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)
