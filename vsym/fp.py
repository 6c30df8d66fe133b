"""Real code on IEEE numbers: scalar computations as z3 floating point terms.

`run(f, args)` traces f with jax and interprets the jaxpr on single precision numbers of
the solver. Everything which is not a single precision number or a truth value (keys,
counters) is opaque: it may be passed on but not looked at. exp and log are functions
known by their documented special values, signs and ranges.
"""
import contextlib

import jax
import numpy as np
from jax._src import core
import z3

from . import stubs, trace
from .trace import Unsupported

F32 = z3.Float32()
RM = z3.RNE()
OPAQUE = object()
RULES = {}


def const(x):
  if isinstance(x, trace.SymTracer):
    x = x.concrete()
    if x is None:
      return OPAQUE
  x = np.asarray(x)
  if x.dtype == object:
    return OPAQUE
  if x.shape != ():
    # small arrays of numbers are arrays of terms; keys and counters stay opaque
    if x.size > 64 or x.dtype not in (np.float32, np.bool_):
      return OPAQUE
    return array([const(v) for v in x.ravel()], x.shape)
  if x.dtype == np.bool_:
    return z3.BoolVal(bool(x))
  if x.dtype.kind in 'iu':
    return int(x)
  if x.dtype == np.float32:
    x = float(x)
    return z3.fpNaN(F32) if np.isnan(x) else z3.fpPlusInfinity(F32) if x == np.inf \
        else z3.fpMinusInfinity(F32) if x == -np.inf else z3.FPVal(x, F32)
  return OPAQUE


def array(values, shape):
  out = np.empty(len(values), object)
  for k, v in enumerate(values):
    out[k] = v
  return out.reshape(shape)


def is_array(x):
  return isinstance(x, np.ndarray)


class Run:
  def __init__(self, rough=False):
    self.axioms, self.known, self.rough = [], {}, rough
    self.quotients = []

  def binary(self, name, a, b, rules):
    k = (name, a.get_id(), b.get_id())
    if k not in self.known:
      y = z3.FreshConst(F32, name)
      self.known[k] = (a, b, y)
      nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b), rules['nan'])
      self.axioms += [
        z3.fpIsNaN(y) == nan,
        z3.Implies(z3.And(z3.Not(nan), rules['inf']), z3.fpIsInf(y)),
        z3.Implies(z3.And(z3.Not(nan), rules['zero']), z3.fpIsZero(y)),
        z3.Implies(z3.Not(nan), z3.fpIsNegative(y) ==
                   z3.Xor(z3.fpIsNegative(a), z3.fpIsNegative(b)))]
    return self.known[k][-1]

  def mul(self, a, b):
    for x, y in ((a, b), (b, a)):
      if self.rough and z3.is_app_of(x, z3.Z3_OP_ITE):
        u, v = x.arg(1), x.arg(2)
        if z3.is_fp_value(u) and z3.is_fp_value(v):
          return z3.If(x.arg(0), self.mul(u, y), self.mul(v, y))
      if x.eq(ONE) or x.eq(-ONE) or x.eq(z3.simplify(-ONE)):
        return z3.fpMul(RM, x, y)  # exact and cheap
    if not self.rough:
      return z3.fpMul(RM, a, b)
    return self.binary('mul', a, b, dict(
      nan=z3.Or(z3.And(z3.fpIsZero(a), z3.fpIsInf(b)),
                z3.And(z3.fpIsInf(a), z3.fpIsZero(b))),
      inf=z3.Or(z3.fpIsInf(a), z3.fpIsInf(b)),
      zero=z3.Or(z3.fpIsZero(a), z3.fpIsZero(b))))

  def div(self, a, b):
    if not self.rough:
      return z3.fpDiv(RM, a, b)
    y = self.binary('div', a, b, dict(
      nan=z3.Or(z3.And(z3.fpIsZero(a), z3.fpIsZero(b)),
                z3.And(z3.fpIsInf(a), z3.fpIsInf(b))),
      inf=z3.Or(z3.fpIsInf(a), z3.fpIsZero(b)),
      zero=z3.Or(z3.fpIsZero(a), z3.fpIsInf(b))))
    size = lambda k: z3.FPVal(2.0 ** k, F32)
    self.axioms += [
      z3.Implies(z3.And(z3.fpGEQ(z3.fpAbs(a), ONE), z3.fpLEQ(z3.fpAbs(b), size(100))),
                 z3.Not(z3.fpIsZero(y))),
      z3.Implies(z3.And(z3.fpLEQ(z3.fpAbs(a), size(20)),
                        z3.fpGEQ(z3.fpAbs(b), size(-100))), z3.Not(z3.fpIsInf(y)))]
    for c, d, z in self.quotients:  # order for equal positive numerators
      pos = z3.And(z3.fpEQ(a, c), z3.fpLT(ZERO, a), z3.fpLT(ZERO, b), z3.fpLT(ZERO, d))
      self.axioms += [z3.Implies(z3.And(pos, z3.fpLEQ(b, d)), z3.fpGEQ(y, z)),
                      z3.Implies(z3.And(pos, z3.fpLEQ(d, b)), z3.fpGEQ(z, y))]
    self.quotients.append((a, b, y))
    return y

  def unary(self, name, x, rules):
    k = (name, x.get_id())
    if k not in self.known:
      y = z3.FreshConst(F32, name)
      self.known[k] = (x, y)
      self.axioms += rules(x, y)
    return self.known[k][1]

  def jaxpr(self, jaxpr, consts, args):
    env = {}

    def read(v):
      return const(np.asarray(v.val, v.aval.dtype)) if isinstance(v, core.Literal) else env[v]
    for v, x in zip(jaxpr.constvars, consts):
      env[v] = const(x)
    for v, x in zip(jaxpr.invars, args):
      env[v] = x
    for e in jaxpr.eqns:
      xs = [read(v) for v in e.invars]
      for v, y in zip(e.outvars, self.eqn(e, xs)):
        env[v] = y
    return [read(v) for v in jaxpr.outvars]

  def eqn(self, e, xs):
    name, out = e.primitive.name, [v.aval for v in e.outvars]
    sub = e.params.get('jaxpr') or e.params.get('call_jaxpr')
    if name in ('pjit', 'core_call', 'closed_call', 'named_call', 'custom_jvp_call',
                'custom_vjp_call', 'remat') and sub is not None:
      if isinstance(sub, core.ClosedJaxpr):
        return self.jaxpr(sub.jaxpr, sub.consts, xs)
      return self.jaxpr(sub, (), xs)
    if name == 'cond':
      c = xs[0]
      br = [self.jaxpr(b.jaxpr, b.consts, xs[1:]) for b in e.params['branches']]
      if isinstance(c, int):
        return br[max(0, min(c, len(br) - 1))]
      if isinstance(c, tuple) and len(br) == 2:  # truth value as a number
        c = c[0]
      if not z3.is_bool(c) or len(br) != 2:
        raise Unsupported('branch on an opaque value')
      return [choose(c, t, f) for f, t in zip(*br)]
    known = all(x is not OPAQUE for x in xs)
    if name in SHAPES and known:
      y = SHAPES[name](self, e, *xs)
      if y is not None:
        return [y]
    if name in RULES and known:
      if any(is_array(x) for x in xs):
        bs = np.broadcast_arrays(*[x if is_array(x) else array([x], (1,) * len(out[0].shape))
                                   for x in xs])
        ys = [RULES[name](self, e, *v) for v in zip(*[b.ravel() for b in bs])]
        if all(y is not None for y in ys):
          return [array(ys, out[0].shape)]
      elif out[0].shape == ():
        y = RULES[name](self, e, *xs)
        if y is not None:
          return [y]
    if all(x is OPAQUE or isinstance(x, int) for x in xs) or not any(
        o.dtype == np.float32 or o.dtype == np.bool_ for o in out):
      if any(o.shape == () and o.dtype == np.bool_ for o in out):
        raise Unsupported(f'{name} on an opaque value')
      return [OPAQUE] * len(out)
    raise Unsupported(f'{name} on single precision numbers')


def choose(c, t, f):
  if is_array(t) or is_array(f):
    if not (is_array(t) and is_array(f)):
      raise Unsupported('choice between kinds of numbers')
    return array([choose(c, a, b) for a, b in zip(t.ravel(), f.ravel())], t.shape)
  if t is OPAQUE and f is OPAQUE:
    return OPAQUE
  if isinstance(t, int) and isinstance(f, int):
    return t if t == f else OPAQUE
  if t is OPAQUE or f is OPAQUE or isinstance(t, int) or isinstance(f, int):
    raise Unsupported('choice between kinds of numbers')
  return z3.If(c, t, f)


def rule(*names):
  def reg(f):
    for n in names:
      RULES[n] = f
    return f
  return reg


EXACT = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}


def fold(op, a, b):
  """The operation on constants, or on a choice of constants and a constant"""
  if z3.is_fp_value(a) and z3.is_fp_value(b):
    return z3.simplify(op(RM, a, b))
  for k, x in enumerate((a, b)):
    y = b if k == 0 else a
    if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_fp_value(y):
      u, v = [fold(op, *((w, y) if k == 0 else (y, w))) for w in (x.arg(1), x.arg(2))]
      if u is not None and v is not None:
        return z3.If(x.arg(0), u, v)
  return None


def arith(name, op, iop, exact=False):
  def go(r, e, a, b):
    if isinstance(a, int) and isinstance(b, int):
      return iop(a, b)
    if z3.is_fp(a) and z3.is_fp(b):
      y = fold(EXACT[name], a, b) if name in EXACT else None
      if y is not None:
        return y
      return op(r, a, b) if exact else op(a, b)
    return None
  RULES[name] = go


arith('add', lambda a, b: z3.fpAdd(RM, a, b), lambda a, b: a + b)
arith('add_any', lambda a, b: z3.fpAdd(RM, a, b), lambda a, b: a + b)
arith('sub', lambda a, b: z3.fpSub(RM, a, b), lambda a, b: a - b)
arith('mul', Run.mul, lambda a, b: a * b, True)
arith('div', Run.div, lambda a, b: None, True)
arith('lt', z3.fpLT, lambda a, b: z3.BoolVal(a < b))
arith('le', z3.fpLEQ, lambda a, b: z3.BoolVal(a <= b))
arith('gt', z3.fpGT, lambda a, b: z3.BoolVal(a > b))
arith('ge', z3.fpGEQ, lambda a, b: z3.BoolVal(a >= b))


def nan_or(a, b, y):
  # minimum and maximum of XLA hand NaN on
  return z3.If(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)), z3.fpNaN(F32), y)


arith('min', lambda a, b: nan_or(a, b, z3.If(z3.fpLT(a, b), a, b)), min)
arith('max', lambda a, b: nan_or(a, b, z3.If(z3.fpGT(a, b), a, b)), max)


@rule('eq')
def _eq(r, e, a, b):
  if z3.is_bool(a) and z3.is_bool(b):
    return a == b
  if z3.is_fp(a) and z3.is_fp(b):
    return z3.fpEQ(a, b)
  return z3.BoolVal(a == b) if isinstance(a, int) and isinstance(b, int) else None


@rule('ne')
def _ne(r, e, a, b):
  y = _eq(r, e, a, b)
  return None if y is None else z3.Not(y)


@rule('neg')
def _neg(r, e, a):
  return -a if isinstance(a, int) else z3.fpNeg(a) if z3.is_fp(a) else None


@rule('abs')
def _abs(r, e, a):
  return abs(a) if isinstance(a, int) else z3.fpAbs(a) if z3.is_fp(a) else None


@rule('sqrt')
def _sqrt(r, e, a):
  return z3.fpSqrt(RM, a) if z3.is_fp(a) else None


@rule('is_finite')
def _finite(r, e, a):
  return z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsInf(a))) if z3.is_fp(a) else None


@rule('and')
def _and(r, e, a, b):
  return z3.And(a, b) if z3.is_bool(a) and z3.is_bool(b) else None


@rule('or')
def _or(r, e, a, b):
  return z3.Or(a, b) if z3.is_bool(a) and z3.is_bool(b) else None


@rule('not')
def _not(r, e, a):
  return z3.Not(a) if z3.is_bool(a) else None


@rule('copy', 'copy_p', 'stop_gradient', 'optimization_barrier')
def _same(r, e, a):
  return a


SHAPES = {}


def shapes(*names):
  def reg(f):
    for n in names:
      SHAPES[n] = f
    return f
  return reg


def as_array(a):
  return a if is_array(a) else array([a], ())


def back(a):
  return a if a.shape != () else a[()]


@shapes('squeeze', 'reshape')
def _reshape(r, e, a):
  return back(as_array(a).reshape(e.outvars[0].aval.shape))


@shapes('broadcast_in_dim')
def _broadcast(r, e, a):
  shape, dims = e.params['shape'], e.params['broadcast_dimensions']
  a = as_array(a)
  full = [1] * len(shape)
  for d, n in zip(dims, a.shape):
    full[d] = n
  return back(np.broadcast_to(a.reshape(full), shape))


@shapes('concatenate')
def _concatenate(r, e, *xs):
  return np.concatenate(xs, axis=e.params['dimension'])


@shapes('slice')
def _slice(r, e, a):
  st = e.params['strides'] or (1,) * a.ndim
  return a[tuple(slice(i, j, k) for i, j, k in
                 zip(e.params['start_indices'], e.params['limit_indices'], st))]


def reduction(name, op):
  def go(r, e, a):
    axes = e.params['axes']
    rest = [d for d in range(a.ndim) if d not in axes]
    rows = a.transpose(rest + list(axes)).reshape([a.shape[d] for d in rest] + [-1])
    flat = rows.reshape(-1, rows.shape[-1])
    ys = []
    for row in flat:
      y = row[0]
      for v in row[1:]:
        y = op(r, e, y, v)
      ys.append(y)
    return back(array(ys, rows.shape[:-1])) if all(y is not None for y in ys) else None
  SHAPES[name] = go


reduction('reduce_sum', lambda r, e, a, b: RULES['add'](r, e, a, b))
reduction('reduce_max', lambda r, e, a, b: RULES['max'](r, e, a, b))
reduction('reduce_min', lambda r, e, a, b: RULES['min'](r, e, a, b))
reduction('reduce_and', lambda r, e, a, b: z3.And(a, b))
reduction('reduce_or', lambda r, e, a, b: z3.Or(a, b))


@rule('convert_element_type')
def _convert(r, e, a):
  new = np.dtype(e.params['new_dtype'])
  if isinstance(a, tuple):  # a truth value as a number
    a = a[0]
  if z3.is_bool(a):
    if new == np.bool_:
      return a
    if new.kind in 'iu':
      return (a,)
    if new == np.float32:
      return z3.If(a, z3.FPVal(1.0, F32), z3.FPVal(0.0, F32))
    return None
  if isinstance(a, int):
    return const(np.asarray(a, new)) if new.kind in 'biuf' else None
  if z3.is_fp(a):
    return a if new == np.float32 else None
  return None


@rule('select_n')
def _select(r, e, c, f, t):
  if isinstance(c, tuple):
    c = c[0]
  if isinstance(c, int):
    return t if c else f
  return choose(c, t, f)


@rule('clamp')
def _clamp(r, e, lo, x, hi):
  return None if isinstance(x, int) else RULES['min'](
    r, e, RULES['max'](r, e, lo, x), hi)


ZERO, ONE = z3.FPVal(0.0, F32), z3.FPVal(1.0, F32)
INF, NINF = z3.fpPlusInfinity(F32), z3.fpMinusInfinity(F32)


@rule('exp')
def _exp(r, e, x):
  return r.unary('exp', x, lambda x, y: [
    z3.fpIsNaN(y) == z3.fpIsNaN(x),
    z3.Implies(z3.fpEQ(x, NINF), z3.fpEQ(y, ZERO)),
    z3.Implies(z3.fpEQ(x, ZERO), z3.fpEQ(y, ONE)),
    z3.Implies(z3.fpLEQ(x, ZERO), z3.And(z3.fpLEQ(ZERO, y), z3.fpLEQ(y, ONE))),
    z3.Implies(z3.fpGEQ(x, ZERO), z3.fpGEQ(y, ONE)),
  ]) if z3.is_fp(x) else None


@rule('log')
def _log(r, e, x):
  return r.unary('log', x, lambda x, y: [
    z3.fpIsNaN(y) == z3.Or(z3.fpIsNaN(x), z3.fpLT(x, ZERO)),
    z3.fpEQ(y, NINF) == z3.fpEQ(x, ZERO),
    z3.fpEQ(y, INF) == z3.fpEQ(x, INF),
    z3.fpLT(y, ZERO) == z3.And(z3.fpGEQ(x, ZERO), z3.fpLT(x, ONE)),
    z3.fpEQ(y, ZERO) == z3.fpEQ(x, ONE),
  ]) if z3.is_fp(x) else None


@rule('integer_pow')
def _ipow(r, e, x):
  n = e.params['y']
  if not z3.is_fp(x):
    return None
  y = {1: lambda: x, 2: lambda: z3.fpMul(RM, x, x), -1: lambda: z3.fpDiv(RM, ONE, x)}
  return y[n]() if n in y else None


def run(f, args, uniform=None, rough=False):
  """-> (pytree of the results of f, axioms): f on z3 numbers; uniform: the draw"""
  args = list(args)
  tree = []
  n = len(args)
  if uniform is not None:
    args.append(uniform)

  def g(*a):
    with drawn(a[n] if uniform is not None else None):
      ys, td = jax.tree_util.tree_flatten(f(*a[:n]))
    tree.append(td)
    return ys
  closed = jax.make_jaxpr(g)(*[jax.ShapeDtypeStruct((), np.float32) for _ in args])
  r = Run(rough)
  flat = r.jaxpr(closed.jaxpr, closed.consts, args)
  return jax.tree_util.tree_unflatten(tree[-1], flat), r.axioms


@contextlib.contextmanager
def drawn(u):
  stubs.UNIFORM[0] = u
  try:
    yield
  finally:
    stubs.UNIFORM[0] = None


class Z:
  """conditions on solver numbers"""
  nan, inf = staticmethod(z3.fpIsNaN), staticmethod(z3.fpIsInf)
  lt, le, eq = staticmethod(z3.fpLT), staticmethod(z3.fpLEQ), staticmethod(z3.fpEQ)
  all = staticmethod(lambda *c: z3.And(*c))
  any = staticmethod(lambda *c: z3.Or(*c))
  no, neg = staticmethod(z3.Not), staticmethod(z3.fpNeg)

  @staticmethod
  def same(a, b):
    return a == b  # NaN is the same as NaN

  @staticmethod
  def num(x):
    return const(np.float32(x))


class C:
  """the same on numpy numbers"""
  nan, inf = staticmethod(lambda x: bool(np.isnan(x))), staticmethod(
    lambda x: bool(np.isinf(x)))
  lt, le = staticmethod(lambda a, b: bool(a < b)), staticmethod(lambda a, b: bool(a <= b))
  eq = staticmethod(lambda a, b: bool(a == b))
  all = staticmethod(lambda *c: all(c))
  any = staticmethod(lambda *c: any(c))
  no, neg = staticmethod(lambda c: not c), staticmethod(lambda a: -a)

  @staticmethod
  def same(a, b):
    return bool(a == b) or bool(np.isnan(a) and np.isnan(b))

  @staticmethod
  def num(x):
    return np.float32(x)
