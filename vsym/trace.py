"""A JAX base trace that executes every primitive symbolically.

While `symbolic(engine)` is active, the real Python code of the library runs
unchanged; each JAX primitive it binds is evaluated over object arrays whose
elements are exact rationals, ints, bools or z3 terms.  Python control flow on
traced values, `lax.cond`/`while`, and host-side indexing fork the path.
"""
import contextlib
import math
from fractions import Fraction

import numpy as np

import jax
from jax import core, lax
from jax._src import core as jcore
from jax._src import dtypes
from jax.interpreters import batching, mlir, ad
import jax.numpy as jnp

from . import terms as t
from .engine import Unsupported, PathAbort
from .terms import z3

ENGINE = [None]


class SV:
  """A symbolic scalar seen by host Python code."""
  __slots__ = ('v',)
  __array_priority__ = 2000

  def __init__(self, v):
    self.v = v.v if isinstance(v, SV) else v

  def __bool__(self):
    v = self.v
    if t.is_sym(v) and not z3.is_bool(v):
      v = t.lnot(t.eq(v, 0))
    return bool(ENGINE[0].decide(v))

  def __index__(self):
    return int(ENGINE[0].concretize(self.v))

  __int__ = __index__

  def __float__(self):
    v = t.canon(self.v)
    if t.is_sym(v):
      raise Unsupported("float() of a symbolic value")
    return float(v)

  def _bin(op, swap=False):  # pylint: disable=no-self-argument
    def f(self, o):
      if isinstance(o, core.Tracer):
        return NotImplemented
      if isinstance(o, np.ndarray):
        out = np.empty(o.shape, object)
        for i in np.ndindex(o.shape):
          e = unwrap(o[i])
          out[i] = SV(op(e, self.v) if swap else op(self.v, e))
        return out if out.shape else out[()]
      o = unwrap(o)
      if o is NotImplemented:
        return NotImplemented
      return SV(op(o, self.v) if swap else op(self.v, o))
    return f

  __add__ = _bin(t.add)
  __radd__ = _bin(t.add, True)
  __sub__ = _bin(t.sub)
  __rsub__ = _bin(t.sub, True)
  __mul__ = _bin(t.mul)
  __rmul__ = _bin(t.mul, True)
  __truediv__ = _bin(t.div)
  __rtruediv__ = _bin(t.div, True)
  __lt__ = _bin(t.lt)
  __le__ = _bin(t.le)
  __gt__ = _bin(t.lt, True)
  __ge__ = _bin(t.le, True)
  __eq__ = _bin(t.eq)
  __ne__ = _bin(lambda a, b: t.lnot(t.eq(a, b)))
  __and__ = _bin(lambda a, b: _and(a, b))
  __rand__ = __and__
  __or__ = _bin(lambda a, b: _or(a, b))
  __ror__ = __or__
  __mod__ = _bin(lambda a, b: pymod(a, b))
  __rmod__ = _bin(lambda a, b: pymod(a, b), True)
  __floordiv__ = _bin(lambda a, b: pydiv(a, b))
  __rfloordiv__ = _bin(lambda a, b: pydiv(a, b), True)

  def __pow__(self, n):
    return SV(t.power(t.to_real(self.v), unwrap(n)))

  def __neg__(self):
    return SV(t.neg(self.v))

  def __abs__(self):
    return SV(t.maximum(self.v, t.neg(self.v)))

  def __invert__(self):
    return SV(t.lnot(self.v))

  def __hash__(self):
    v = t.canon(self.v)
    if t.is_sym(v):
      return hash(ENGINE[0].concretize(v))
    return hash(v)

  def __repr__(self):
    return f"SV({self.v})"

  def item(self):
    return self

  def astype(self, *_):
    return self


def _and(a, b):
  return t.land(a, b)


def _or(a, b):
  return t.lor(a, b)


def pymod(a, b):
  if not t.is_sym(a) and not t.is_sym(b):
    return a % b
  a, b = t.num(a), t.num(b)
  if not t.is_sym(b) and b > 0:
    return t.light(t.toz(a) % t.toz(b))
  r = t.irem(a, b)
  return t.ite(t.land(t.lnot(t.eq(r, 0)), t.lnot(t.eq(t.lt(r, 0), t.lt(b, 0)))),
               t.add(r, b), r)


def pydiv(a, b):
  if not t.is_sym(a) and not t.is_sym(b):
    return a // b
  return t.light(t.toz(a) / t.toz(b))


def unwrap(x):
  """host scalar -> term-layer scalar"""
  if isinstance(x, SV):
    return x.v
  if isinstance(x, (bool, np.bool_)):
    return bool(x)
  if isinstance(x, (int, np.integer)):
    return int(x)
  if isinstance(x, Fraction):
    return x
  if isinstance(x, (float, np.floating)):
    return t.from_float(x, isinstance(x, np.float32))
  if t.is_sym(x):
    return x
  if isinstance(x, np.ndarray) and x.shape == ():
    return unwrap(x.view(np.ndarray)[()])
  return NotImplemented


def has_sym(a):
  return any(t.is_sym(x) for x in a.ravel())


def to_obj(x):
  """array-like -> object array of scalars"""
  if isinstance(x, SymTracer):
    return x.val
  if isinstance(x, np.ndarray) and np.ndarray.dtype.__get__(x) == object:
    x = x.view(np.ndarray)
    out = np.empty(x.shape, object)
    for i in np.ndindex(x.shape):
      u = unwrap(x[i])
      if u is NotImplemented:
        raise Unsupported(f"object {type(x[i])} in an array")
      out[i] = u
    return out
  if isinstance(x, (SV, Fraction)) or t.is_sym(x):
    out = np.empty((), object)
    out[()] = unwrap(x)
    return out
  a = np.asarray(x)
  if jax.dtypes.issubdtype(a.dtype, jax.dtypes.prng_key):
    raise Unsupported("typed PRNG key")
  out = np.empty(a.shape, object)
  if a.dtype == np.bool_:
    for i in np.ndindex(a.shape):
      out[i] = bool(a[i])
  elif np.issubdtype(a.dtype, np.integer):
    for i in np.ndindex(a.shape):
      out[i] = int(a[i])
  elif np.issubdtype(a.dtype, np.floating) or a.dtype == dtypes.bfloat16:
    single = a.dtype != np.float64
    for i in np.ndindex(a.shape):
      out[i] = t.from_float(a[i], single)
  else:
    raise Unsupported(f"dtype {a.dtype}")
  return out


def coerce(a, dtype):
  """object array adapted to dtype kind (int/real/bool)"""
  dtype = np.dtype(dtype)
  out = np.empty(a.shape, object)
  if dtype == np.bool_:
    for i in np.ndindex(a.shape):
      v = a[i]
      if isinstance(v, bool) or (t.is_sym(v) and z3.is_bool(v)):
        out[i] = v
      else:
        out[i] = t.lnot(t.eq(v, 0))
  elif np.issubdtype(dtype, np.integer):
    for i in np.ndindex(a.shape):
      out[i] = t.trunc_int(a[i])
  else:
    for i in np.ndindex(a.shape):
      out[i] = t.to_real(a[i])
  return out


class SymTracer(core.Tracer):
  __slots__ = ['val', '_aval']

  def __init__(self, trace, val, aval):
    super().__init__(trace)
    self.val = val
    self._aval = aval

  @property
  def aval(self):
    return self._aval

  def full_lower(self):
    return self

  def concrete(self):
    """numpy array if every element is concrete, else None"""
    if has_sym(self.val):
      return None
    return lower(self.val, self._aval.dtype)

  def __array__(self, dtype=None, *a, **kw):
    c = self.concrete()
    if c is None:
      out = np.empty(self.val.shape, object)
      for i in np.ndindex(self.val.shape):
        out[i] = SV(self.val[i])
      return out
    return c if dtype is None else c.astype(dtype)

  def _scalar(self):
    if self.val.size != 1:
      raise TypeError("Only length-1 arrays can be converted to Python scalars.")
    return self.val.reshape(())[()]

  def __bool__(self):
    if self.val.size != 1:
      raise ValueError("The truth value of an array with more than one element "
                       "is ambiguous. Use a.any() or a.all()")
    return bool(SV(self._scalar()))

  def __int__(self):
    return int(ENGINE[0].concretize(t.trunc_int(self._scalar())))

  def __index__(self):
    return int(ENGINE[0].concretize(self._scalar()))

  def __float__(self):
    return float(SV(self._scalar()))

  def __format__(self, spec):
    return "<symbolic>"

  def __repr__(self):
    return f"Sym{self.val.tolist()}"

  def tolist(self):
    return np.asarray(self).tolist()

  def item(self):
    c = self.concrete()
    return SV(self._scalar()) if c is None else c.item()

  def __hash__(self):
    return id(self)

  def block_until_ready(self):
    return self


def lower(a, dtype):
  out = np.empty(a.shape, dtype)
  for i in np.ndindex(a.shape):
    out[i] = a[i] if not isinstance(a[i], Fraction) else float(a[i])
  return out


class SymTrace(core.Trace):
  def pure(self, x):
    if isinstance(x, SymTracer):
      return x
    if isinstance(x, (SV, Fraction)) or (isinstance(x, np.ndarray)
                                        and x.dtype == object):
      a = to_obj(x)
      return SymTracer(self, a, aval_of_obj(a))
    return SymTracer(self, to_obj(x), jcore.raise_to_shaped(core.get_aval(x)))
  lift = sublift = pure

  def full_raise(self, x):
    # one base trace: tracers of all sublevels are interchangeable
    if isinstance(x, SymTracer):
      return x
    return self.pure(x)

  def process_primitive(self, primitive, tracers, params):
    out_vals, out_avals = eval_prim(primitive, [x.val for x in tracers],
                                    [x.aval for x in tracers], params)
    if primitive.multiple_results:
      return [SymTracer(self, v, a) for v, a in zip(out_vals, out_avals)]
    return SymTracer(self, out_vals, out_avals)

  def process_call(self, primitive, f, tracers, params):
    with core.new_sublevel():
      return f.call_wrapped(*tracers)
  process_map = None

  def process_custom_jvp_call(self, primitive, fun, jvp, tracers, **_):
    with core.new_sublevel():
      return fun.call_wrapped(*tracers)

  def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers, **_):
    with core.new_sublevel():
      return fun.call_wrapped(*tracers)


def aval_of_obj(a):
  kind = 'int'
  for x in a.ravel():
    if isinstance(x, bool) or (t.is_sym(x) and z3.is_bool(x)):
      kind = 'bool'
    elif t.is_real(x):
      kind = 'real'
      break
  dt = {'int': np.int32, 'bool': np.bool_, 'real': np.float32}[kind]
  return core.ShapedArray(a.shape, np.dtype(dt))


@contextlib.contextmanager
def symbolic(engine):
  old = ENGINE[0]
  ENGINE[0] = engine
  try:
    with core.new_base_main(SymTrace):
      yield
  finally:
    ENGINE[0] = old


def make(val, dtype=None):
  """object array -> tracer in the current symbolic trace"""
  a = to_obj(val)
  main = jcore.thread_local_state.trace_state.trace_stack.stack[0]
  tr = main.with_cur_sublevel()
  aval = aval_of_obj(a) if dtype is None else core.ShapedArray(a.shape,
                                                               np.dtype(dtype))
  return SymTracer(tr, coerce(a, aval.dtype), aval)


def active():
  main = jcore.thread_local_state.trace_state.trace_stack.stack[0]
  return main.trace_type is SymTrace


# -- primitive evaluation ----------------------------------------------------

RULES = {}


def rule(*names):
  def deco(f):
    for n in names:
      RULES[n] = f
    return f
  return deco


def ew(f):
  """elementwise over broadcast-compatible object arrays"""
  def go(*arrs):
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.empty(shape, object)
    for i in np.ndindex(shape):
      out[i] = f(*[a[i] for a in arrs])
    return out
  return go


def out_avals(prim, avals, params):
  if prim.multiple_results:
    r, _ = prim.abstract_eval(*avals, **params)
    return r
  r, _ = prim.abstract_eval(*avals, **params)
  return r


def eval_prim(prim, vals, avals, params):
  name = prim.name
  if name in CONTROL:
    return CONTROL[name](vals, avals, params)
  oav = out_avals(prim, avals, params)
  r = RULES.get(name)
  if r is None:
    if name in STRUCT or all(not has_sym(v) for v in vals):
      return eval_struct(prim, vals, avals, params, oav)
    raise Unsupported(f"primitive {name}")
  out = r(vals, avals, params, oav)
  return out, oav


def simple(name, f):
  g = ew(f)
  RULES[name] = lambda vals, avals, params, oav: g(*vals)


def isfloat(av):
  return np.issubdtype(av.dtype, np.floating) or av.dtype == dtypes.bfloat16


def isbool(av):
  return av.dtype == np.bool_


def short(dtype):
  """wrap-around of integers of less than 32 bits, or None"""
  if not np.issubdtype(dtype, np.integer) or np.dtype(dtype).itemsize >= 4:
    return None
  n = 8 * np.dtype(dtype).itemsize
  off = 0 if np.issubdtype(dtype, np.unsignedinteger) else 1 << (n - 1)
  return lambda x: t.sub(pymod(t.add(x, off), 1 << n), off)


def arith(name, f):
  g = ew(f)

  def impl(vals, avals, params, oav):
    r, w = g(*vals), short(avals[0].dtype)
    return r if w is None else ew(w)(r)
  RULES[name] = impl


arith('add', t.add)
arith('add_any', t.add)
arith('sub', t.sub)
arith('mul', lambda a, b: t.mul(a, b))
simple('neg', t.neg)
simple('max', t.maximum)
simple('min', t.minimum)
simple('exp', t.exp)
simple('log', t.log)
simple('sqrt', t.sqrt)
simple('rsqrt', lambda a: t.inv(t.sqrt(a)))
simple('cbrt', lambda a: t.power(a, Fraction(1, 3)))
simple('exp2', lambda a: t.power(Fraction(2), a))
simple('log1p', lambda a: t.log(t.add(a, Fraction(1))))
simple('expm1', lambda a: t.sub(t.exp(a), Fraction(1)))
simple('logistic', lambda a: t.inv(t.add(Fraction(1), t.exp(t.neg(a)))))
simple('square', lambda a: t.mul(a, a))
simple('abs', lambda a: t.maximum(a, t.neg(a)))
simple('lt', t.lt)
simple('le', t.le)
simple('gt', lambda a, b: t.lt(b, a))
simple('ge', lambda a, b: t.le(b, a))
simple('eq', t.eq)
simple('ne', lambda a, b: t.lnot(t.eq(a, b)))
simple('stop_gradient', lambda a: a)
simple('copy', lambda a: a)
simple('copy_p', lambda a: a)
simple('optimization_barrier', lambda a: a)
simple('real', lambda a: a)
simple('is_finite', lambda a: not isinstance(a, float))
simple('floor', t.floor_)
simple('ceil', lambda a: t.neg(t.floor_(t.neg(a))))
simple('nextafter', lambda a, b: a)
for _n in ('sin', 'cos', 'tan', 'tanh', 'erf', 'erfc', 'erf_inv', 'lgamma',
           'digamma', 'asin', 'acos', 'atan', 'sinh', 'cosh'):
  simple(_n, (lambda n: lambda a: t.uf(n, [a]))(_n))


@rule('round')
def _(vals, avals, params, oav):
  half_even = 'EVEN' in str(params['rounding_method'])

  def rnd(a):
    f = t.floor_(t.add(a, Fraction(1, 2)))
    if half_even:
      tie = t.eq(f, t.add(a, Fraction(1, 2)))
      odd = t.eq(t.irem(t.trunc_int(f), 2), 1)
      return t.ite(t.land(tie, odd), t.sub(f, Fraction(1)), f)
    return f
  return ew(rnd)(*vals)


@rule('sign')
def _(vals, avals, params, oav):
  one = Fraction(1) if isfloat(oav) else 1
  return ew(lambda a: t.ite(t.lt(0, a), one, t.ite(t.lt(a, 0), -one, one * 0)))(*vals)


@rule('div')
def _(vals, avals, params, oav):
  return ew(t.div if isfloat(oav) else t.idiv)(*vals)


@rule('rem')
def _(vals, avals, params, oav):
  return ew(t.irem)(*vals)


@rule('pow')
def _(vals, avals, params, oav):
  return ew(t.power)(*vals)


@rule('integer_pow')
def _(vals, avals, params, oav):
  return ew(lambda a: t.ipow(a, params['y']))(*vals)


@rule('and')
def _(vals, avals, params, oav):
  if isbool(oav):
    return ew(t.land)(*vals)
  return ew(_bitop(lambda a, b: a & b))(*vals)


@rule('or')
def _(vals, avals, params, oav):
  if isbool(oav):
    return ew(t.lor)(*vals)
  return ew(_bitop(lambda a, b: a | b))(*vals)


@rule('xor')
def _(vals, avals, params, oav):
  if isbool(oav):
    return ew(lambda a, b: t.lnot(t.eq(a, b)))(*vals)
  return ew(_bitop(lambda a, b: a ^ b))(*vals)


def _bitop(f):
  def g(a, b):
    if t.is_sym(a) or t.is_sym(b):
      raise Unsupported("bit operation on a symbolic integer")
    return f(a, b)
  return g


@rule('not')
def _(vals, avals, params, oav):
  if isbool(oav):
    return ew(t.lnot)(*vals)
  return ew(lambda a: t.sub(-1, a))(*vals)


@rule('clamp')
def _(vals, avals, params, oav):
  return ew(lambda lo, x, hi: t.minimum(t.maximum(x, lo), hi))(*vals)


@rule('select_n')
def _(vals, avals, params, oav):
  which, *cases = vals
  if isbool(avals[0]):
    f = lambda w, a, b: t.ite(w, b, a)  # noqa: E731
    return ew(f)(which, *cases)

  def g(w, *cs):
    r = cs[-1]
    for k in range(len(cs) - 2, -1, -1):
      r = t.ite(t.eq(w, k), cs[k], r)
    return r
  return ew(g)(which, *cases)


LOWP = {'float16', 'bfloat16'}


@rule('convert_element_type')
def _(vals, avals, params, oav):
  a, = vals
  src, dst = avals[0].dtype, oav.dtype
  if str(dst) in LOWP and str(src) not in LOWP and isfloat(avals[0]):
    return ew(lambda x: t.uf(f'round_{dst}', [x]))(a)
  if np.issubdtype(dst, np.integer) and isfloat(avals[0]):
    return coerce(a, dst)
  if np.issubdtype(dst, np.integer) and np.dtype(dst).itemsize < 4 \
      and np.issubdtype(src, np.integer):
    return ew(short(dst))(a)
  return coerce(a, dst)


@rule('reduce_precision')
def _(vals, avals, params, oav):
  return vals[0]


def reduce_with(f, init):
  def r(vals, avals, params, oav):
    a, = vals
    axes = tuple(sorted(params['axes']))
    keep = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, keep + list(axes)).reshape(
      [a.shape[i] for i in keep] + [-1])
    out = np.empty(b.shape[:-1], object)
    for i in np.ndindex(out.shape):
      acc = init(oav)
      for v in b[i]:
        acc = v if acc is None else f(acc, v)
      out[i] = acc
    return out
  return r


RULES['reduce_sum'] = reduce_with(t.add, lambda o: Fraction(0) if isfloat(o) else 0)
RULES['reduce_prod'] = reduce_with(t.mul, lambda o: Fraction(1) if isfloat(o) else 1)
RULES['reduce_max'] = reduce_with(t.maximum, lambda o: None)
RULES['reduce_min'] = reduce_with(t.minimum, lambda o: None)
RULES['reduce_and'] = reduce_with(t.land, lambda o: True)
RULES['reduce_or'] = reduce_with(t.lor, lambda o: False)


def _arg(better):
  def r(vals, avals, params, oav):
    a, = vals
    ax, = params['axes']
    b = np.moveaxis(a, ax, -1)
    out = np.empty(b.shape[:-1], object)
    for i in np.ndindex(out.shape):
      bi, bv = 0, b[i][0]
      for k in range(1, b.shape[-1]):
        c = better(b[i][k], bv)
        bi, bv = t.ite(c, k, bi), t.ite(c, b[i][k], bv)
      out[i] = bi
    return out
  return r


RULES['argmax'] = _arg(lambda x, y: t.lt(y, x))
RULES['argmin'] = _arg(lambda x, y: t.lt(x, y))


def _cum(f):
  def r(vals, avals, params, oav):
    a = vals[0]
    b = np.moveaxis(a, params['axis'], 0)
    if params['reverse']:
      b = b[::-1]
    rows = []
    for k in range(b.shape[0]):
      rows.append(_row(b, k) if k == 0 else ew(f)(rows[-1], _row(b, k)))
    out = stack(rows, b.shape[1:])
    if params['reverse']:
      out = out[::-1]
    return np.moveaxis(out, 0, params['axis'])
  return r


RULES['cumsum'] = _cum(t.add)
RULES['cumprod'] = _cum(t.mul)
RULES['cummax'] = _cum(t.maximum)
RULES['cummin'] = _cum(t.minimum)


@rule('dot_general')
def _(vals, avals, params, oav):
  a, b = vals
  (ca, cb), (ba, bb) = params['dimension_numbers']
  fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
  fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
  A = np.transpose(a, list(ba) + fa + list(ca))
  B = np.transpose(b, list(bb) + fb + list(cb))
  bs = A.shape[:len(ba)]
  sa = A.shape[len(ba):len(ba) + len(fa)]
  sb = B.shape[len(bb):len(bb) + len(fb)]
  A = A.reshape(bs + (int(np.prod(sa, dtype=int)), -1))
  B = B.reshape(bs + (int(np.prod(sb, dtype=int)), -1))
  out = np.empty(bs + (A.shape[-2], B.shape[-2]), object)
  for i in np.ndindex(bs):
    for p in range(A.shape[-2]):
      for q in range(B.shape[-2]):
        acc = Fraction(0) if isfloat(oav) else 0
        for x, y in zip(A[i][p], B[i][q]):
          acc = t.add(acc, t.mul(x, y))
        out[i + (p, q)] = acc
  return out.reshape(bs + sa + sb)


@rule('iota')
def _(vals, avals, params, oav):
  shape, dim = params['shape'], params['dimension']
  out = np.empty(shape, object)
  for i in np.ndindex(tuple(shape)):
    out[i] = Fraction(i[dim]) if isfloat(oav) else i[dim]
  return out


@rule('broadcast_in_dim')
def _(vals, avals, params, oav):
  a = vals[0]
  shape = tuple(params['shape'])
  inter = [1] * len(shape)
  for s, d in zip(a.shape, params['broadcast_dimensions']):
    inter[d] = s
  return np.broadcast_to(a.reshape(inter), shape).copy()


@rule('reshape')
def _(vals, avals, params, oav):
  if params.get('dimensions') is not None:
    raise Unsupported("reshape with dimensions")
  return vals[0].reshape(oav.shape)


@rule('squeeze')
def _(vals, avals, params, oav):
  return vals[0].reshape(oav.shape)


@rule('expand_dims')
def _(vals, avals, params, oav):
  return vals[0].reshape(oav.shape)


@rule('transpose')
def _(vals, avals, params, oav):
  return np.transpose(vals[0], params['permutation'])


@rule('rev')
def _(vals, avals, params, oav):
  return np.flip(vals[0], params['dimensions'])


@rule('concatenate')
def _(vals, avals, params, oav):
  return np.concatenate(vals, axis=params['dimension'])


@rule('slice')
def _(vals, avals, params, oav):
  st = params['strides'] or [1] * vals[0].ndim
  return vals[0][tuple(slice(a, b, c) for a, b, c in
                       zip(params['start_indices'], params['limit_indices'], st))]


def select_index(idx, hi, f):
  """sum over the values 0..hi of a symbolic clamped index: ite chain of f(k)"""
  if not t.is_sym(idx):
    return f(min(max(idx, 0), hi))
  outs = [f(k) for k in range(hi + 1)]
  r = outs[hi]
  for k in range(hi - 1, -1, -1):
    c = t.le(idx, 0) if k == 0 else t.eq(idx, k)
    r = ew(lambda a, b: t.ite(c, a, b))(outs[k], r)
  return r


@rule('dynamic_slice')
def _(vals, avals, params, oav):
  a, *idx = vals
  sizes = params['slice_sizes']
  idx = [i.reshape(())[()] for i in idx]

  def go(d, starts):
    if d == a.ndim:
      return a[tuple(slice(s, s + z) for s, z in zip(starts, sizes))]
    return select_index(idx[d], a.shape[d] - sizes[d],
                        lambda k: go(d + 1, starts + [k]))
  return go(0, [])


@rule('dynamic_update_slice')
def _(vals, avals, params, oav):
  a, u, *idx = vals
  idx = [i.reshape(())[()] for i in idx]

  def go(d, starts):
    if d == a.ndim:
      out = a.copy()
      out[tuple(slice(s, s + z) for s, z in zip(starts, u.shape))] = u
      return out
    return select_index(idx[d], a.shape[d] - u.shape[d],
                        lambda k: go(d + 1, starts + [k]))
  return go(0, [])


def _concrete_idx(idx, avals, cont):
  """Runs cont(concrete index array), merging over symbolic index entries."""
  flat = idx.ravel()
  syms = [k for k, v in enumerate(flat) if t.is_sym(v)]
  if not syms:
    return cont(lower(idx, np.int32))
  # enumerate the distinct symbolic index terms by path forking
  new = flat.copy()
  for k in syms:
    new[k] = ENGINE[0].concretize(flat[k])
  return cont(lower(new.reshape(idx.shape), np.int32))


def gather_map(prim, a_shape, idx, params):
  """positions in the operand (flat) of every output element; -1 = fill"""
  key = ('gather', a_shape, idx.tobytes(), idx.shape, str(params['dimension_numbers']),
         tuple(params['slice_sizes']), str(params['mode']))
  m = _GM.get(key)
  if m is None:
    with core.eval_context():
      p = dict(params)
      n = int(np.prod(a_shape, dtype=int))
      if 'FILL' in str(p['mode']):
        p['fill_value'] = -1
      op = np.arange(n, dtype=np.int32).reshape(a_shape)
      m = np.asarray(prim.bind(jnp.asarray(op), jnp.asarray(idx), **p))
    _GM[key] = m
  return m


_GM = {}


def _gather_sym_axis0(a, idx, params):
  """The common `x[i]` pattern with symbolic i: ite chain on one axis."""
  dn = params['dimension_numbers']
  if len(dn.start_index_map) != 1 or idx.shape[-1] != 1:
    return None
  d = dn.start_index_map[0]
  ss = params['slice_sizes']
  if tuple(dn.collapsed_slice_dims) != (d,) or ss[d] != 1:
    return None
  if any(s != a.shape[i] for i, s in enumerate(ss) if i != d):
    return None
  batch = idx.shape[:-1]
  rest = tuple(s for i, s in enumerate(a.shape) if i != d)
  mov = np.moveaxis(a, d, 0)
  out = np.empty(batch + rest, object)
  fill = 'FILL' in str(params['mode'])
  n = a.shape[d]
  for b in np.ndindex(batch):
    i = idx[b + (0,)]
    r = select_index(i, n - 1, lambda k: _row(mov, k))
    if fill:
      ok = t.land(t.le(0, i), t.lt(i, n))
      oob = t.uf('oob', [i])
      r = ew(lambda v: t.ite(ok, v, oob))(r) if t.is_sym(ok) else (
        r if ok else ew(lambda v: oob)(r))
    out[b] = r if r.shape else r[()]
  # output layout: offset dims are placed at dn.offset_dims
  nd = out.ndim
  off = list(dn.offset_dims)
  bd = [i for i in range(nd) if i not in off]
  perm = [0] * nd
  for k, pos in enumerate(bd):
    perm[pos] = k
  for k, pos in enumerate(off):
    perm[pos] = len(batch) + k
  return np.transpose(out, perm)


@rule('gather')
def _(vals, avals, params, oav):
  a, idx = vals
  if has_sym(idx) and a.dtype == object:
    real = isfloat(avals[0])
    if real or np.issubdtype(avals[0].dtype, np.integer):
      r = _gather_sym_axis0(a, idx, params)
      if r is not None:
        return coerce(r, avals[0].dtype)

  def cont(ci):
    m = gather_map(lax.gather_p, a.shape, ci, params)
    flat = a.ravel()
    out = np.empty(m.shape, object)
    for i in np.ndindex(m.shape):
      out[i] = flat[m[i]] if m[i] >= 0 else t.uf('oob', [int(-1)])
    return out
  return _concrete_idx(idx, avals, cont)


def _scatter(f):
  def r(vals, avals, params, oav):
    a, idx, u = vals
    dn = params['dimension_numbers']
    # symbolic position along one axis
    if has_sym(idx) and idx.size == 1 and len(dn.inserted_window_dims) == 1 \
        and tuple(dn.scatter_dims_to_operand_dims) == tuple(dn.inserted_window_dims):
      d = dn.inserted_window_dims[0]
      i = idx.ravel()[0]
      mov = np.moveaxis(a, d, 0).copy()
      uu = u.reshape(mov.shape[1:])
      for k in range(mov.shape[0]):
        c = t.eq(i, k)
        r = ew(lambda o, n: t.ite(c, n, o))(_row(mov, k), ew(f)(_row(mov, k), uu))
        mov[k] = r if r.shape else r[()]
      return np.moveaxis(mov, 0, d)

    def cont(ci):
      p = dict(params)
      n = int(np.prod(u.shape, dtype=int))
      out = a.copy().ravel()
      # find the target of every update element with a one-hot real scatter
      key = ('scatter', a.shape, ci.tobytes(), ci.shape, u.shape, str(dn),
             str(p['mode']))
      tgt = _GM.get(key)
      if tgt is None:
        tgt = []
        with core.eval_context():
          dims = lax.ScatterDimensionNumbers(
            dn.update_window_dims, dn.inserted_window_dims,
            dn.scatter_dims_to_operand_dims)
          for k in range(n):
            one = np.zeros(n, np.int32)
            one[k] = 1
            res = np.asarray(lax.scatter_add(
              jnp.zeros(a.shape, jnp.int32), jnp.asarray(ci),
              jnp.asarray(one.reshape(u.shape)), dims, mode=p['mode'])).ravel()
            w = np.nonzero(res)[0]
            tgt.append(int(w[0]) if len(w) else -1)
        _GM[key] = tgt
      uf = u.ravel()
      for k, pos in enumerate(tgt):
        if pos >= 0:
          out[pos] = f(out[pos], uf[k])
      return out.reshape(a.shape)
    return _concrete_idx(idx, avals, cont)
  return r


RULES['scatter'] = _scatter(lambda o, n: n)
RULES['scatter-add'] = RULES['scatter_add'] = _scatter(t.add)
RULES['scatter-mul'] = RULES['scatter_mul'] = _scatter(t.mul)
RULES['scatter_min'] = _scatter(t.minimum)
RULES['scatter_max'] = _scatter(t.maximum)


@rule('pad')
def _(vals, avals, params, oav):
  a, pv = vals
  out = np.empty(oav.shape, object)
  out[...] = pv.reshape(())[()]
  for i in np.ndindex(a.shape):
    j = tuple(lo + k * (st + 1) for k, (lo, hi, st) in
              zip(i, params['padding_config']))
    if all(0 <= x < s for x, s in zip(j, oav.shape)):
      out[j] = a[i]
  return out


@rule('sort')
def _(vals, avals, params, oav):
  d, nk = params['dimension'], params['num_keys']
  arrs = [np.moveaxis(v, d, -1).copy() for v in vals]
  for i in np.ndindex(arrs[0].shape[:-1]):
    rows = [list(a[i]) for a in arrs]
    n = len(rows[0])
    for p in range(n):            # insertion network (stable)
      for q in range(p, 0, -1):
        c = False
        e = True
        for k in range(nk):
          c = t.lor(c, t.land(e, t.lt(rows[k][q], rows[k][q - 1])))
          e = t.land(e, t.eq(rows[k][q], rows[k][q - 1]))
        for r in rows:
          r[q - 1], r[q] = t.ite(c, r[q], r[q - 1]), t.ite(c, r[q - 1], r[q])
    for a, r in zip(arrs, rows):
      for k in range(n):
        a[i + (k,)] = r[k]
  return [np.moveaxis(a, -1, d) for a in arrs]


@rule('split')
def _(vals, avals, params, oav):
  return list(np.split(vals[0], np.cumsum(params['sizes'])[:-1], axis=params['axis']))


def _mat_atoms(fn, a, k, shape):
  out = np.empty(shape, object)
  args = list(a.ravel())
  for i in np.ndindex(shape):
    out[i] = t.uf(f"{fn}.{k}{list(i)}", args)
  return out


def matmul(a, b):
  out = np.empty((a.shape[0], b.shape[1]), object)
  for i in range(a.shape[0]):
    for j in range(b.shape[1]):
      acc = Fraction(0)
      for k in range(a.shape[1]):
        acc = t.add(acc, t.mul(a[i, k], b[k, j]))
      out[i, j] = acc
  return out


def assume_eq(a, b):
  for i in np.ndindex(a.shape):
    ENGINE[0].assume(t.eq(a[i], b[i]))


def eye(n):
  out = np.empty((n, n), object)
  for i in np.ndindex(n, n):
    out[i] = Fraction(int(i[0] == i[1]))
  return out


def _orthogonal(fn, k, a):
  """An arbitrary orthogonal matrix determined by a.

  Every orthogonal matrix of size two is [[c, -r s], [s, r c]] with r = +-1.
  """
  n = a.shape[0]
  args = list(a.ravel())
  out = np.empty((n, n), object)
  if n > 2:
    q = _mat_atoms(fn, a, k, (n, n))
    assume_eq(matmul(q.T, q), eye(n))
    assume_eq(matmul(q, q.T), eye(n))
    return q
  r = t.uf(f"{fn}.{k}r", args)
  ENGINE[0].assume(t.eq(t.mul(r, r), Fraction(1)))
  t.rewrite(t.mul(r, r), Fraction(1))
  if n == 1:
    out[0, 0] = r
    return out
  c, s = t.uf(f"{fn}.{k}c", args), t.uf(f"{fn}.{k}s", args)
  one = t.sub(Fraction(1), t.mul(c, c))
  ENGINE[0].assume(t.eq(t.mul(s, s), one))
  t.rewrite(t.mul(s, s), one)
  out[0, 0], out[1, 0] = c, s
  out[0, 1], out[1, 1] = t.neg(t.mul(r, s)), t.mul(r, c)
  return out


def _diag(w):
  d = eye(len(w))
  for i, x in enumerate(w):
    d[i, i] = x
  return d


def _definite(a, strict):
  """Positive (semi-)definite symmetric matrix, for size 1 and 2."""
  f = t.lt if strict else t.le
  z = Fraction(0)
  c = f(z, a[0, 0])
  if a.shape[0] == 2:
    c = t.land(c, f(z, a[1, 1]))
    c = t.land(c, f(z, t.sub(t.mul(a[0, 0], a[1, 1]), t.mul(a[0, 1], a[1, 0]))))
  return c


def _decomposition(a, b):
  """The entries of a equal those of its decomposition b."""
  assume_eq(b, a)
  for i in np.ndindex(a.shape):
    if i[0] <= i[1]:
      t.rewrite(a[i], b[i])


@rule('eigh')
def _(vals, avals, params, oav):
  # A = V diag(w) V^T with orthogonal V and increasing w
  a, = vals
  n = a.shape[-1]
  if a.ndim != 2:
    raise Unsupported("batched eigh")
  # documented contract: reads the lower/upper triangle of a symmetric matrix
  s = a.copy()
  for i in range(n):
    for j in range(n):
      s[i, j] = a[max(i, j), min(i, j)] if params.get('lower', True) else a[min(i, j), max(i, j)]
  w = _mat_atoms('eigh', s, 'w', (n,))
  v = _orthogonal('eigh', 'v', s)
  for i in range(1, n):
    ENGINE[0].assume(t.le(w[i - 1], w[i]))
  if n <= 2 and ENGINE[0].decide(_definite(s, True)):
    for x in w:
      ENGINE[0].assume(t.lt(Fraction(0), x))
  _decomposition(s, matmul(v, matmul(_diag(w), v.T)))
  return [v, w]


@rule('svd')
def _(vals, avals, params, oav):
  # A = U diag(s) V with orthogonal U, V and decreasing s >= 0
  a, = vals
  n = a.shape[-1]
  if a.ndim != 2 or a.shape[0] != n:
    raise Unsupported("svd of a batch or of a rectangular matrix")
  w = _mat_atoms('svd', a, 's', (n,))
  for i in range(n):
    ENGINE[0].assume(t.le(Fraction(0), w[i]))
    if i:
      ENGINE[0].assume(t.le(w[i], w[i - 1]))
  if not params.get('compute_uv', True):
    return [w]
  u = _orthogonal('svd', 'u', a)
  sym = all(t.canon(t.eq(a[i, j], a[j, i])) is True
            for i in range(n) for j in range(i))
  if sym and n <= 2 and ENGINE[0].decide(_definite(a, False)):
    # of a positive semi-definite matrix: U = V^T up to the signs of columns with
    # the singular value zero
    _decomposition(a, matmul(u, matmul(_diag(w), u.T)))
    return [w, u, u.T]
  v = _orthogonal('svd', 'v', a)
  assume_eq(matmul(u, matmul(_diag(w), v)), a)
  return [w, u, v]


STRUCT = set()


def eval_struct(prim, vals, avals, params, oav):
  """Concrete inputs: evaluate with the real primitive."""
  args = [lower(v, a.dtype) for v, a in zip(vals, avals)]
  with core.eval_context():
    r = prim.bind(*[jnp.asarray(x) for x in args], **params)
  if prim.multiple_results:
    return [to_obj(np.asarray(x)) for x in r], oav
  return to_obj(np.asarray(r)), oav


# -- control flow ------------------------------------------------------------

CONTROL = {}


def control(*names):
  def deco(f):
    for n in names:
      CONTROL[n] = f
    return f
  return deco


def eval_jaxpr(jaxpr, consts, args):
  """jaxpr: core.Jaxpr; consts/args: object arrays"""
  env = {}

  def read(v):
    if type(v) is core.Literal:
      return to_obj(v.val)
    return env[v]

  for v, x in zip(jaxpr.constvars, consts):
    env[v] = x
  for v, x in zip(jaxpr.invars, args):
    env[v] = x
  for eqn in jaxpr.eqns:
    ins = [read(v) for v in eqn.invars]
    avs = [v.aval for v in eqn.invars]
    out, _ = eval_prim(eqn.primitive, ins, avs, eqn.params)
    if not eqn.primitive.multiple_results:
      out = [out]
    for v, x in zip(eqn.outvars, out):
      env[v] = x
  return [read(v) for v in jaxpr.outvars]


def closed(cj, args):
  consts = [to_obj(c) for c in cj.consts]
  return eval_jaxpr(cj.jaxpr, consts, args)


@control('pjit', 'xla_call', 'core_call', 'core_closed_call', 'closed_call',
         'remat', 'checkpoint', 'remat2', 'custom_lin_call')
def _(vals, avals, params):
  cj = params.get('jaxpr') or params.get('call_jaxpr')
  if isinstance(cj, core.ClosedJaxpr):
    return closed(cj, vals), [v.aval for v in cj.jaxpr.outvars]
  return eval_jaxpr(cj, [], vals), [v.aval for v in cj.outvars]


@control('custom_jvp_call')
def _(vals, avals, params):
  cj = params['call_jaxpr']
  return closed(cj, vals), [v.aval for v in cj.jaxpr.outvars]


@control('custom_vjp_call_jaxpr')
def _(vals, avals, params):
  cj = params['fun_jaxpr']
  return closed(cj, vals), [v.aval for v in cj.jaxpr.outvars]


@control('scan')
def _(vals, avals, params):
  nc, nk = params['num_consts'], params['num_carry']
  consts, carry, xs = vals[:nc], list(vals[nc:nc + nk]), vals[nc + nk:]
  cj, n = params['jaxpr'], params['length']
  oav = [v.aval for v in cj.jaxpr.outvars]
  ys = [[None] * n for _ in oav[nk:]]
  order = range(n - 1, -1, -1) if params['reverse'] else range(n)
  for i in order:
    out = closed(cj, list(consts) + carry + [_row(x, i) for x in xs])
    carry = out[:nk]
    for k, y in enumerate(out[nk:]):
      ys[k][i] = y
  stacked = []
  for y, av in zip(ys, oav[nk:]):
    stacked.append(stack(y, av.shape))
  oavs = oav[:nk] + [core.ShapedArray((n,) + a.shape, a.dtype) for a in oav[nk:]]
  return carry + stacked, oavs


def _row(x, i):
  return x[i:i + 1].reshape(x.shape[1:])


def stack(rows, shape):
  out = np.empty((len(rows),) + tuple(shape), object)
  for k, r in enumerate(rows):
    if tuple(shape):
      out[k] = r
    else:
      out[k] = r.reshape(())[()]
  return out


@control('cond')
def _(vals, avals, params):
  idx, *ops = vals
  branches = params['branches']
  i = idx.reshape(())[()]
  n = len(branches)
  if isinstance(i, bool) or (t.is_sym(i) and z3.is_bool(i)):
    k = int(ENGINE[0].decide(i))
  elif not t.is_sym(i):
    k = min(max(int(i), 0), n - 1)
  else:
    k = n - 1
    for b in range(n - 1):
      c = t.le(i, 0) if b == 0 else t.eq(i, b)
      if ENGINE[0].decide(c):
        k = b
        break
  cj = branches[k]
  return closed(cj, ops), [v.aval for v in cj.jaxpr.outvars]


@control('while')
def _(vals, avals, params):
  cn, bn = params['cond_nconsts'], params['body_nconsts']
  cc, bc, carry = vals[:cn], vals[cn:cn + bn], list(vals[cn + bn:])
  for _ in range(10000):
    p, = closed(params['cond_jaxpr'], list(cc) + carry)
    if p.shape != ():
      raise Unsupported("batched while condition")
    if not ENGINE[0].decide(p[()]):
      break
    carry = closed(params['body_jaxpr'], list(bc) + carry)
  else:
    raise Unsupported("while loop bound")
  return carry, list(avals[cn + bn:])


def _host(x, av):
  """object array -> what a host callback receives"""
  if not has_sym(x):
    return lower(x, av.dtype)
  out = np.empty(x.shape, object)
  for i in np.ndindex(x.shape):
    out[i] = SV(x[i])
  return HostArray(out)


class HostArray(np.ndarray):
  """Object array of symbolic scalars, as seen by host callbacks."""
  def __new__(cls, a):
    return np.asarray(a, dtype=object).view(cls)

  def __array_finalize__(self, obj):
    pass

  def __int__(self):
    return int(self.reshape(-1)[0])

  __index__ = __int__


CALLBACK_HOOK = [None]     # sees (callback, arguments) of host callbacks


@control('io_callback', 'pure_callback')
def _(vals, avals, params):
  cb, args = params['callback'], [_host(v, a) for v, a in zip(vals, avals)]
  res = CALLBACK_HOOK[0](cb, args) if CALLBACK_HOOK[0] else cb(*args)
  outs = []
  for r, av in zip(res, params['result_avals']):
    o = to_obj(r)
    if o.shape != tuple(av.shape):
      raise RuntimeError(f"host callback returned shape {o.shape}, declared "
                         f"{av.shape}")
    dt = getattr(r, 'dtype', None)     # the compiled callback compares the types, too
    if dt is not None and dt != object and np.dtype(dt) != np.dtype(av.dtype):
      raise RuntimeError(f"host callback returned {dt}, declared {av.dtype}")
    outs.append(coerce(o, av.dtype))
  return outs, [core.ShapedArray(a.shape, a.dtype) for a in params['result_avals']]


def custom_prim(name, abstract, sym, impl, multiple=False):
  """A new primitive with symbolic and concrete semantics."""
  p = core.Primitive(name)
  p.multiple_results = multiple
  p.def_abstract_eval(abstract)
  p.def_impl(impl)

  def lowering(ctx, *args, **params):
    # reached only when real XLA compiles the code (never in the checks)
    raise NotImplementedError(f"{name} has no lowering; use disable_jit")
  mlir.register_lowering(p, lowering)
  RULES[name] = lambda vals, avals, params, oav: sym(vals, avals, params, oav)
  return p
