"""Environment models shared by symbolic and concrete (replay) execution.

Replaced pieces of the environment (never code of /repo): jax.random, numpy's
random Generator, host_callback.id_tap.  Every model has a symbolic meaning
(free input / uninterpreted value) and a concrete one (value looked up in the
counterexample being replayed).  Import this module before jax_sgmc.
"""
import hashlib
import math
from fractions import Fraction

import numpy as np
import jax
import jax.numpy as jnp
import jax.random
from jax import core, tree_util
from jax._src import dtypes
from jax.interpreters import ad, batching
from jax.experimental import host_callback

from . import terms as t
from . import trace
from .trace import SV
from .engine import Unsupported


class Run:
  """State of one execution (symbolic path or concrete replay)."""

  def __init__(self, sym, engine=None, values=None, ufs=None, salt=0):
    self.sym = sym
    self.engine = engine
    self.values = values or {}
    self.ufs = ufs or {}
    self.salt = salt
    self.keys = ['?']
    self.key_id = {'?': 0}
    self.key_log = []      # (operation, key path, detail)
    self.draws = {}        # name -> kind
    self.tap_queue = None  # list: host callbacks wait until they are scheduled
    self.assumed = set()
    self.used = {}
    self.noise = None      # override of normal draws: name -> number
    self.noise_names = []
    self.rngs = []         # numpy generators in the order of their draws
    self.weights = []      # probabilities given to choice
    self.path_names = None # dict: name draws by the order of the keys' first use

  def key(self, path):
    if path not in self.key_id:
      self.key_id[path] = len(self.keys)
      self.keys.append(path)
    return self.key_id[path]

  def rnd(self, name):
    h = hashlib.sha256(f"{self.salt}|{name}".encode()).digest()
    return int.from_bytes(h[:8], 'big') / 2.0 ** 64

  def value(self, name, kind, lo=None, hi=None):
    """Concrete value of an input."""
    if name in self.values:
      v = self.values[name]
    elif kind == 'real':
      u = self.rnd(name)
      if lo is not None and hi is not None:
        v = float(lo) + (float(hi) - float(lo)) * (0.05 + 0.9 * u)
      elif lo is not None:
        v = float(lo) + 0.05 + 1.5 * u
      elif hi is not None:
        v = float(hi) - 0.05 - 1.5 * u
      else:
        v = 3.0 * u - 1.5
    elif kind == 'int':
      v = int(lo) + int(self.rnd(name) * (int(hi) - int(lo) + 1))
    else:
      v = self.rnd(name) < 0.5
    self.used[name] = v
    return v


RUN = [None]


def run():
  if RUN[0] is None:
    RUN[0] = Run(False)
  return RUN[0]


def draw(name, kind, lo=None, hi=None, strict=False):
  """An input scalar: symbolic term or concrete python number."""
  r = run()
  r.draws[name] = kind
  if not r.sym:
    return r.value(name, kind, lo, hi)
  z = t.T.input(name, kind)
  if (lo is not None or hi is not None) and name not in r.assumed:
    r.assumed.add(name)
    if lo is not None:
      z0 = t.toz(Fraction(lo) if kind == 'real' else int(lo))
      r.engine.assume(z > z0 if strict else z >= z0)
    if hi is not None:
      z1 = t.toz(Fraction(hi) if kind == 'real' else int(hi))
      r.engine.assume(z < z1 if strict else z <= z1)
  return z


# -- PRNG keys ---------------------------------------------------------------
# A key is uint32[2] = (index into Run.keys, 0xA5); its path is a term of the
# free algebra over root seeds, split and fold_in.

TAG = 0xA5


def _path(r, words):
  kid = words[0]
  if t.is_sym(kid):
    kid = r.engine.concretize(kid)
  return r.keys[int(kid)]


def _mk(r, path):
  return (r.key(path), TAG)


def _keys_map(f, shape_tail):
  """lift f(path)->nested result over leading batch dims of a key array"""
  def go(kv, *rest):
    r = run()
    lead = kv.shape[:-1]
    out = np.empty(lead + tuple(shape_tail), object)
    for i in np.ndindex(lead):
      res = f(r, _path(r, kv[i]), *[x if x.ndim == 0 or x.shape[:len(lead)] != lead
                                    else x[i] for x in rest])
      for j in np.ndindex(tuple(shape_tail)):
        out[i + j] = res[j] if isinstance(res, np.ndarray) else res
    return out
  return go


def _prim(name, out_aval, fn):
  """fn(params)(object arrays)-> object array"""
  def abstract(*avals, **params):
    return out_aval(avals, params)

  def sym(vals, avals, params, oav):
    return fn(params)(*vals)

  def impl(*args, **params):
    vals = [trace.to_obj(np.asarray(a)) if False else _obj(np.asarray(a))
            for a in args]
    res = fn(params)(*vals)
    oav = out_aval([core.get_aval(a) for a in args], params)
    return jnp.asarray(trace.lower(res, oav.dtype))
  p = trace.custom_prim(name, abstract, sym, impl)

  def batch(args, dims, **params):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
    moved = []
    for k, (a, d) in enumerate(zip(args, dims)):
      if d is None or d is batching.not_mapped:
        if k == 0:
          a = jnp.broadcast_to(a, (size,) + a.shape)
      else:
        a = jnp.moveaxis(a, d, 0)
      moved.append(a)
    return p.bind(*moved, **params), 0
  batching.primitive_batchers[p] = batch
  ad.primitive_jvps[p] = lambda primals, tangents, **params: (
    lambda o: (o, ad.Zero.from_value(o)))(p.bind(*primals, **params))
  return p


def _obj(a):
  out = np.empty(a.shape, object)
  for i in np.ndindex(a.shape):
    out[i] = a[i].item()
  return out


def _split_fn(params):
  num = params['num']

  def f(r, path):
    r.key_log.append(('split', path, num))
    out = np.empty((num, 2), object)
    for k in range(num):
      out[k] = _mk(r, f"{path}.{num}:{k}")
    return out
  return _keys_map(f, (num, 2))


split_p = _prim('vsplit', lambda av, p: core.ShapedArray(
  av[0].shape[:-1] + (p['num'], 2), np.dtype('uint32')), _split_fn)


def _fold_fn(params):
  def f(r, path, data):
    d = data[()] if hasattr(data, 'shape') else data
    if t.is_sym(d):
      d = r.engine.concretize(d)
    r.key_log.append(('fold_in', path, int(d)))
    return np.array(_mk(r, f"{path}.f{int(d)}"), object)
  return _keys_map(f, (2,))


fold_p = _prim('vfold', lambda av, p: core.ShapedArray(
  av[0].shape[:-1] + (2,), np.dtype('uint32')), _fold_fn)


def _names(kind, path, shape):
  pn = run().path_names
  if pn is not None:
    path = pn.setdefault(path, f"k{len(pn)}")
  for j in np.ndindex(tuple(shape)):
    yield j, f"{kind}[{path}]{list(shape)}@{list(j)}"


def _draw_fn(params):
  kind, shape = params['kind'], tuple(params['shape'])

  def f(r, path, *ops):
    r.key_log.append((kind, path, shape))
    out = np.empty(shape, object)
    ops = [o[()] if hasattr(o, 'shape') and o.shape == () else o for o in ops]
    if kind == 'choice':
      return _choice(r, path, shape, ops, params)
    for j, name in _names(kind, path, shape):
      if kind == 'normal':
        if name not in r.noise_names:
          r.noise_names.append(name)
        v = None if r.noise is None else r.noise(name)
        out[j] = draw(name, 'real') if v is None else (
          Fraction(v) if r.sym else float(v))
      elif kind == 'uniform':
        out[j] = draw(name, 'real', 0, 1, strict=True)
      elif kind == 'exponential':
        out[j] = draw(name, 'real', 0, None, strict=True)
      elif kind == 'randint':
        lo, hi = ops
        if t.is_sym(lo) or t.is_sym(hi):
          v = draw(name, 'int')
          r.engine.assume(t.le(lo, v))
          r.engine.assume(t.lt(v, hi))
          out[j] = v
        else:
          out[j] = draw(name, 'int', int(lo), max(int(lo), int(hi) - 1))
      elif kind == 'bernoulli':
        out[j] = draw(name, 'bool')
      else:
        out[j] = draw(name, 'real')
    return out
  return _keys_map(f, shape)


def _choice(r, path, shape, ops, params):
  n, replace = params['n'], params['replace']
  size = int(np.prod(shape, dtype=int))
  names = [nm for _, nm in _names('choice', path, shape)]
  out = np.empty(shape, object)
  p = list(ops[0].ravel()) if ops else None
  r.weights.append([Fraction(1)] * n if p is None else p)
  if r.sym:
    vs = [draw(nm, 'int', 0, n - 1) for nm in names]
    if not replace:
      r.engine.assume(t.z3.Distinct(*vs) if len(vs) > 1 else t.z3.BoolVal(True))
    if p is not None:
      for v in vs:
        for k in range(n):
          pk = p[k]
          r.engine.assume(t.implies(t.eq(v, k), t.lt(0, pk)))
  else:
    vs = concrete_choice(r, names, n, replace, p)
  for k, j in enumerate(np.ndindex(shape)):
    out[j] = vs[k]
  return out


def concrete_choice(r, names, n, replace, p=None):
  vals = [r.values.get(nm) for nm in names]
  ok = all(v is not None and 0 <= v < n for v in vals)
  if ok and (replace or len(set(vals)) == len(vals)) and (
      p is None or all(p[int(v)] > 0 for v in vals)):
    return [int(v) for v in vals]
  support = [k for k in range(n) if p is None or p[k] > 0]
  out = []
  for nm in names:
    pool = support if replace else [k for k in support if k not in out]
    out.append(pool[int(r.rnd(nm) * len(pool)) % len(pool)])
  for nm, v in zip(names, out):
    r.used[nm] = v
  return out


def _draw_aval(av, p):
  dt = {'randint': np.int32, 'choice': np.int32, 'bernoulli': np.bool_}.get(
    p['kind'])
  if dt is None:
    dt = dtypes.canonicalize_dtype(np.float64)
  return core.ShapedArray(av[0].shape[:-1] + tuple(p['shape']), np.dtype(dt))


draw_p = _prim('vdraw', _draw_aval, _draw_fn)


def _keyarr(key):
  if isinstance(key, np.ndarray):
    return jnp.asarray(key)
  return key


def PRNGKey(seed, *, impl=None):
  del impl
  try:
    s = str(int(seed))
  except Exception as e:  # pylint: disable=broad-except
    raise Unsupported("PRNGKey of a traced seed") from e
  return jnp.asarray(np.array(_mk(run(), f"root{s}"), np.uint32))


def split(key, num=2):
  if isinstance(num, (tuple, list)):
    raise Unsupported("split with a shape")
  return split_p.bind(_keyarr(key), num=int(num))


def fold_in(key, data):
  return fold_p.bind(_keyarr(key), jnp.asarray(data, dtype=jnp.int32))


def _shape(s):
  if s is None:
    return ()
  return (int(s),) if np.ndim(s) == 0 else tuple(int(x) for x in s)


def normal(key, shape=(), dtype=None):
  r = draw_p.bind(_keyarr(key), kind='normal', shape=_shape(shape))
  return r if dtype is None or dtype is float else r.astype(dtype)


UNIFORM = [None]  # value of the uniform draws of a floating point run


def uniform(key, shape=(), dtype=None, minval=0., maxval=1.):
  u = UNIFORM[0] if UNIFORM[0] is not None and not _shape(shape) else draw_p.bind(_keyarr(key), kind='uniform', shape=_shape(shape))
  if dtype is not None and dtype is not float:
    u = u.astype(dtype)
  if isinstance(minval, (int, float)) and isinstance(maxval, (int, float)) \
      and minval == 0 and maxval == 1:
    return u
  return minval + u * (maxval - minval)


def randint(key, shape, minval, maxval, dtype=None):
  lo = jnp.asarray(minval, dtype=jnp.int32)
  hi = jnp.asarray(maxval, dtype=jnp.int32)
  return draw_p.bind(_keyarr(key), lo, hi, kind='randint', shape=_shape(shape))


def exponential(key, shape=(), dtype=None):
  return draw_p.bind(_keyarr(key), kind='exponential', shape=_shape(shape))


def bernoulli(key, p=0.5, shape=None):
  if shape is None:
    shape = jnp.shape(p)
  return uniform(key, shape) < p


def choice(key, a, shape=(), replace=True, p=None, axis=0):
  scalar = jnp.ndim(a) == 0
  n = int(a) if scalar else a.shape[axis]
  ops = () if p is None else (jnp.asarray(p),)
  idx = draw_p.bind(_keyarr(key), *ops, kind='choice', shape=_shape(shape), n=n,
                    replace=bool(replace))
  if scalar:
    return idx
  return jnp.take(jnp.asarray(a), idx, axis=axis)


def permutation(key, x, axis=0, independent=False):
  scalar = jnp.ndim(x) == 0
  n = int(x) if scalar else x.shape[axis]
  idx = draw_p.bind(_keyarr(key), kind='choice', shape=(n,), n=n, replace=False)
  return idx if scalar else jnp.take(jnp.asarray(x), idx, axis=axis)


def _unsupported(name):
  def f(*a, **k):
    raise Unsupported(f"jax.random.{name}")
  return f


PATCHED = dict(PRNGKey=PRNGKey, split=split, fold_in=fold_in, normal=normal,
               uniform=uniform, randint=randint, exponential=exponential,
               bernoulli=bernoulli, choice=choice, permutation=permutation,
               shuffle=permutation)
for _n in ('key', 'gumbel', 'categorical', 'multivariate_normal', 'laplace',
           'truncated_normal', 'gamma', 'beta', 'bits', 'cauchy', 'dirichlet',
           't', 'poisson', 'rademacher', 'logistic'):
  PATCHED[_n] = _unsupported(_n)


# -- uninterpreted functions over arrays -------------------------------------

def _smooth(r, name, args):
  """Default interpretation of an uninterpreted function in a replay."""
  acc = r.rnd(name) - 0.5
  for k, a in enumerate(args):
    w = 0.4 + 1.3 * r.rnd(f"{name}|w{k}")
    acc += math.sin(w * float(a) + 6.28 * r.rnd(f"{name}|p{k}")) \
        * (0.5 + r.rnd(f"{name}|a{k}"))
  return acc


def uf_scalar(name, args):
  r = run()
  if r.sym:
    return t.uf(name, [t.to_real(a) for a in args])
  args = [float(a) for a in args]
  best = None
  for av, out in r.ufs.get(name, ()):
    if len(av) != len(args):
      continue
    err = max((abs(x - y) / (1 + abs(y)) for x, y in zip(args, av)), default=0)
    if err < 1e-4 and (best is None or err < best[0]):
      best = (err, out)
  if best is not None:
    return best[1]
  return _smooth(r, name, args)


def _uf_fn(params):
  name, shape, nb = params['name'], tuple(params['shape']), params['nb']

  def f(*args):
    lead = args[0].shape[:nb] if args else ()
    out = np.empty(lead + shape, object)
    for i in np.ndindex(lead):
      flat = []
      for a in args:
        flat += list(a[i].ravel()) if hasattr(a[i], 'ravel') else [a[i]]
      for j in np.ndindex(shape):
        out[i + j] = uf_scalar(f"{name}{list(j)}", flat)
    return out
  return f


def _uf_abstract(*avals, name, shape, nb):
  lead = avals[0].shape[:nb] if avals else ()
  return core.ShapedArray(lead + tuple(shape),
                          np.dtype(dtypes.canonicalize_dtype(np.float64)))


uf_p = trace.custom_prim(
  'vuf', _uf_abstract,
  lambda vals, avals, params, oav: _uf_fn(params)(*vals),
  lambda *args, **params: jnp.asarray(trace.lower(
    _uf_fn(params)(*[_obj(np.asarray(a)) for a in args]),
    dtypes.canonicalize_dtype(np.float64))))


def _uf_batch(args, dims, *, name, shape, nb):
  size = next(a.shape[d] for a, d in zip(args, dims)
              if d is not batching.not_mapped)
  moved = [jnp.broadcast_to(a, (size,) + a.shape) if d is batching.not_mapped
           else jnp.moveaxis(a, d, 0) for a, d in zip(args, dims)]
  return uf_p.bind(*moved, name=name, shape=shape, nb=nb + 1), 0


batching.primitive_batchers[uf_p] = _uf_batch


def _uf_jvp(primals, tangents, *, name, shape, nb):
  out = uf_p.bind(*primals, name=name, shape=shape, nb=nb)
  tan = None
  for k, (x, dx) in enumerate(zip(primals, tangents)):
    if type(dx) is ad.Zero or not jnp.issubdtype(x.dtype, jnp.floating):
      continue
    d = uf_p.bind(*primals, name=f"{name}.d{k}", shape=tuple(shape) + x.shape[nb:],
                  nb=nb)
    lead = dx.shape[:nb]
    dxr = dx.reshape(lead + (1,) * len(shape) + dx.shape[nb:])
    term = d * dxr
    axes = tuple(range(nb + len(shape), term.ndim))
    term = jnp.sum(term, axis=axes) if axes else term
    tan = term if tan is None else tan + term
  if tan is None:
    tan = ad.Zero.from_value(out)
  return out, tan


ad.primitive_jvps[uf_p] = _uf_jvp


def UF(name, *args, shape=()):
  """Uninterpreted array function (differentiable) of array arguments."""
  flat = [jnp.asarray(a) for a in tree_util.tree_leaves(args)]
  return uf_p.bind(*flat, name=name, shape=tuple(shape), nb=0)


# -- id_tap ------------------------------------------------------------------

TAPS = []


def _tap_fn(params, vals, avals, host):
  cb, na, tree = TAPS[params['tap']]
  args = tree_util.tree_unflatten(tree, [host(v, a) for v, a in
                                         zip(vals[:na], avals[:na])])
  if run().tap_queue is None:
    cb(args, ())
  else:
    run().tap_queue.append(lambda: cb(args, ()))
  return list(vals[na:])


def _tap_abstract(*avals, tap):
  return list(avals[TAPS[tap][1]:])


def _tap_sym(vals, avals, params, oav):
  return _tap_fn(params, vals, avals, trace._host)


def _tap_impl(*args, tap):
  return _tap_fn(dict(tap=tap), list(args), [None] * len(args),
                 lambda v, a: np.asarray(v))


tap_p = trace.custom_prim('vtap', _tap_abstract, _tap_sym, _tap_impl, multiple=True)


def _tap_batch(args, dims, *, tap):
  moved = [a if d is batching.not_mapped else jnp.moveaxis(a, d, 0)
           for a, d in zip(args, dims)]
  out = tap_p.bind(*moved, tap=tap)
  return out, [batching.not_mapped if d is batching.not_mapped else 0
               for d in dims[TAPS[tap][1]:]]


batching.primitive_batchers[tap_p] = _tap_batch


def id_tap(tap_func, arg, *, result=None, tap_with_device=False,
           device_index=0, callback_flavor=None, **kwargs):
  if tap_with_device:
    raise Unsupported("id_tap with device")
  flat, tree = tree_util.tree_flatten(arg)
  rflat, rtree = tree_util.tree_flatten(arg if result is None else result)
  TAPS.append((tap_func, len(flat), tree))
  out = tap_p.bind(*[jnp.asarray(x) for x in flat + rflat], tap=len(TAPS) - 1)
  return tree_util.tree_unflatten(rtree, out)


# -- pmap --------------------------------------------------------------------

def pmap(fun, axis_name=None, *, in_axes=0, out_axes=0, **kw):
  """Each device evaluates the function on its own slice.

  The devices run one after another in the order given by Run.device_order (the
  order can be symbolic, which covers all schedules of whole device programs).
  """
  import functools
  if out_axes != 0:
    raise Unsupported("pmap out_axes")

  @functools.wraps(fun)
  def wrapped(*args, **kwargs):
    axes = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
    n = None
    for a, ax in zip(args, axes):
      for leaf in tree_util.tree_leaves(a) if ax is not None else ():
        n = jnp.shape(leaf)[0]
    outs = [None] * n
    order = getattr(run(), 'device_order', None) or list
    for k in order(range(n)):
      sl = [a if ax is None else tree_util.tree_map(lambda x, k=k: jnp.asarray(x)[k], a)
            for a, ax in zip(args, axes)]
      kws = tree_util.tree_map(lambda x, k=k: jnp.asarray(x)[k], kwargs)
      outs[k] = fun(*sl, **kws)
    return tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(e) for e in x]),
                              *outs)
  return wrapped


# -- numpy Generator ----------------------------------------------------------

class _BitGen:
  def __init__(self, g):
    self._g = g

  # Same form as the state of PCG64.  The generator is an unknown function of all
  # parts; half a word is kept after an odd number of draws.
  @property
  def state(self):
    g = self._g
    return {'bit_generator': 'PCG64', 'state': {'state': g.count, 'inc': g.seed},
            'has_uint32': g.count % 2, 'uinteger': 7 * (g.count % 2)}

  @state.setter
  def state(self, s):
    if s.get('bit_generator') != 'PCG64':
      raise ValueError('state of a different generator')
    g = self._g
    g.count, g.seed = s['state']['state'], s['state']['inc']
    rest = (s['has_uint32'], s['uinteger'])
    if rest != (g.count % 2, 7 * (g.count % 2)):
      g.seed = f"{g.seed}|{rest}"


class _Bits:
  """numpy bit generator, named by its kind (except PCG64) and its seed"""
  other = ''

  def __init__(self, seed=None):
    self.seed = seed


OTHER_BITS = {k: type(k, (_Bits,), {'other': '' if k == 'PCG64' else '|' + k})
              for k in ('PCG64', 'PCG64DXSM', 'MT19937', 'Philox', 'SFC64')}


def default_rng(seed=None):
  if isinstance(seed, SymRNG):
    return seed
  return SymRNG(seed if isinstance(seed, _Bits) else _Bits(seed))


class SymRNG:
  """numpy.random.Generator: outputs are free within their documented ranges."""

  def __init__(self, bits):
    if not isinstance(bits, _Bits):
      raise TypeError("a Generator needs a bit generator")
    seed = self.origin = bits.seed
    if isinstance(seed, np.random.SeedSequence):
      self.origin = (seed.entropy, tuple(seed.spawn_key))
      seed = (str(seed.entropy), str(seed.spawn_key))
    self.seed, self.count = str(seed) + bits.other, 0
    self.bit_generator = _BitGen(self)

  def _name(self):
    self.count += 1
    run().rngs.append(self)
    return f"rng<{self.seed}>{self.count}"

  def _ints(self, n, size, replace):
    r = run()
    base = self._name()
    shape = _shape(size)
    k = int(np.prod(shape, dtype=int))
    names = [f"{base}@{i}" for i in range(k)]
    if r.sym:
      vs = [draw(nm, 'int', 0, n - 1) for nm in names]
      if not replace:
        if k > n:
          raise ValueError("Cannot take a larger sample than population when "
                           "replace is False")
        if k > 1 and base not in r.assumed:
          r.assumed.add(base)
          r.engine.assume(t.z3.Distinct(*vs))
      a = np.empty(k, object)
      for i, v in enumerate(vs):
        a[i] = SV(v)
      return IntArray(a.reshape(shape))
    if not replace and k > n:
      raise ValueError("Cannot take a larger sample than population when "
                       "replace is False")
    return np.array(concrete_choice(r, names, n, replace), dtype=np.int64
                    ).reshape(shape)

  def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
    if p is not None or axis != 0:
      raise Unsupported("Generator.choice with p/axis")
    pop = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
    idx = self._ints(len(pop), size, replace)
    if np.array_equal(pop, np.arange(len(pop))):
      return idx
    return take(pop, idx)

  def permutation(self, x, axis=0):
    pop = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
    idx = self._ints(len(pop), (len(pop),), False)
    if np.array_equal(pop, np.arange(len(pop))):
      return idx
    return take(pop, idx)

  def shuffle(self, x, axis=0):
    x[...] = self.permutation(np.array(x))

  def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
    if high is None:
      low, high = 0, low
    n = int(high) - int(low) + bool(endpoint)
    return self._ints(n, size, True) + int(low)

  def __getattr__(self, name):
    raise Unsupported(f"numpy Generator.{name}")


def take(pop, idx):
  out = np.empty(idx.shape, object)
  for i in np.ndindex(idx.shape):
    v = trace.unwrap(idx[i])
    acc = trace.unwrap(pop[0])
    for k in range(1, len(pop)):
      acc = t.ite(t.eq(v, k), trace.unwrap(pop[k]), acc)
    out[i] = SV(acc)
  return out if out.shape else out[()]


def narrow(v, dtype):
  """Value of an integer after conversion to a (short) integer dtype."""
  i = np.iinfo(dtype)
  v = trace.unwrap(v)
  if isinstance(v, (bool, np.bool_)):
    return int(v)
  if not t.is_sym(v):
    return (int(v) - i.min) % (1 << i.bits) + i.min
  if i.bits >= 32 or t.z3.is_bool(v) or not run().engine.feasible(
      t.lor(t.lt(v, i.min), t.lt(i.max, v))):
    return SV(v)
  return SV(t.add(trace.pymod(t.sub(v, i.min), 1 << i.bits), i.min))


class IntArray(np.ndarray):
  """Host array of integers of a dtype, which may be symbolic."""
  _int = np.dtype(np.int64)

  def __new__(cls, a, dtype=np.int64):
    o = np.asarray(a, dtype=object)
    if np.iinfo(dtype).bits < 32:
      flat = [narrow(v, dtype) for v in o.ravel()]
      o = np.empty(o.shape, object)
      for i, v in zip(np.ndindex(o.shape), flat):
        o[i] = v
    o = o.view(cls)
    o._int = np.dtype(dtype)
    return o

  def __array_finalize__(self, obj):
    self._int = getattr(obj, '_int', np.dtype(np.int64))

  def astype(self, dtype, *a, **k):
    if np.issubdtype(np.dtype(dtype), np.integer):
      return IntArray(self, dtype)
    return np.ndarray.astype(self.view(np.ndarray), dtype, *a, **k)

  def __setitem__(self, ix, v):
    if self._int.itemsize < 4:
      v = IntArray(v, self._int)
    np.ndarray.__setitem__(self, ix, v)


class SymData(np.ndarray):
  """Reference data with symbolic content; rows may be picked symbolically."""
  _dt = np.dtype(np.float32)

  def __new__(cls, a, dtype=np.float32):
    o = np.asarray(a, dtype=object).view(cls)
    o._dt = np.dtype(dtype)
    return o

  def __array_finalize__(self, obj):
    self._dt = getattr(obj, '_dt', np.dtype(np.float32))

  @property
  def dtype(self):
    return self._dt

  def astype(self, dtype, *a, **k):
    return SymData(self, dtype)

  def take(self, idx, axis=0, **kw):
    if axis != 0:
      raise Unsupported("take along another axis")
    return self[idx]

  def __setitem__(self, ix, v):
    o = trace.coerce(trace.to_obj(v), self._dt)
    for i in np.ndindex(o.shape):
      if t.is_sym(o[i]):
        o[i] = SV(o[i])
    ix = ix if isinstance(ix, (slice, tuple, np.ndarray, list, type(...))) \
        and not isinstance(ix, trace.HostArray) else int(ix)
    base = self.view(np.ndarray)
    base[ix] = o if o.shape else o[()]

  def __getitem__(self, ix):
    first, rest = (ix[0], ix[1:]) if isinstance(ix, tuple) and len(ix) else (ix, ())
    if isinstance(first, SV):
      o = np.empty((), object)
      o[()] = first
      first = o
    if isinstance(first, np.ndarray) and np.ndarray.dtype.__get__(first) == object:
      base = np.asarray(self).view(np.ndarray)
      out = np.empty(first.shape + base.shape[1:], object)
      n = base.shape[0]
      for i in np.ndindex(first.shape):
        v = trace.unwrap(first[i])
        if t.is_sym(v):
          ok = t.land(t.le(-n, v), t.lt(v, n))
          if not run().engine.decide(ok):
            raise IndexError("index out of bounds")
        for j in np.ndindex(base.shape[1:]):
          acc = None
          if not t.is_sym(v):
            acc = trace.unwrap(base[(v,) + j])
          else:
            for k in range(n):
              val = trace.unwrap(base[(k,) + j])
              c = t.lor(t.eq(v, k), t.eq(v, k - n))
              acc = val if acc is None else t.ite(c, val, acc)
          out[i + j] = SV(acc)
      r = SymData(out, self._dt)
      return r[(slice(None),) * first.ndim + tuple(rest)] if rest and any(
        x is not Ellipsis and x != slice(None) for x in rest) else r
    r = np.ndarray.__getitem__(self, ix)
    return r


def buffer(shape, dtype, fill=0):
  """Host memory of a dtype, which can hold symbolic values."""
  if not run().sym:
    return np.full(_shape(shape), fill, dtype)
  fl = Fraction(fill) if np.issubdtype(np.dtype(dtype), np.floating) else (
    bool(fill) if np.dtype(dtype) == np.bool_ else int(fill))
  return SymData(np.full(_shape(shape), fl, object), dtype)


# -- shims -------------------------------------------------------------------

class NPShim:
  """numpy as seen by /repo modules: integer buffers can hold symbolic values."""

  def __init__(self, mod):
    self._m = mod

  def __getattr__(self, n):
    return getattr(self._m, n)

  def _alloc(self, f, a, k, kw):
    dt = kw.get('dtype', k[0] if k else None)
    if run().sym and dt is not None and np.issubdtype(np.dtype(dt), np.floating):
      return buffer(a, dt, 1 if f is np.ones else 0)
    if run().sym and dt is not None and np.issubdtype(np.dtype(dt), np.integer):
      kw = dict(kw)
      kw['dtype'] = object
      return IntArray(f(a, **kw), dt)
    return f(a, *k, **kw)

  def zeros(self, a, *k, **kw):
    return self._alloc(np.zeros, a, k, kw)

  def ones(self, a, *k, **kw):
    return self._alloc(np.ones, a, k, kw)

  def empty(self, a, *k, **kw):
    return self._alloc(np.zeros, a, k, kw)

  def array(self, x, *k, **kw):
    if isinstance(x, SymData):
      if kw.get('copy', True) is False:
        return x
      return SymData(np.array(x, dtype=object), x._dt)
    return self._short(self._m.array(x, *k, **self._dt(x, kw)), kw.get('dtype'))

  def asarray(self, x, *k, **kw):
    if isinstance(x, SymData):
      return x
    return self._short(self._m.asarray(x, *k, **self._dt(x, kw)), kw.get('dtype'))

  def _dt(self, x, kw):
    """drop an integer dtype request for data holding symbolic values"""
    dt = kw.get('dtype')
    if dt is not None and run().sym and dt is not object \
        and not np.issubdtype(np.dtype(dt), np.bool_):
      a = np.array(x, dtype=object)
      if any(isinstance(e, SV) for e in a.ravel()):
        return {k: v for k, v in kw.items() if k != 'dtype'}
    return kw

  def _short(self, a, dt):
    if dt is not None and run().sym and dt is not object and isinstance(a, np.ndarray) \
        and a.dtype == object and np.issubdtype(np.dtype(dt), np.integer):
      return IntArray(a, dt)
    return a

  def take(self, a, idx, axis=None, **kw):
    if isinstance(a, SymData):
      return a.take(idx, axis or 0)
    return self._m.take(a, idx, axis=axis, **kw)


def shim_numpy(module):
  if module.__name__ == 'jax_sgmc.util.uuid':
    return  # identifiers are numbers, see bits.py
  for k, v in list(vars(module).items()):
    if v is np:
      setattr(module, k, NPShim(np))


_installed = False


def install():
  """Install the environment models (once per process, before jax_sgmc)."""
  global _installed
  if _installed:
    return
  _installed = True
  for k, v in PATCHED.items():
    setattr(jax.random, k, v)
  host_callback.id_tap = id_tap
  jax.pmap = pmap
  np.random.default_rng, np.random.Generator = default_rng, SymRNG
  for k, v in OTHER_BITS.items():
    setattr(np.random, k, v)

  for nm in ('array', 'asarray'):
    orig = getattr(jnp, nm)

    def wrapped(x, dtype=None, *a, _orig=orig, **k):
      if trace.active() and not isinstance(x, (trace.SymTracer, core.Tracer)):
        y = x
        if isinstance(x, (SV, Fraction)):
          return trace.make(x, dtype)
        if isinstance(x, SymData):
          return trace.make(np.array(x, dtype=object), dtype or x._dt)
        if isinstance(x, (list, tuple)) and len(x) and not any(
            isinstance(e, core.Tracer) for e in tree_util.tree_leaves(x)):
          try:
            y = np.array(x, dtype=object)
          except ValueError:
            return _orig(x, dtype, *a, **k)
        if isinstance(y, np.ndarray) and np.ndarray.dtype.__get__(y) == object \
            and y.size:
          if any(isinstance(e, SV) for e in y.ravel()):
            return trace.make(y, dtype)
          if all(isinstance(e, (int, np.integer)) for e in y.ravel()):
            # buffer of NPShim without symbolic values
            x = np.array(y.tolist())
      return _orig(x, dtype, *a, **k)
    setattr(jnp, nm, wrapped)
