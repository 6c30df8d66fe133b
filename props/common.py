"""Shared harness pieces: stub potentials, stub batches, noise analysis."""
import contextlib
from fractions import Fraction

import numpy as np
import jax
import jax.numpy as jnp
from jax import tree_util

from vsym import stubs, bits
from vsym.harness import (
  H, Check, sqrt, exp, log, power, where, minimum, maximum, land, lor, lnot,
  frac, val, leaves, flat, ufv)
from vsym.trace import SV, Unsupported


def zeros(shape):
  out = np.empty(tuple(shape), object)
  for i in np.ndindex(tuple(shape)):
    out[i] = frac(0)
  return out if stubs.run().sym else out.astype(float)


def struct(tree):
  """list of shapes"""
  return [tuple(np.shape(x)) for x in tree_util.tree_leaves(tree)]


def split_like(vec, shapes):
  out, k = [], 0
  for s in shapes:
    n = int(np.prod(s, dtype=int))
    out.append(vec[k:k + n].reshape(s))
    k += n
  return out


def tree_of(h, prefix, spec, **kw):
  """spec: pytree of shapes (tuples) -> pytree of symbolic arrays"""
  leafs, tdef = tree_util.tree_flatten(spec, is_leaf=lambda s: isinstance(s, tuple)
                                       and all(isinstance(i, int) for i in s))
  arrs = [h.array(f"{prefix}{k}", s, **kw) for k, s in enumerate(leafs)]
  return tree_util.tree_unflatten(tdef, arrs)


SPECS = {
  'vec': (2,),
  'dict': {'w': (2,), 'b': ()},
  'nest': {'w': (2, 1), 'a': [(1,), ()]},
  'scalar': {'x': ()},
  'same': {'w': (2,), 'a': [(), (2,)], 'b': ()},
  'wide': {'w': [(1,)] * 37, 'b': ()},
}


# -- random data chain ---------------------------------------------------------

def batch_chain(h, obs=(2,), n_total=10, mb=2):
  """A data chain: state is a counter; every draw is a fresh symbolic batch."""
  from jax_sgmc.data import MiniBatchInformation

  def init(**kwargs):
    off = kwargs.get('offset', 0)
    return jnp.asarray(off, dtype=jnp.int32)

  def get(state, information=False):
    batch = {'y': stubs.UF('batch', state, shape=(mb,) + tuple(obs))}
    info = MiniBatchInformation(observation_count=jnp.asarray(n_total),
                                mask=jnp.ones(mb, dtype=jnp.bool_), batch_size=mb)
    return state + 1, ((batch, info) if information else batch)

  def release():
    pass
  return init, get, release


def batch_val(k, obs=(2,), mb=2):
  """Oracle: flat content of the k-th batch"""
  return ufv('batch', [k], shape=(mb,) + tuple(obs)).ravel()


def stub_potential(name='U', n_lik=2, with_state=True):
  """stochastic potential: uninterpreted value, gradient, state, likelihoods"""
  def pot(sample, batch, state=None, likelihoods=False, **kw):
    data, _ = batch
    args = (tree_util.tree_leaves(sample), tree_util.tree_leaves(data))
    st = () if state is None else (state,)
    u = stubs.UF(name, *args, *st)
    new = None if state is None else stubs.UF(name + 's', *args, *st)
    if likelihoods:
      return u, (stubs.UF(name + 'l', *args, *st, shape=(n_lik,)), new)
    return u, new
  return pot


def pot_oracle(xs, batch, state=None, name='U'):
  """Oracle view: (value, gradient leaves, new state); xs: list of leaf arrays"""
  args = [np.ravel(x) for x in xs] + [np.ravel(batch)]
  if state is not None:
    args.append(np.ravel(state))
  u = ufv(name, *args)
  g = [ufv(f"{name}.d{k}", *args, shape=np.shape(x)) for k, x in enumerate(xs)]
  new = None if state is None else ufv(name + 's', *args)
  return u, g, new


# -- noise -----------------------------------------------------------------------

@contextlib.contextmanager
def noise_as(fn):
  r = stubs.run()
  old = r.noise
  r.noise = fn
  try:
    yield
  finally:
    r.noise = old


def check_noise(h, label, observe, cov, sym_full=True):
  """The residual vector returned by observe() is a zero-mean linear image of
  independent standard normals with covariance cov (list of rows).

  observe() runs the real code and subtracts the deterministic part (computed by
  the oracle from quantities observed in the same run).
  """
  r = stubs.run()
  r.noise_names = []
  v = observe()
  names = list(r.noise_names)
  n = len(v)
  with noise_as(lambda nm: 0):
    v0 = observe()
  h.eq(label + ': drift', v0, zeros((n,)))
  cols = []
  for nm in names:
    with noise_as(lambda x, nm=nm: 1 if x == nm else 0):
      cols.append(observe())
  if sym_full:
    full = zeros((n,))
    for nm, c in zip(names, cols):
      xi = h.scalar(nm)
      full = full + c * xi
    h.eq(label + ': noise enters linearly', v, full)
  for i in range(n):
    for j in range(i + 1):
      s = frac(0)
      for c in cols:
        s = s + c[i] * c[j]
      h.eq(label + ': noise covariance', np.asarray(s, dtype=object if h.sym else
                                                    float),
           np.asarray(cov[i][j], dtype=object if h.sym else float))


def diag(d):
  n = len(d)
  return [[d[i] if i == j else frac(0) for j in range(n)] for i in range(n)]


def cat(xs):
  return np.concatenate([np.ravel(x) for x in xs])


def arr(x):
  """oracle scalars as array"""
  return np.asarray(x, dtype=object if stubs.run().sym else float)
