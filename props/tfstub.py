"""tf.data pipelines with the documented semantics: lists of rows on the host.

The buffered shuffle draws the position in the buffer symbolically.
"""
import contextlib
import sys
import types

import numpy as np

from .common import *


class DType:
  def __init__(self, d):
    self.as_numpy_dtype = np.dtype(d).type


class Spec:
  def __init__(self, shape, dtype):
    self.shape, self.dtype = shape, DType(dtype)


class Scalar:
  def __init__(self, v):
    self.v = v

  def numpy(self):
    return np.int64(self.v)

  def __int__(self):
    return int(self.v)


def tmap(fn, *rows):
  return tree_util.tree_map(fn, *rows)


class Dataset:
  """A lazily evaluated sequence of trees of arrays."""
  tag = 0

  def __init__(self, make, spec, size):
    self.make, self.element_spec, self.size = make, spec, size

  def __iter__(self):
    return self.make()

  def as_numpy_iterator(self):
    return self.make()

  def cardinality(self):
    return Scalar(self.size if self.size is not None else -1)

  def __len__(self):
    return self.size

  def repeat(self, count=None):
    def make():
      k = 0
      while count is None or count < 0 or k < count:
        yield from self
        k += 1
    n = None if count is None or self.size is None else count * self.size
    return Dataset(make, self.element_spec, n)

  def take(self, n):
    def make():
      for k, x in enumerate(self):
        if k >= n:
          return
        yield x
    return Dataset(make, self.element_spec, n)

  def skip(self, n):
    def make():
      for k, x in enumerate(self):
        if k >= n:
          yield x
    return Dataset(make, self.element_spec, None)

  def cache(self, *a, **k):
    return self

  prefetch = with_options = cache

  def map(self, fn, **kw):
    return Dataset(lambda: (fn(x) for x in self), self.element_spec, self.size)

  def shuffle(self, buffer_size, seed=None, reshuffle_each_iteration=None):
    buffer_size = int(buffer_size)
    if buffer_size < 1:
      raise ValueError('buffer_size must be greater than zero')

    def make():
      Dataset.tag += 1
      tag, k, src, buf = Dataset.tag, 0, iter(self), []
      while True:
        while len(buf) < buffer_size:
          try:
            buf.append(next(src))
          except StopIteration:
            break
        if not buf:
          return
        k += 1
        if len(buf) == 1:
          yield buf.pop()
          continue
        i = stubs.draw(f"shuffle[{tag},{k}]", 'int', 0, len(buf) - 1)
        if not stubs.run().sym:
          yield buf.pop(int(i))
          continue
        i = SV(i)
        pick = lambda *xs: tmap(lambda *l: choose(i, l), *xs)
        yield pick(*buf)
        # the last element takes the place of the drawn one
        last = buf.pop()
        buf = [tmap(lambda a, b, j=j: choose((i == j), (b, a), True), x, last)
               for j, x in enumerate(buf)]
    return Dataset(make, self.element_spec, self.size)

  def batch(self, n, drop_remainder=False, **kw):
    n = int(n)

    def make():
      rows = []
      for x in self:
        rows.append(x)
        if len(rows) == n:
          yield tmap(stack, *rows)
          rows = []
      if rows and not drop_remainder:
        yield tmap(stack, *rows)
    spec = tree_util.tree_map(
      lambda s: Spec((None,) + tuple(s.shape), s.dtype.as_numpy_dtype),
      self.element_spec, is_leaf=lambda s: isinstance(s, Spec))
    return Dataset(make, spec, None)


def stack(*xs):
  if isinstance(xs[0], stubs.SymData):
    return stubs.SymData(np.stack([x.view(np.ndarray) for x in xs]), xs[0].dtype)
  return np.stack(xs)


def choose(c, options, cond=False):
  """options[c] or, for a condition, one of two options"""
  out = np.empty(np.shape(options[0]), object)
  for i in np.ndindex(out.shape):
    vs = [frac(o.view(np.ndarray)[i]) if not isinstance(o.view(np.ndarray)[i], SV)
          else o.view(np.ndarray)[i] for o in options]
    if cond:
      out[i] = where(lnot(c), vs[1], vs[0])
    else:
      r = vs[-1]
      for k in range(len(vs) - 1):
        r = where(c == k, vs[k], r)
      out[i] = r
  return stubs.SymData(out, options[0].dtype)


def pipeline(columns):
  """columns: name -> array of rows"""
  n = len(next(iter(columns.values())))

  def row(x, k):
    if isinstance(x, stubs.SymData):
      v = x.view(np.ndarray)[k]
      return stubs.SymData(v if isinstance(v, np.ndarray) else
                           np.array(v, dtype=object), x.dtype)
    return np.asarray(x)[k]

  def make():
    for k in range(n):
      yield {m: row(x, k) for m, x in columns.items()}
  spec = {m: Spec(np.shape(x)[1:], x.dtype) for m, x in columns.items()}
  return Dataset(make, spec, n)


@contextlib.contextmanager
def installed():
  """tensorflow and tensorflow_datasets are replaced while the loader is imported"""
  names = ['tensorflow', 'tensorflow.data', 'tensorflow_datasets']
  old = {n: sys.modules.get(n) for n in names}
  tf, tfd, tfds = [types.ModuleType(n) for n in names]
  tfd.Dataset, tfd.AUTOTUNE, tf.data, tf.int32 = Dataset, -1, tfd, DType(np.int32)
  tfds.as_numpy = lambda d: d
  for n, m in zip(names, (tf, tfd, tfds)):
    sys.modules[n] = m
  try:
    yield
  finally:
    for n, m in old.items():
      if m is None:
        sys.modules.pop(n, None)
      else:
        sys.modules[n] = m


def loader_class():
  with installed():
    from jax_sgmc.data import tensorflow_loader
  return tensorflow_loader.TensorflowDataLoader
