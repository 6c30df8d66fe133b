"""P01: mapping over the full reference data."""
import types

from .common import *

CHECK = Check('P01', 'Full data mapping')


def make_loader(h, kind, N):
  """-> (loader, x rows, y rows) with arbitrary content"""
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  if kind == 'hdf5':
    return h5_loader(h, N)
  if kind.startswith('device'):
    dl = DeviceNumpyDataLoader(x=h.array('ox', (N, 2)), y=h.array('oy', (N,)))
  else:
    dl = NumpyDataLoader(x=h.host('ox', (N, 2)), y=h.host('oy', (N,)))
  return dl, val(h.array('ox', (N, 2))), val(h.array('oy', (N,)))


class H5Stub:
  """A data set of an HDF5 file (h5py accepts increasing index lists only)."""

  def __init__(self, data):
    self.data = data

  def __len__(self):
    return len(self.data)

  def __getitem__(self, idx):
    idx = np.asarray(idx)
    for a, b in zip(idx[:-1], idx[1:]):
      if not a < b:
        raise TypeError("Indexing elements must be in increasing order")
    return self.data[idx]


def h5_loader(h, N):
  """Loader of an open file (N even) or of a file name (N odd)"""
  content = {'g/x': H5Stub(h.host('ox', (N, 2))), 'g/y': H5Stub(h.host('oy', (N,)))}
  sample = {'x': np.zeros((2,), np.float32), 'y': np.zeros((), np.float32)}
  return h5_of(content, sample, N), val(h.array('ox', (N, 2))), val(h.array('oy', (N,)))


def h5_of(content, sample, N):
  import h5py
  from jax_sgmc.data import hdf5_loader

  class File(h5py.File):
    def __init__(self, name, mode='r'):  # pylint: disable=super-init-not-called
      if (name, mode) != ('data.h5', 'r'):
        raise OSError(f"cannot open {name} with mode {mode}")
      self._d = content

    def __getitem__(self, k):
      return self._d['/'.join(p for p in k.split('/') if p)]

    def close(self):
      pass

    def __del__(self):
      pass

    def __repr__(self):
      return 'stub file'
  orig = hdf5_loader.h5py
  hdf5_loader.h5py = types.SimpleNamespace(File=File)
  try:
    return hdf5_loader.HDF5Loader('data.h5' if N % 2 else File('data.h5'), '/g', sample)
  finally:
    hdf5_loader.h5py = orig


def fvec(obs, carry, shape=()):
  """Result of one observation, depends on the carry"""
  return stubs.UF('f', obs['x'], obs['y'], carry, shape=shape)


def foracle(ox, oy, c):
  return ufv('f', ox, oy, [c])


def first(batch, carry):
  return stubs.UF('c', batch['x'][0], batch['y'][0], carry)


def sequence(ox, oy, mb, c, start=0):
  """-> (results in dataset order from `start`, carry after the mapping)"""
  N = len(oy)
  out = []
  for b in range(0, N, mb):
    rows = [(start + i) % N for i in range(b, min(N, b + mb))]
    out += [foracle(ox[i], oy[i], c) for i in rows]
    c = ufv('c', ox[rows[0]], oy[rows[0]], [c])
  return out, c


# loader, N, mb, cache, repetitions, jit
Q = [['host', 5, 2, 2, 3, 0], ['host', 4, 2, 1, 2, 0], ['host', 5, 3, 4, 3, 1],
     ['host', 3, 3, 2, 2, 0], ['host', 7, 3, 2, 3, 0], ['host', 3, 1, 2, 2, 0],
     ['device', 5, 2, 1, 3, 0], ['device', 5, 3, 2, 2, 1], ['device', 4, 2, 3, 2, 0],
     ['device', 3, 3, 1, 2, 0], ['hdf5', 5, 2, 2, 2, 0], ['hdf5', 4, 3, 1, 2, 0],
     ['host', 1, 1, 1, 3, 0], ['device', 1, 1, 1, 2, 0], ['hdf5', 1, 1, 2, 2, 0],
     ['host', 6, 1, 4, 2, 1], ['host', 6, 6, 3, 3, 0], ['host', 6, 4, 5, 3, 0],
     ['host', 23, 4, 3, 2, 0], ['host', 130, 11, 12, 2, 0], ['host', 64, 8, 8, 2, 1],
     ['host', 12, 5, 100, 2, 0], ['device', 130, 11, 1, 2, 0], ['device', 64, 8, 1, 2, 1],
     ['device', 7, 1, 1, 2, 1], ['hdf5', 23, 6, 3, 2, 0], ['hdf5', 17, 1, 4, 2, 0],
     ['hdf5', 12, 12, 1, 2, 0], ['host', 300, 1, 40, 1, 1], ['device', 270, 2, 1, 2, 1],
     ['host', 300, 7, 4, 1, 1], ['device', 300, 13, 1, 1, 0]]
T = [[k, n, b, c, 3, (n + b + c) % 2] for k in ('host', 'device', 'hdf5')
     for n in range(1, 9) for b in range(1, n + 1) for c in (1, 2, 3, 5)]
BOUND = ('datasets of 1-8 (some: 130, 300) observations with arbitrary content, every batch size, '
         'caches of 1-5 batches, 2-3 successive mappings, arbitrary mapped function '
         'and carry; NumPy, HDF5 (stub file) and device loader, with and without jit')


def mapping(h, cfg, masking, info):
  from jax_sgmc import data
  kind, N, mb, cache, reps, jit = cfg
  dl, ox, oy = make_loader(h, kind, N)
  init, fmap, release = data.full_reference_data(dl, cached_batches_count=cache,
                                                 mb_size=mb)
  state = init()
  infos = []

  def body(batch, *rest):
    if info:
      batch, i = batch
      infos.append(i)
    carry = rest[-1]
    res = jax.vmap(lambda o: fvec(o, carry))(batch)
    if masking:
      mask = rest[0]
      cnt = jnp.sum(mask)
      imask = jnp.sum(i.mask != mask) if info else 0
      return (jnp.sum(jnp.where(mask, res, 0.0)), cnt, imask), first(batch, carry)
    return res, first(batch, carry)
  run_map = lambda s, c: fmap(body, s, c, masking=masking, information=info)  # noqa
  if jit:
    run_map = jax.jit(run_map)
  carry = h.array('c0')
  c = val(carry)[()]
  for _ in range(reps):
    state, (res, carry) = run_map(state, carry)
    want, c = sequence(ox, oy, mb, c)
    if masking:
      s, cnt, wrong = res
      nb = -(-N // mb)
      h.eq('masked results per batch', s, arr(np.array(
        [sum(want[b * mb:(b + 1) * mb], frac(0)) for b in range(nb)], dtype=object)))
      h.eq('every observation is valid once', jnp.sum(cnt), arr(frac(N)))
      if info:
        h.eq('mask of the batch information', wrong, zeros((nb,)))
    else:
      h.eq('results in dataset order', res, arr(np.array(want, dtype=object)))
    h.eq('carry', carry, arr(c))
  for i in infos:
    h.same('observation count', int(i.observation_count), N)
    h.same('batch size', int(i.batch_size), mb)
  release()


@CHECK.harness('unmasked', quick=Q, thorough=T, bounds=BOUND)
def unmasked(h, cfg):
  mapping(h, cfg, False, bool((cfg[1] + cfg[2]) % 2))


@CHECK.harness('masked', quick=Q, thorough=T, bounds='as above, with masks')
def masked(h, cfg):
  mapping(h, cfg, True, bool(cfg[3] % 2) or cfg[0] == 'host')


@CHECK.harness('mapper', quick=[
  ['host', 5, 2, 2, 'batched'], ['host', 5, 2, 1, 'masked'], ['host', 4, 1, 2, 'single'],
  ['host', 5, 3, 2, 'single'], ['device', 5, 2, 1, 'batched'],
  ['device', 5, 2, 1, 'masked'], ['device', 3, 2, 1, 'single'],
  ['device', 4, 1, 1, 'single'], ['hdf5', 3, 2, 2, 'single'],
  ['host', 1, 1, 1, 'batched'], ['host', 17, 5, 3, 'masked'], ['host', 40, 7, 2, 'batched'],
  ['host', 12, 5, 9, 'single'], ['device', 23, 4, 1, 'masked'],
  ['device', 17, 6, 1, 'single'], ['hdf5', 11, 3, 2, 'masked'],
  ['host', 5, 2, 2, 'stateless'], ['device', 3, 1, 1, 'stateless'],
  ['hdf5', 7, 3, 2, 'stateless'], ['device', 7, 3, 1, 'stateless']],
  thorough=[[k, n, b, c, m] for k in ('host', 'device', 'hdf5') for n in (1, 2, 3, 5, 6)
            for b in range(1, min(n, 4) + 1) for c in (1, 2, 3)
            for m in ('batched', 'masked', 'single', 'stateless')],
  bounds='as above through the mapper which manages its data states; vectorised, '
  'masked and unvectorised functions, with and without a carry; three successive mappings')
def mapper(h, cfg):
  from jax_sgmc import data
  kind, N, mb, cache, mode = cfg
  dl, ox, oy = make_loader(h, kind, N)
  fmap, release = data.full_data_mapper(dl, cache, mb)
  carry = h.array('c0')
  c = val(carry)[()]
  for _ in range(3):
    want, c2 = sequence(ox, oy, mb, c)
    if mode == 'single':
      res, carry = fmap(lambda o, s: (fvec(o, s), stubs.UF('c', o['x'], o['y'], s)),
                        carry, batched=False)
    elif mode == 'stateless':
      # Nothing is carried from one observation to the next
      want = [foracle(ox[i], oy[i], frac(2)) for i in range(N)]
      c2 = c
      res, none = fmap(lambda o, s: (fvec(o, 2.0), None), None, batched=False)
      h.same('no carry', none is None, True)
    elif mode == 'batched':
      res, carry = fmap(lambda b, s: (jax.vmap(lambda o: fvec(o, s))(b), first(b, s)),
                        carry)
    else:
      res, carry = fmap(
        lambda b, m, s: (jnp.sum(jnp.where(m, jax.vmap(lambda o: fvec(o, s))(b), 0.)),
                         first(b, s)), carry, masking=True)
      want = [sum(want[k:k + mb], frac(0)) for k in range(0, N, mb)]
    c = c2
    h.eq('results', res, arr(np.array(want, dtype=object)))
    if mode != 'stateless':
      h.eq('carry', carry, arr(c))
  release()


@CHECK.harness('two_states', quick=[['host', 5, 2, 2], ['host', 3, 2, 2],
                                    ['device', 5, 2, 1]],
               thorough=[[k, n, b, c] for k in ('host', 'device') for n in (3, 4, 5, 7)
                         for b in (2, 3) for c in (1, 2, 3)],
               bounds='two data states of one loader mapped alternately in every order '
               'of four mappings')
def two_states(h, cfg):
  from jax_sgmc import data
  kind, N, mb, cache = cfg
  dl, ox, oy = make_loader(h, kind, N)
  init, fmap, release = data.full_reference_data(dl, cached_batches_count=cache,
                                                 mb_size=mb)
  states = [init(), init()]
  carries = [h.array('a0'), h.array('b0')]
  cs = [val(c)[()] for c in carries]
  for k in range(4):
    i = h.pick(f"turn{k}", [0, 1])
    carry = carries[i]
    states[i], (res, carries[i]) = fmap(
      lambda b, s: (jax.vmap(lambda o: fvec(o, s))(b), first(b, s)), states[i], carry)
    want, cs[i] = sequence(ox, oy, mb, cs[i])
    h.eq('results', res, arr(np.array(want, dtype=object)))
    h.eq('carry', carries[i], arr(cs[i]))
  release()


@CHECK.harness('offset', quick=[[5, 2], [4, 3], [4, 2]],
               thorough=[[n, b] for n in range(1, 8) for b in range(1, n + 1)],
               bounds='device loader starting at every observation; two mappings')
def offset(h, cfg):
  from jax_sgmc import data
  N, mb = cfg
  dl, ox, oy = make_loader(h, 'device', N)
  init, fmap, release = data.full_reference_data(dl, cached_batches_count=1, mb_size=mb)
  o = h.pick('offset', list(range(N)))
  state = init(offset=o)
  carry = h.array('c0')
  c = val(carry)[()]
  for _ in range(2):
    state, (res, carry) = fmap(
      lambda b, s: (jax.vmap(lambda q: fvec(q, s))(b), first(b, s)), state, carry)
    want, c = sequence(ox, oy, mb, c, o)
    h.eq('results start at the offset', res, arr(np.array(want, dtype=object)))
    h.eq('carry', carry, arr(c))
  h.raises('offset out of range', ValueError, lambda: init(offset=N))


SHAPES = {'a': (), 'b': (1,), 'c': (2, 1), 'd': (1, 1)}


@CHECK.harness('shapes', quick=[
  ['host', 3, 2, 2, 'map'], ['device', 3, 2, 1, 'map'], ['hdf5', 3, 2, 1, 'map'],
  ['host', 3, 1, 2, 'map'], ['host', 3, 1, 1, 'single'], ['host', 5, 2, 1, 'single'],
  ['device', 2, 1, 1, 'single'], ['device', 4, 3, 1, 'single'], ['host', 1, 1, 1, 'single'],
  ['hdf5', 4, 1, 2, 'single'], ['host', 1, 1, 2, 'map'], ['device', 1, 1, 1, 'map']],
  thorough=[[k, n, b, c, m] for k in ('host', 'device', 'hdf5') for n in (1, 2, 3, 4)
            for b in range(1, n + 1) for c in (1, 2) for m in ('map', 'single')],
  bounds='observations, results and carries which are trees of scalars and of arrays '
  'with axes of length one and two, of real and integer type; two mappings')
def shapes(h, cfg):
  from jax_sgmc import data
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  kind, N, mb, cache, mode = cfg
  host = {k: h.host('o' + k, (N,) + s) for k, s in SHAPES.items()}
  rows = {k: val(h.array('o' + k, (N,) + s)) for k, s in SHAPES.items()}
  ids = np.arange(N, dtype=np.int32)
  if kind == 'host':
    dl = NumpyDataLoader(id=ids, **host)
  elif kind == 'device':
    dl = DeviceNumpyDataLoader(id=jnp.asarray(ids), **{
      k: h.array('o' + k, (N,) + s) for k, s in SHAPES.items()})
  else:
    content = {f'g/{k}': H5Stub(v) for k, v in host.items()}
    content['g/id'] = H5Stub(ids)
    sample = {k: np.zeros(s, np.float32) for k, s in SHAPES.items()}
    dl = h5_of(content, dict(sample, id=np.zeros((), np.int32)), N)
  carry = {'p': h.array('p', (1,)), 'q': [h.array('q', (2, 1)), h.array('r')]}
  cur = [np.ravel(val(l)) for l in tree_util.tree_leaves(carry)]
  names = sorted(SHAPES)

  def obs_fun(o, c):
    """result of one observation and the next carry"""
    for k, s in SHAPES.items():
      h.same('shape of an observation', tuple(o[k].shape), s)
    h.same('number of the observation', (tuple(o['id'].shape), str(o['id'].dtype)),
           ((), 'int32'))
    args = [o[k] for k in names] + tree_util.tree_leaves(c)
    res = {k: stubs.UF('f' + k, *args, shape=s) for k, s in SHAPES.items()}
    return dict(res, id=o['id']), new_carry(o, c)

  def new_carry(o, c):
    args = [o[k] for k in names] + tree_util.tree_leaves(c)
    return {'p': stubs.UF('np', *args, shape=(1,)),
            'q': [stubs.UF('nq', *args, shape=(2, 1)), stubs.UF('nr', *args)]}

  def batch_fun(b, c):
    res = jax.vmap(lambda o: obs_fun(o, c)[0])(b)
    return res, new_carry(tree_util.tree_map(lambda a: a[0], b), c)

  if mode == 'map':
    init, fmap, release = data.full_reference_data(dl, cache, mb)
    state = init()
  else:
    mapper_fn, release = data.full_data_mapper(dl, cache, mb)
  for _ in range(2):
    if mode == 'map':
      state, (res, carry) = fmap(batch_fun, state, carry)
    else:
      res, carry = mapper_fn(obs_fun, carry, batched=False)
    want = {k: np.empty((N,) + s, object) for k, s in SHAPES.items()}
    for i in range(N):
      args = [np.ravel(rows[k][i]) for k in names] + cur
      for k, s in SHAPES.items():
        want[k][i] = ufv('f' + k, *args, shape=s)
      if i % mb == mb - 1 or i == N - 1:
        f = i - i % mb
        args = [np.ravel(rows[k][f]) for k in names] + cur
        cur = [np.ravel(ufv(n, *args, shape=s)) for n, s in (
          ('np', (1,)), ('nq', (2, 1)), ('nr', ()))]
    h.same('results', sorted(res), sorted(list(SHAPES) + ['id']))
    for k in names:
      h.same('shape of the results', tuple(res[k].shape), (N,) + SHAPES[k])
      h.eq('results', res[k], arr(want[k]))
    h.eq('order', res['id'], val(ids))
    for a, w in zip(tree_util.tree_leaves(carry), cur):
      h.eq('carry', jnp.ravel(a), arr(np.array(list(w), object)))
  release()
