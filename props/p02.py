"""P02: random mini-batches."""
from .common import *
from .p01 import make_loader
from . import p01

CHECK = Check('P02', 'Random batches')


def id_loader(h, kind, N):
  """Variables: x arbitrary content, id = the number of the row."""
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  ids = np.arange(N, dtype=np.int32)
  if kind == 'device':
    x = h.array('ox', (N, 2))
    return DeviceNumpyDataLoader(x=x, id=ids), val(x)
  if kind == 'hdf5':
    return id_h5(h, N), val(h.array('ox', (N, 2)))
  return NumpyDataLoader(x=h.host('ox', (N, 2)), id=ids_host(h, ids)), val(
    h.array('ox', (N, 2)))


def ids_host(h, ids):
  if not h.sym:
    return ids
  out = np.empty(ids.shape, object)
  for k in range(len(ids)):
    out[k] = SV(int(ids[k]))
  return stubs.SymData(out, np.int32)


def id_h5(h, N):
  import h5py
  from jax_sgmc.data.hdf5_loader import HDF5Loader

  class File(h5py.File):
    def __init__(self, d):  # pylint: disable=super-init-not-called
      self._d = d

    def __getitem__(self, k):
      return self._d['/'.join(p for p in k.split('/') if p)]

    def __del__(self):
      pass

    def __repr__(self):
      return 'stub file'
  f = File({'g/x': p01.H5Stub(h.host('ox', (N, 2))),
            'g/id': p01.H5Stub(ids_host(h, np.arange(N, dtype=np.int32)))})
  sample = {'x': np.zeros((2,), np.float32), 'id': np.zeros((), np.int32)}
  return HDF5Loader(f, '/g', sample)


def near(a, b):
  """equality; of rounded values in a replay"""
  if stubs.run().sym:
    return a == b
  return abs(float(a) - float(b)) <= 1e-5 * (1 + abs(float(b)))


def is_row(ox, ident, x):
  """condition: (id, x) is a complete row of the data set"""
  N = len(ox)
  return lor(*[land(ident == k, *[near(a, b) for a, b in zip(x, ox[k])])
               for k in range(N)])


def distinct(ids):
  return land(*[lnot(a == b) for i, a in enumerate(ids) for b in ids[:i]])


def stream(h, batches):
  """list of batches -> ids and rows"""
  return (np.concatenate([np.ravel(val(b['id'])) for b in batches]),
          np.concatenate([val(b['x']) for b in batches]))


def draw_all(h, init, get, n, **kw):
  s = init(**kw)
  out = []
  for _ in range(n):
    s, b = get(s, information=True)
    out.append(b)
  return out


# loader, mode, N, mb, cache, batches
Q = [['host', 'draw', 4, 2, 2, 4], ['host', 'draw', 3, 3, 1, 2],
     ['host', 'shuffle', 4, 2, 2, 4], ['host', 'shuffle', 5, 2, 1, 5],
     ['host', 'shuffle', 5, 3, 2, 5], ['host', 'shuffle', 3, 2, 3, 6],
     ['host', 'shuffle', 4, 3, 1, 8], ['host', 'shuffle', 2, 1, 2, 4],
     ['host', 'epochs', 4, 2, 2, 4], ['host', 'epochs', 5, 2, 2, 6],
     ['host', 'epochs', 5, 3, 1, 4], ['host', 'epochs', 3, 3, 2, 2],
     ['device', 'draw', 4, 2, 1, 2], ['device', 'draw', 3, 3, 1, 2],
     ['hdf5', 'draw', 3, 2, 1, 2], ['hdf5', 'shuffle', 3, 2, 1, 3],
     ['host', 'draw', 3, 1, 2, 7], ['host', 'draw', 1, 1, 1, 3], ['host', 'draw', 12, 9, 3, 4],
     ['host', 'shuffle', 1, 1, 2, 4], ['host', 'shuffle', 3, 1, 3, 8],
     ['host', 'shuffle', 3, 3, 1, 4], ['host', 'shuffle', 12, 5, 2, 7],
     ['host', 'shuffle', 4, 3, 5, 6], ['host', 'epochs', 1, 1, 2, 4],
     ['host', 'epochs', 3, 1, 2, 7], ['host', 'epochs', 4, 4, 1, 4],
     ['host', 'epochs', 12, 5, 2, 7], ['host', 'epochs', 5, 4, 4, 8],
     ['device', 'draw', 1, 1, 1, 2], ['device', 'draw', 12, 9, 1, 4],
     ['hdf5', 'draw', 4, 2, 1, 3], ['hdf5', 'epochs', 3, 2, 1, 3],
     ['host', 'draw', 140, 1, 2, 2], ['device', 'draw', 140, 1, 1, 1]]
T = [['host', m, n, b, c, 2 * -(-n // b) + 1] for m in ('draw', 'shuffle', 'epochs')
     for n in range(1, 7) for b in range(1, n + 1) for c in (1, 2, 3)] + \
    [['host', 'shuffle', n, b, 1, 3 * -(-n // b) + 2] for n in range(2, 6)
     for b in range(1, n + 1)] + [
     ['device', 'draw', n, b, 1, 3] for n in range(1, 6) for b in range(1, n + 1)] + \
    [['hdf5', m, 3, b, 1, 3] for m in ('draw', 'shuffle', 'epochs') for b in (1, 2, 3)]


@CHECK.harness('batches', quick=Q, thorough=T,
               bounds='datasets of 1-6 (some: 12) rows with arbitrary content, every batch size, '
               'caches of 1-3 batches, every permutation or index drawn in two to three '
               'epochs; draws with replacement, shuffled and shuffled in epochs')
def batches(h, cfg):
  from jax_sgmc import data
  kind, mode, N, mb, cache, n = cfg
  dl, ox = id_loader(h, kind, N)
  init, get, release = data.random_reference_data(dl, cache, mb)
  kw = {'draw': {}, 'shuffle': dict(shuffle=True),
        'epochs': dict(shuffle=True, in_epochs=True)}[mode]
  if kind != 'device' and mode == 'draw':
    kw['seed'] = 3
  out = draw_all(h, init, get, n, **kw)
  ids, rows = stream(h, [b for b, _ in out])
  masks = np.concatenate([np.ravel(val(i.mask)) for _, i in out])
  for _, i in out:
    h.same('observation count', int(i.observation_count), N)
    h.same('batch size', int(i.batch_size), mb)
  h.same('number of samples', len(ids), n * mb)
  nb = -(-N // mb)
  for k, (i, x) in enumerate(zip(ids, rows)):
    if mode == 'epochs':
      pos = k % (nb * mb)
      h.eq('mask marks the current epoch', masks[k], arr(frac(1 if pos < N else 0))
           if False else val(np.asarray(pos < N)))
    else:
      h.true('all samples are valid', masks[k] == True)  # noqa: E712
    h.true('complete row of the data set', is_row(ox, i, x))
  if mode == 'shuffle':
    for e in range(len(ids) // N):
      h.true('every observation once per epoch', distinct(ids[e * N:(e + 1) * N]))
  elif mode == 'epochs':
    for e in range(n // nb):
      part = ids[e * nb * mb:e * nb * mb + N]
      h.true('every observation once per epoch', distinct(part))


@CHECK.harness('reach', quick=[['host', 'draw', 4, 3], ['device', 'draw', 4, 3],
                               ['host', 'shuffle', 4, 2], ['host', 'epochs', 3, 2],
                               ['host', 'draw', 300, 1], ['device', 'draw', 300, 1]],
               thorough=[[k, m, n, b] for k, m in (
                 ('host', 'draw'), ('device', 'draw'), ('host', 'shuffle'),
                 ('host', 'epochs')) for n in (2, 3, 5) for b in range(1, n + 1)],
               bounds='every row can appear at every valid position of the first two '
               'batches (300 rows: at six rows); with replacement rows can repeat')
def reach(h, cfg):
  from jax_sgmc import data
  kind, mode, N, mb = cfg
  kw = {'draw': {}, 'shuffle': dict(shuffle=True),
        'epochs': dict(shuffle=True, in_epochs=True)}[mode]
  dl, _ = id_loader(h, kind, N)
  init, get, release = data.random_reference_data(dl, 1, mb)
  if h.sym:
    out = draw_all(h, init, get, 2, **kw)
    cached, _ = stream(h, [b for b, _ in out])
    mk = np.concatenate([np.ravel(val(i.mask)) for _, i in out])

    def ids():
      return cached
  else:
    count = [0]

    def ids():
      count[0] += 1
      extra = dict(kw)
      if kind == 'device':
        extra['key'] = h.key(f"k{count[0]}")
      else:
        extra['seed'] = count[0]
      return stream(h, [b for b, _ in draw_all(h, init, get, 2, **extra)])[0]
    mk = np.concatenate([np.ravel(val(i.mask)) for _, i in draw_all(
      h, init, get, 2, **kw)])
  for p in range(2 * mb):
    if h.sym and not bool(SV(mk[p])) or not h.sym and not mk[p]:
      continue
    for k in range(N) if N < 20 else (0, 127, 128, 255, 256, N - 1):
      h.possible(f"row {k} at position {p}", lambda: ids()[p] == k)
  if mode == 'draw' and mb > 1:
    def twice():
      i = ids()
      return i[0] == i[1]
    h.possible('rows repeat within a batch', twice)

    def once():
      i = ids()
      return lnot(i[0] == i[1])
    h.possible('rows differ within a batch', once)
  if mode != 'draw' and N > 1 and 2 * mb > N:
    def differ():
      i = ids()
      s = N if mode == 'shuffle' else -(-N // mb) * mb
      return lnot(i[0] == i[s]) if s < 2 * mb else True
    h.possible('epochs have different orders', differ)


@CHECK.harness('chains', quick=[['draw', 3, 2, 1, 4], ['shuffle', 3, 2, 1, 5],
                                ['epochs', 3, 2, 2, 4], ['mixed', 3, 2, 1, 4]],
               thorough=[[m, n, b, c, 5] for m in ('draw', 'shuffle', 'epochs', 'mixed')
                         for n, b in ((2, 1), (3, 2), (4, 3)) for c in (1, 2)],
               bounds='two random chains (mixed: a random and an ordered chain) of one '
               'loader drawn in every order of 4-5 draws: each delivers the stream it '
               'delivers alone')
def chains(h, cfg):
  mode, N, mb, cache, n = cfg
  kws = {'draw': {}, 'mixed': dict(shuffle=True), 'shuffle': dict(shuffle=True),
         'epochs': dict(shuffle=True, in_epochs=True)}[mode]
  dl, ox = id_loader(h, 'host', N)
  ref, _ = id_loader(h, 'host', N)

  def register(loader, i):
    if mode == 'mixed' and i == 1:
      return loader.register_ordered_pipeline(cache, mb_size=mb)
    return loader.register_random_pipeline(cache, mb_size=mb, seed=11 + i, **kws)
  alone = []
  for i in range(2):
    c = register(ref, i)
    alone.append([ref.get_batches(c) for _ in range(n)])
  ch = [register(dl, i) for i in range(2)]
  h.true('different chains', ch[0] != ch[1])
  pos = [0, 0]
  for k in range(n):
    i = h.pick(f"turn{k}", [0, 1])
    b, m = dl.get_batches(ch[i])
    w, wm = alone[i][pos[i]]
    pos[i] += 1
    h.eq('rows', b['id'], val(w['id']))
    h.eq('content', b['x'], val(w['x']))
    h.eq('mask', m, val(wm))


@CHECK.harness('seeds', quick=[['draw', 3, 2], ['shuffle', 3, 2], ['epochs', 4, 3]],
               thorough=[[m, n, b] for m in ('draw', 'shuffle', 'epochs')
                         for n, b in ((2, 1), (3, 2), (5, 3))],
               bounds='chains with equal seeds deliver equal streams, with different '
               'or default seeds different ones')
def seeds(h, cfg):
  mode, N, mb = cfg
  kws = {'draw': {}, 'shuffle': dict(shuffle=True),
         'epochs': dict(shuffle=True, in_epochs=True)}[mode]
  dl, _ = id_loader(h, 'host', N)
  dl2, _ = id_loader(h, 'host', N)

  def first(loader, **kw):
    c = loader.register_random_pipeline(2, mb_size=mb, **kws, **kw)
    return [np.ravel(val(loader.get_batches(c)[0]['id'])) for _ in range(2)]
  a, b = first(dl, seed=5), first(dl2, seed=5)
  c = first(dl, seed=5)
  for k in range(2):
    h.eq('reproducible', a[k], b[k])
    h.eq('reproducible within a loader', a[k], c[k])
  cnt = [100]

  def other():
    cnt[0] += 2
    d, e = first(dl, seed=cnt[0]), first(dl, seed=cnt[0] + 1)
    return lnot(land(*[p == q for p, q in zip(d[0], e[0])]))
  h.possible('different seeds give different streams', other)

  def default():
    d, e = first(dl), first(dl)
    return lnot(land(*[p == q for p, q in zip(d[0], e[0])]))
  h.possible('chains differ by default', default)


@CHECK.harness('entropy', quick=[['draw', 3, 2, 64], ['shuffle', 3, 2, 32],
                                 ['epochs', 4, 3, 128]],
               thorough=[[m, 3, 2, w] for m in ('draw', 'shuffle', 'epochs')
                         for w in (16, 31, 32, 53, 64, 127, 128)],
               bounds='any two different seeds of 32-128 bits: the generators of the '
               'chains are started with different entropy; with equal seeds they are '
               'started equally')
def entropy(h, cfg):
  mode, N, mb, width = cfg
  kws = {'draw': {}, 'shuffle': dict(shuffle=True),
         'epochs': dict(shuffle=True, in_epochs=True)}[mode]
  one, two = h.bits('seed1', width), h.bits('seed2', width)

  def origins(seed):
    dl, _ = id_loader(h, 'host', N)
    c = dl.register_random_pipeline(2, mb_size=mb, seed=seed, **kws)
    k = len(h.run.rngs)
    dl.get_batches(c)
    out = []
    for g in h.run.rngs[k:]:
      o = g.origin if isinstance(g.origin, tuple) else (g.origin, ())
      if o not in out:
        out.append(o)
    return out
  old = np.random.SeedSequence
  np.random.SeedSequence = bits.SeedSequence
  try:
    a, b, c = origins(one), origins(two), origins(one)
  finally:
    np.random.SeedSequence = old
  h.true('batches are drawn from a generator', len(a) > 0)
  h.same('equal seeds start equal chains', str(c), str(a))
  E = bits.bv if h.sym else int
  for x, ks in a:
    for y, ls in b:
      if ks == ls:
        h.bits_hold('different seeds start different chains',
                    lambda x=x, y=y: E(x) != E(y), lambda: E(one) != E(two))


@CHECK.harness('copies', quick=[['host', 3, 2], ['device', 3, 2]],
               thorough=[[k, n, b] for k in ('host', 'device') for n in (2, 4)
                         for b in (1, 2)],
               bounds='the arrays given to a loader are changed afterwards: random and '
               'ordered batches show the original data')
def copies(h, cfg):
  from jax_sgmc import data
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  kind, N, mb = cfg
  x = h.host('ox', (N, 2))
  ids = ids_host(h, np.arange(N, dtype=np.int32))
  dl = {'host': NumpyDataLoader, 'device': DeviceNumpyDataLoader}[kind](x=x, id=ids)
  ox = val(h.array('ox', (N, 2)))
  x[...] = h.host('later', (N, 2))
  init, get, _ = data.random_reference_data(dl, 1, mb)
  out = draw_all(h, init, get, 2)
  for i, r in zip(*stream(h, [b for b, _ in out])):
    h.true('complete row of the original data set', is_row(ox, i, r))
  init, fmap, _ = data.full_reference_data(dl, 1, mb)
  _, (res, _) = fmap(lambda b, c: (b['x'], c), init(), jnp.array(0.0))
  h.eq('ordered batches of the original data set', res, ox)
  zero = dl.initializer_batch(mb)
  one = dl.initializer_batch()
  for n, shape, dtype in (('x', (2,), np.float32), ('id', (), np.int32)):
    h.same('format of an initial batch', [zero[n].shape, np.dtype(zero[n].dtype)],
           [(mb,) + shape, np.dtype(dtype)])
    h.same('format of an initial observation', [one[n].shape, np.dtype(one[n].dtype)],
           [shape, np.dtype(dtype)])
    h.eq('initial batch', zero[n], zeros((mb,) + shape))


@CHECK.harness('arguments', quick=[[3]], bounds='rejected arguments')
def arguments(h, cfg):
  from jax_sgmc import data
  N, = cfg
  dl, _ = id_loader(h, 'host', N)
  dv, _ = id_loader(h, 'device', N)
  h.raises('batch larger than the data set', ValueError,
           lambda: data.random_reference_data(dl, 1, N + 1))
  h.raises('batch larger than the data set', ValueError,
           lambda: data.full_reference_data(dl, 1, N + 1))
  h.raises('empty cache', ValueError, lambda: data.random_reference_data(dl, 0, 1))
  h.raises('cache on the device', ValueError,
           lambda: data.random_reference_data(dv, 2, 1))
  h.raises('batch larger than the data set', ValueError,
           lambda: dl.register_random_pipeline(1, mb_size=N + 1))
  h.raises('batch larger than the data set', Exception,
           lambda: dl.register_ordered_pipeline(1, mb_size=N + 1))
  h.raises('empty batch', ValueError, lambda: data.random_reference_data(dl, 1, 0))
  for cls in (type(dl), type(dv)):
    h.raises('variables of different length', ValueError,
             lambda cls=cls: cls(x=np.zeros((N, 2)), y=np.zeros(N + 1)))
  h.raises('in_epochs without shuffling', ValueError,
           lambda: dl.register_random_pipeline(1, mb_size=1, in_epochs=True))


@CHECK.harness('pipelines', quick=[[3, 2, 1, 1, 5], [4, 3, 2, 1, 5], [3, 2, 2, 2, 3],
                                   [2, 2, 1, 5, 2], [1, 1, 2, 3, 3], [5, 4, 3, 1, 7]],
               thorough=[[n, b, c, s, 4] for n in (1, 2, 3) for b in range(1, n + 1)
                         for c in (1, 2) for s in (1, 2, 3)],
               bounds='tensorflow pipelines (tf.data semantics, every outcome of the '
               'buffered shuffle) of 1-5 rows, with and without excluded variables, '
               'two chains drawn in turn')
def pipelines(h, cfg):
  from jax_sgmc import data
  from . import tfstub
  N, mb, cache, buf, n = cfg
  tfstub.Dataset.tag = 0
  Loader = tfstub.loader_class()
  drop = h.pick('excluded', [0, 1])
  cols = {'x': h.host('ox', (N, 2)), 'id': ids_host(h, np.arange(N, dtype=np.int32))}
  if drop:
    cols['name'] = h.host('on', (N,))
  ox = val(h.array('ox', (N, 2)))
  kw = {'exclude_keys': ['name']} if drop else {}
  dl = Loader(tfstub.pipeline(cols), shuffle_cache=buf, **kw)
  h.same('observation count', int(dl.static_information['observation_count']), N)
  first = dl.initializer_batch(mb)
  h.same('format of a batch', {k: (v.shape, np.dtype(v.dtype)) for k, v in first.items()},
         {'x': ((mb, 2), np.dtype(np.float32)), 'id': ((mb,), np.dtype(np.int32))})
  init, get, release = data.random_reference_data(dl, cache, mb)
  st = [init(), init()]
  out = [[], []]
  for k in range(n):
    for c in range(2):
      if c == 1 and k >= max(1, n // 2):
        continue
      st[c], b = get(st[c], information=True)
      out[c].append(b)
  for o in out:
    ids, rows = stream(h, [b for b, _ in o])
    for b, i in o:
      h.same('variables', sorted(b), ['id', 'x'])
      h.same('batch size', [int(i.batch_size), b['x'].shape[0]], [mb, mb])
      h.same('observation count', int(i.observation_count), N)
      for e in np.ravel(val(i.mask)):
        h.true('all samples are valid', e == True)  # noqa: E712
    for k, (i, x) in enumerate(zip(ids, rows)):
      h.true('complete row of the data set', is_row(ox, i, x))
      if buf == 1:
        h.eq('rows of the repeated data set', i, arr(frac(k % N)))
  def drawn():
    if h.sym:
      return out[0]
    s = init()
    res = []
    for _ in range(n):
      s, b = get(s, information=True)
      res.append(b)
    return res
  if n * mb >= N + buf:
    for r in range(N):
      h.possible(f'row {r} can be drawn', lambda r=r: lor(*[
        i == r for i in stream(h, [b for b, _ in drawn()])[0]]))
  release()
  h.raises('ordered access', NotImplementedError,
           lambda: dl.register_ordered_pipeline(cache, mb_size=mb))
  h.raises('arguments of the pipeline', Exception,
           lambda: dl.register_random_pipeline(cache, mb_size=mb, shuffle=True))
