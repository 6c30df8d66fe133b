"""P03: caching of batches on the device is transparent."""
from .common import *

CHECK = Check('P03', 'Cache')


def stub_loader(N=50, masks='sym', log=None):
  """Host loader delivering the enumerated stream of arbitrary batches.

  Batch k of chain c is an uninterpreted function of (c, k).
  """
  from jax_sgmc.data import HostDataLoader

  class Loader(HostDataLoader):
    def __init__(self):
      self.chains = []
      self.calls = []

    @property
    def _format(self):
      return {'x': jax.ShapeDtypeStruct((2,), np.float32),
              'y': jax.ShapeDtypeStruct((), np.float32),
              'z': jax.ShapeDtypeStruct((1,), np.float32)}

    @property
    def static_information(self):
      return {'observation_count': N}

    def register_random_pipeline(self, cache_size=1, mb_size=None, **kw):
      self.chains.append([cache_size, mb_size, 0, kw])
      return len(self.chains) - 1
    register_ordered_pipeline = register_random_pipeline

    def get_batches(self, chain_id):
      c = self.chains[int(chain_id)]
      self.calls.append(int(chain_id))
      rows = [content(int(chain_id), c[2] + k, c[1], masks) for k in range(c[0])]
      c[2] += c[0]
      out = {n: np.stack([r[n] for r in rows]) for n in ('x', 'y', 'z')}
      if stubs.run().sym:
        out = {n: stubs.SymData(v, np.float32) for n, v in out.items()}
        out = {n: jnp.array(v) for n, v in out.items()}
      else:
        out = {n: np.asarray(v, np.float32) for n, v in out.items()}
      if masks is None:
        return out, None
      m = np.stack([r['m'] for r in rows])
      return out, (jnp.array(m, dtype=jnp.bool_) if stubs.run().sym
                   else np.asarray(m, bool))
  return Loader()


def content(c, k, mb, masks='sym'):
  """The k-th batch of chain c"""
  r = {'x': ufv('bx', [frac(c), frac(k)], shape=(mb, 2)),
       'y': ufv('by', [frac(c), frac(k)], shape=(mb,)),
       'z': ufv('bz', [frac(c), frac(k)], shape=(mb, 1))}
  if masks is not None:
    m = np.empty(mb, object)
    for j in range(mb):
      v = stubs.draw(f"mask[{c},{k},{j}]", 'bool')
      m[j] = SV(v) if stubs.run().sym else v
    r['m'] = m
  return r


def check_batch(h, got, c, k, mb, N, masks, what=''):
  b, info = got
  w = content(c, k, mb, masks)
  h.same('variables', sorted(b), ['x', 'y', 'z'])
  h.eq('content of the batch' + what, b['z'], w['z'])
  h.eq('content of the batch' + what, b['x'], w['x'])
  h.eq('content of the batch' + what, b['y'], w['y'])
  m = w.get('m', np.ones(mb, bool))
  h.eq('mask of the batch' + what, info.mask, val(m) if not h.sym else val(
    np.array([SV(x) for x in m], object)))
  h.eq('observation count', jnp.asarray(info.observation_count), arr(frac(N)))
  h.eq('batch size', jnp.asarray(info.batch_size), arr(frac(mb)))


@CHECK.harness('stream', quick=[[1, 2, 'sym', 0], [2, 1, 'sym', 0], [3, 2, None, 0],
                                [4, 3, 'sym', 1], [2, 2, None, 2], [3, 1, 'sym', 2],
                                [12, 9, 'sym', 0], [20, 3, 'sym', 1], [15, 2, None, 2],
                                [1, 1, 'sym', 1], [1, 1, None, 0], [7, 5, 'sym', 2],
                                [130, 1, 'sym', 0], [260, 1, None, 2]],
               thorough=[[c, b, m, j] for c in range(1, 8) for b in (1, 2, 3)
                         for m in ('sym', None) for j in (0, 1, 2)],
               bounds='caches of 1-7 (some: 20, 260) batches of 1-3 (9) observations, three refills, '
               'arbitrary content and masks; eager, jit-compiled draws and draws in a '
               'compiled loop')
def stream(h, cfg):
  from jax_sgmc import data
  cache, mb, masks, how = cfg
  dl = stub_loader(masks=masks)
  init, get, release = data.random_reference_data(dl, cache, mb)
  n = 3 * cache + 1
  s = init(tag=7)
  h.same('arguments reach the data loader', dl.chains[0][3], {'tag': 7})
  h.same('registered batches', dl.chains[0][:2], [cache, mb])
  if how == 2:
    s, out = jax.lax.scan(lambda q, _: get(q, information=True), s, jnp.arange(n))
    bs = [tree_util.tree_map(lambda a, k=k: a[k], out) for k in range(n)]
  else:
    draw = (lambda q: get(q, information=True))  # noqa: E731
    if how == 1:
      draw = jax.jit(draw)
    bs = []
    for _ in range(n):
      s, b = draw(s)
      bs.append(b)
  for k in range(n):
    check_batch(h, bs[k], 0, k, mb, 50, masks)
  s, plain = get(s)
  h.eq('without information', plain['x'], content(0, n, mb, masks)['x'])
  release()


@CHECK.harness('chains', quick=[[2, 1, 5], [1, 2, 4]],
               thorough=[[c, b, 6] for c in (1, 2, 3) for b in (1, 2)],
               bounds='two chains of one loader and one chain of another loader drawn '
               'in every order')
def chains(h, cfg):
  from jax_sgmc import data
  cache, mb, n = cfg
  dl, dl2 = stub_loader(), stub_loader(masks=None)
  init, get, release = data.random_reference_data(dl, cache, mb)
  init2, get2, release2 = data.random_reference_data(dl2, cache, mb)
  st = [init(), init(), init2()]
  pos = [0, 0, 0]
  for k in range(n):
    i = h.pick(f"turn{k}", [0, 1, 2])
    st[i], b = (get if i < 2 else get2)(st[i], information=True)
    check_batch(h, b, i % 2, pos[i], mb, 50, 'sym' if i < 2 else None)
    pos[i] += 1
  release()
  release2()


@CHECK.harness('state', quick=[[3, 2], [1, 1], [7, 3]], thorough=[[c, b] for c in (1, 2, 4, 6)
                                                 for b in (1, 3)],
               bounds='a state kept by the caller: drawing from it again before its '
               'cache is exhausted returns the same batch, for every cache position')
def state(h, cfg):
  from jax_sgmc import data
  cache, mb = cfg
  dl = stub_loader()
  init, get, release = data.random_reference_data(dl, cache, mb)
  s = init()
  for k in range(cache):
    old = s
    for _ in range(2):
      s, b = get(old, information=True)
      check_batch(h, b, 0, k, mb, 50, 'sym')
  release()
