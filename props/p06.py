"""P06: minibatch and full potential."""
from .common import *

CHECK = Check('P06', 'Potential')

STATE = {'a': (2,), 'b': ()}


def yshape(spec):
  return (1,) if spec in ('nest', 'dict') else ()


def models(h, spec, batched, has_state, mb):
  """-> (prior, likelihood): uninterpreted functions of sample, data and state"""
  def prior(sample):
    return stubs.UF('prior', *tree_util.tree_leaves(sample))

  def single(state, sample, obs):
    h.same('shape of an observation', [tuple(obs[k].shape) for k in 'xy'],
           [(2,), yshape(spec)])
    args = (tree_util.tree_leaves(sample), obs['x'], obs['y'])
    st = tree_util.tree_leaves(state)
    lik = stubs.UF('lik', *args, *st)
    new = {'a': stubs.UF('sa', *args, *st, shape=(2,)),
           'b': stubs.UF('sb', *args, *st)} if has_state else None
    return lik, new

  def lik_state(state, sample, obs):
    if not batched:
      return single(state, sample, obs)
    res = [single(state, sample, tree_util.tree_map(lambda a: a[k], obs))
           for k in range(mb)]
    return jnp.stack([r[0] for r in res]), res[0][1]

  if has_state:
    return prior, lik_state
  return prior, lambda sample, obs: lik_state(None, sample, obs)[0]


class Oracle:
  def __init__(self, x, state):
    self.xs = leaves(x)
    self.xargs = [np.ravel(l) for l in self.xs]
    self.state = state        # list of leaves or []

  def args(self, obs, state):
    return self.xargs + [np.ravel(o) for o in obs] + [np.ravel(s) for s in state]

  def lik(self, obs, state):
    return ufv('lik', *self.args(obs, state))

  def dlik(self, obs, state):
    return cat([ufv(f"lik.d{k}", *self.args(obs, state), shape=np.shape(x))
                for k, x in enumerate(self.xs)])

  def new_state(self, obs, state):
    a = self.args(obs, state)
    return [ufv('sa', *a, shape=(2,)), ufv('sb', *a)]

  def prior(self):
    return ufv('prior', *self.xargs)

  def dprior(self):
    return cat([ufv(f"prior.d{k}", *self.xargs, shape=np.shape(x))
                for k, x in enumerate(self.xs)])


# spec, strategy, has_state, masked, mb, N
MB = [['dict', 'map', 1, 1, 2, 5], ['vec', 'vmap', 1, 0, 3, 7],
      ['dict', 'batched', 1, 1, 2, 4], ['vec', 'pmap', 0, 0, 2, 5],
      ['scalar', 'vmap', 0, 1, 3, 4], ['scalar', 'map', 0, 0, 1, 1],
      ['vec', 'batched', 0, 0, 3, 5], ['vec', 'pmap', 1, 1, 2, 5],
      ['dict', 'vmap', 1, 1, 3, 3], ['vec', 'map', 1, 1, 1, 6], ['vec', 'vmap', 1, 1, 1, 6],
      ['scalar', 'batched', 1, 1, 1, 4], ['nest', 'vmap', 0, 0, 2, 100],
      ['vec', 'map', 1, 1, 8, 20], ['scalar', 'vmap', 1, 1, 8, 20],
      ['vec', 'batched', 1, 0, 1, 3], ['dict', 'batched', 0, 0, 1, 1],
      ['scalar', 'batched', 0, 1, 8, 20], ['scalar', 'pmap', 1, 1, 4, 9], ['nest', 'map', 1, 1, 1, 2], ['nest', 'vmap', 0, 1, 1, 2]]
MB_T = [[s, k, st, m, b, n] for s in ('dict', 'nest', 'vec')
        for k in ('map', 'vmap', 'pmap', 'batched') for st in (0, 1) for m in (0, 1)
        for b, n in ((1, 3), (3, 7), (4, 4))]


@CHECK.harness('minibatch', quick=MB, thorough=MB_T,
               bounds='batches of 1-4 (some: 8) of 1-7 (20) observations with two variables; '
               'arbitrary likelihood, prior, model state, sample, data, mask and '
               'temperature; value, gradient, likelihoods and state')
def minibatch(h, cfg):
  from jax_sgmc import potential
  from jax_sgmc.data import MiniBatchInformation
  spec, strat, has_state, masked, mb, N = cfg
  batched = strat == 'batched'
  prior, lik = models(h, spec, batched, has_state, mb)
  x = tree_of(h, 'x', SPECS[spec])
  obs = {'x': h.array('ox', (mb, 2)), 'y': h.array('oy', (mb,) + yshape(spec))}
  st = {'a': h.array('sa0', (2,)), 'b': h.array('sb0', ())} if has_state else None
  mask = h.array('mask', (mb,), 'bool') if masked else None
  T = h.pos('T')
  pot = potential.minibatch_potential(
    prior, lik, strategy='map' if batched else strat, has_state=bool(has_state),
    is_batched=batched, temperature=T)
  data = (obs, MiniBatchInformation(observation_count=N, batch_size=mb,
                                    mask=jnp.ones(mb, dtype=jnp.bool_)))
  o = Oracle(x, st)
  ox, oy = val(obs['x']), val(obs['y'])
  rows = [(ox[k], oy[k]) for k in range(mb)]
  s0 = [val(st['a']), val(st['b'])] if has_state else []
  w = [frac(1)] * mb
  if masked:
    mv = val(mask)
    w = [where(mv[k], frac(1), frac(0)) for k in range(mb)]
  ls = [o.lik(r, s0) for r in rows]
  Tv = val(T)[()]
  c = frac(N, mb)
  U = (-c * sum((a * b for a, b in zip(ls, w)), frac(0)) - o.prior()) / Tv
  G = -1 * o.dprior()
  for r, b in zip(rows, w):
    G = G - o.dlik(r, s0) * (b * c)
  G = G / Tv
  kw = dict(state=st) if has_state else {}
  if masked:
    kw['mask'] = mask
  u, new = pot(x, data, **kw)
  h.eq('potential', u, arr(U))
  u2, (l2, new2) = pot(x, data, likelihoods=True, **kw)
  h.eq('potential with likelihoods', u2, arr(U))
  h.eq('likelihoods', jnp.ravel(l2), arr(ls))
  g = jax.grad(lambda q: pot(q, data, **kw)[0])(x)
  h.same('gradient structure', str(tree_util.tree_structure(g)),
         str(tree_util.tree_structure(x)))
  h.eq('gradient', flat(g), G)
  for nw in (new, new2):
    if has_state:
      want = o.new_state(rows[0], s0)
      h.same('state structure', sorted(nw), ['a', 'b'])
      h.eq('model state', nw['a'], want[0])
      h.eq('model state', nw['b'], arr(want[1]))
    else:
      h.same('no state', nw, None)


# spec, strategy, has_state, loader, N, mb, cache, repeats
FULL = [['vec', 'vmap', 1, 'device', 5, 2, 1, 2], ['dict', 'map', 0, 'device', 4, 2, 1, 1],
        ['vec', 'batched', 0, 'device', 5, 3, 1, 1],
        ['vec', 'vmap', 1, 'host', 5, 2, 2, 2], ['dict', 'map', 0, 'host', 3, 2, 1, 2],
        ['scalar', 'vmap', 0, 'host', 4, 4, 3, 1], ['vec', 'vmap', 0, 'mapper', 5, 2, 2, 2],
        ['vec', 'vmap', 0, 'device', 2, 1, 1, 1], ['vec', 'map', 0, 'device', 5, 4, 1, 1],
        ['vec', 'vmap', 1, 'device', 23, 5, 1, 2], ['vec', 'vmap', 1, 'host', 23, 5, 3, 2],
        ['dict', 'map', 0, 'mapper', 17, 4, 3, 2], ['dict', 'batched', 1, 'host', 13, 4, 2, 2],
        ['vec', 'map', 1, 'host', 4, 1, 2, 2], ['scalar', 'batched', 1, 'mapper', 3, 3, 1, 2],
        ['nest', 'vmap', 1, 'mapper', 7, 2, 5, 3],
        ['nest', 'map', 0, 'mapper', 2, 1, 1, 2], ['dict', 'batched', 0, 'device', 2, 1, 1, 1]]
FULL_T = FULL + [[s, k, st, l, n, b, c, 2] for s, k in (('dict', 'vmap'), ('vec', 'map'),
                                                     ('nest', 'batched'))
                 for st in (0, 1) for l in ('device', 'host', 'mapper')
                 for n, b, c in ((5, 3, 2), (7, 2, 3), (6, 3, 1), (3, 1, 4))]


def loader(h, kind, N, ys):
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  if kind == 'device':
    return DeviceNumpyDataLoader(x=h.array('ox', (N, 2)), y=h.array('oy', (N,) + ys))
  return NumpyDataLoader(x=h.host('ox', (N, 2)), y=h.host('oy', (N,) + ys))


@CHECK.harness('full', quick=FULL, thorough=FULL_T,
               bounds='datasets of 2-7 (some: 23) observations, batches of 1-5, caches of 1-5, one '
               'or two successive evaluations at different samples; host and device '
               'data loader')
def full(h, cfg):
  from jax_sgmc import potential, data
  spec, strat, has_state, kind, N, mb, cache, rep = cfg
  batched = strat == 'batched'
  prior, lik = models(h, spec, batched, has_state, mb)
  st = {'a': h.array('sa0', (2,)), 'b': h.array('sb0', ())} if has_state else None
  T = h.pos('T')
  pot = potential.full_potential(
    prior, lik, strategy='map' if batched else strat, has_state=bool(has_state),
    is_batched=batched, temperature=T)
  dl = loader(h, kind, N, yshape(spec))
  if kind == 'mapper':
    mapper, release = data.full_data_mapper(dl, cache, mb)
    ds, fm = None, mapper
  else:
    init, fm, release = data.full_reference_data(dl, cached_batches_count=cache,
                                                 mb_size=mb)
    ds = init()
  ox, oy = val(h.array('ox', (N, 2))), val(h.array('oy', (N,) + yshape(spec)))
  Tv = val(T)[()]
  s0 = [val(st['a']), val(st['b'])] if has_state else []
  for k in range(rep):
    x = tree_of(h, f"x{k}", SPECS[spec])
    o = Oracle(x, st)
    tot, s, ss = frac(0), s0, st
    G = -1 * o.dprior()
    for b0 in range(0, N, mb):
      for i in range(b0, min(N, b0 + mb)):
        tot = tot + o.lik((ox[i], oy[i]), s)
        G = G - o.dlik((ox[i], oy[i]), s) if not has_state else G
      if has_state:
        s = o.new_state((ox[b0], oy[b0]), s)
    U = (-tot - o.prior()) / Tv
    u, (ds2, new) = pot(x, ds, fm, state=st)
    h.eq('potential', u, arr(U))
    if has_state:
      h.eq('model state', cat([val(new['a']), val(new['b'])]), cat(s))
      st, s0 = new, s
    if k == 0 and not has_state and kind == 'device':
      g = jax.grad(lambda q: pot(q, ds, fm)[0])(x)
      h.eq('gradient', flat(g), G / Tv)
    ds = ds2
  release()


@CHECK.harness('scaling', quick=[[6, [1, 2, 3, 6]]], thorough=[[6, [1, 2, 3, 6]],
                                                              [12, [1, 2, 3, 4, 6]]],
               bounds='mean of the stochastic potential over a partition of 6 (12) '
               'observations into batches equals the full potential')
def scaling(h, cfg):
  from jax_sgmc import potential
  from jax_sgmc.data import MiniBatchInformation
  N, sizes = cfg
  prior, lik = models(h, 'vec', False, 0, 1)
  x = tree_of(h, 'x', SPECS['vec'])
  obs = {'x': h.array('ox', (N, 2)), 'y': h.array('oy', (N,))}
  o = Oracle(x, None)
  ox, oy = val(obs['x']), val(obs['y'])
  U = -sum((o.lik((ox[k], oy[k]), []) for k in range(N)), frac(0)) - o.prior()
  pot = potential.minibatch_potential(prior, lik, strategy='vmap')
  for mb in sizes:
    m = frac(0)
    for b in range(0, N, mb):
      batch = tree_util.tree_map(lambda a, b=b: a[b:b + mb], obs)
      info = MiniBatchInformation(observation_count=N, batch_size=mb,
                                  mask=jnp.ones(mb, dtype=jnp.bool_))
      m = m + val(pot(x, (batch, info))[0])[()]
    h.eq('unbiased', arr(m * frac(mb, N)), arr(U))
