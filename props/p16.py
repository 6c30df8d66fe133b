"""P16: the ready-made samplers wire the documented components together."""
from .common import *

CHECK = Check('P16', 'Ready-made samplers')


def make_loader(h, N, tag='row'):
  """The real numpy loader; its random batches are the enumerated stream of arbitrary
  batches of every chain."""
  from jax_sgmc.data.numpy_loader import NumpyDataLoader

  class Loader(NumpyDataLoader):
    def __init__(self, **kw):
      super().__init__(**kw)
      self.random, self.ordered = [], []

    def register_random_pipeline(self, cache_size=1, mb_size=None, **kw):
      self.random.append([cache_size, mb_size, 0])
      return 1000 + len(self.random) - 1

    def register_ordered_pipeline(self, cache_size=1, mb_size=None, **kw):
      self.ordered.append([cache_size, mb_size])
      return super().register_ordered_pipeline(cache_size, mb_size, **kw)

    def get_batches(self, chain_id):
      c = int(chain_id) - 1000
      if c < 0:
        return super().get_batches(chain_id)
      cache, mb, k = self.random[c]
      self.random[c][2] += cache
      rows = np.stack([ufv('rnd', [frac(c), frac(k + i)], shape=(mb, 1))
                       for i in range(cache)])
      if stubs.run().sym:
        return {'y': jnp.array(stubs.SymData(rows, np.float32))}, None
      return {'y': np.asarray(rows, np.float32)}, None

  return Loader(y=h.host(tag, (N, 1)))


def prior(sample):
  return stubs.UF('prior', *tree_util.tree_leaves(sample))


def full_potential(has_state):
  from jax_sgmc import potential

  def lik(sample, obs):
    return stubs.UF('lik', *tree_util.tree_leaves(sample), obs['y'])

  def slik(state, sample, obs):
    return lik(sample, obs), state
  return potential.full_potential(prior, slik if has_state else lik,
                                  has_state=has_state)


# Settings: every one is symbolic where it can be
def settings(h, kind, opt):
  s = dict(cache_size=opt.get('cache', 2), batch_size=opt.get('mb', 1),
           first_step_size=h.pos('first'), last_step_size=h.pos('last'),
           burn_in=opt.get('burn', 0), save_to_numpy=bool(opt.get('numpy', 1)),
           progress_bar=bool(opt.get('bar', 0)))
  if not opt.get('equal'):
    h.assume(val(s['last_step_size'])[()] < val(s['first_step_size'])[()])
  else:
    s['last_step_size'] = s['first_step_size']
  if 'acc' in opt:
    s['accepted_samples'] = opt['acc']
  if kind == 'sgld' and opt.get('rms'):
    s.update(rms_prop=True, alpha=h.array('alpha', lo=0, hi=1, strict=True),
             lmbd=h.pos('lmbd'))
  if kind == 're_sgld':
    s['temperature'] = h.pos('T')
  if kind in ('amagold', 'sggmc', 'sghmc', 'obabo'):
    s['integration_steps'] = opt.get('steps', 1)
    s['friction_coefficient' if kind == 'sggmc' else 'friction'] = h.pos('friction')
    if kind == 'sghmc' and opt.get('tree'):
      s['friction'] = tree_of(h, 'f', SPECS['dict'], lo=0, strict=True)
    if opt.get('mass'):
      s['mass'] = tree_of(h, 'mass', SPECS['dict'], lo=0, strict=True)
  if opt.get('adaptive'):
    s.update(adaptive_step_size=True, stabilization_constant=h.pos('stab'),
             decay_constant=h.pos('decay'), speed_constant=h.pos('speed'),
             target_acceptance_rate=h.pos('target'))
  if opt.get('noise'):
    s.update(adapt_noise_model=True, diagonal_noise=opt['noise'] == 'diag')
  return s


def documented(kind, s, pot, full, loader):
  """Oracle: the composition of components described in the documentation.

  -> (solver, scheduler, arguments of the initialisation, arguments of the schedulers
  of additional chains)
  """
  from jax_sgmc import data, integrator, solver, scheduler, adaption
  g = s.get
  batches = data.random_reference_data(loader, g('cache_size'), g('batch_size'))
  extra, helper = {}, None
  if kind in ('amagold', 'sggmc'):
    full_map = data.full_reference_data(loader, g('cache_size'), g('batch_size'))
  hmc = dict(steps=g('integration_steps'), const_mass=g('mass'))
  if kind == 'sgld':
    man = adaption.rms_prop() if g('rms_prop') else None
    sol = solver.sgmc(integrator.langevin_diffusion(pot, batches, adaption=man))
    if man is not None:
      extra['adaption_kwargs'] = dict(alpha=g('alpha'), lmbd=g('lmbd'))
  elif kind == 're_sgld':
    sol = solver.parallel_tempering(integrator.langevin_diffusion(pot, batches))
    helper = [dict(temperature=dict(tau=g('temperature')))]
  elif kind == 'amagold':
    sol = solver.amagold(integrator.reversible_leapfrog(
      pot, batches, friction=g('friction'), **hmc), full, full_map)
  elif kind == 'sggmc':
    sol = solver.sggmc(integrator.obabo(
      pot, batches, friction=g('friction_coefficient'), **hmc), full, full_map)
  elif kind == 'obabo':
    sol = solver.sgmc(integrator.obabo(pot, batches, friction=g('friction'), **hmc))
  else:
    noise = None
    if g('adapt_noise_model'):
      noise = adaption.fisher_information(minibatch_potential=pot,
                                          diagonal=g('diagonal_noise'))
    sol = solver.sgmc(integrator.friction_leapfrog(
      pot, batches, friction=g('friction'), noise_model=noise, **hmc))
  burn = scheduler.initial_burn_in(g('burn_in'))
  if g('adaptive_step_size'):
    step = scheduler.adaptive_step_size(
      burn_in=g('burn_in'), initial_step_size=g('first_step_size'),
      stabilization_constant=g('stabilization_constant'),
      decay_constant=g('decay_constant'), speed_constant=g('speed_constant'),
      target_acceptance_rate=g('target_acceptance_rate'))
  else:
    step = scheduler.polynomial_step_size_first_last(
      first=g('first_step_size'), last=g('last_step_size'))
  acc = g('accepted_samples', {'sgld': 1000, 'sghmc': 1000, 'obabo': 1000,
                               're_sgld': 100}.get(kind))
  thin = None if acc is None else scheduler.random_thinning(step, burn, selections=acc)
  sched = scheduler.init_scheduler(
    step_size=step, burn_in=burn, thinning=thin,
    temperature=scheduler.constant_temperature(1.0), progress_bar=False)
  return sol, sched, extra, helper


def reference(h, kind, s, pot, full, loader, samples, state, iterations):
  """Samples of every chain"""
  sol, (sinit, snext, sget), extra, helper = documented(kind, s, pot, full, loader)
  init, update, get = sol
  chains = []
  for c, x in enumerate(samples):
    args = x if kind == 're_sgld' else (x,)
    kw = dict(extra, key=h.key(f'chain{c}'), init_model_state=state)
    chains.append(init(*args, **kw))
  out = []
  for st in chains:
    scheds = [sinit(iterations)[0]]
    for kw in helper or []:
      scheds.append(sinit(iterations, **kw)[0])
    kept = []
    for _ in range(iterations):
      now = [sget(x) for x in scheds]
      st, stats = update(st, *now)
      if bool(val(now[0].burn_in)[()]) and bool(val(now[0].accept)[()]):
        kept.append(get(st))
      scheds = [snext(x, **(stats or {})) for x in scheds]
    out.append(kept)
  return out


# sampler, options, number of chains, iterations
Q = [
  ['sgld', dict(acc=2), 2, 2],
  ['sgld', dict(acc=1, burn=1, numpy=0, rms=1), 1, 3],
  ['sgld', dict(rms=1, acc=2, mb=2, cache=1), 2, 2],
  ['sgld', dict(state=1, bar=1, acc=2), 2, 2],
  ['re_sgld', dict(acc=1, burn=1), 2, 2],
  ['re_sgld', dict(numpy=0, state=1, mb=2, acc=2), 1, 2],
  ['amagold', dict(mass=1, steps=2), 1, 1],
  ['amagold', dict(acc=1, burn=1, state=1), 1, 2],
  ['amagold', dict(adaptive=1, burn=1, numpy=0), 1, 2],
  ['amagold', dict(equal=1, cache=1, mb=2), 2, 1],
  ['sggmc', dict(mass=1, steps=2), 1, 1],
  ['sggmc', dict(acc=1, burn=1, state=1), 1, 2],
  ['sggmc', dict(adaptive=1, burn=1, numpy=0), 1, 2],
  ['sggmc', dict(equal=1, cache=1, mb=2), 2, 1],
  ['sghmc', dict(acc=2, mass=1, steps=2), 2, 2],
  ['sghmc', dict(acc=1, burn=1, tree=1, numpy=0, state=1), 1, 2],
  ['sghmc', dict(noise='diag', steps=1, mb=2, cache=1, acc=1), 1, 1],
  ['obabo', dict(acc=2, mass=1, steps=2), 2, 2],
  ['obabo', dict(acc=1, burn=1, numpy=0, state=1, mb=2, cache=1), 1, 3],
  # longer runs, trajectories and caches
  ['sgld', dict(acc=6), 1, 6],
  ['sgld', dict(acc=2, burn=3), 2, 5],
  ['sgld', dict(acc=2, mb=1, cache=7), 3, 2],
  ['sgld', dict(acc=2, burn=1, rms=1), 3, 4],
  ['re_sgld', dict(acc=3), 1, 3],
  ['amagold', dict(steps=4), 1, 1],
  ['amagold', dict(steps=1, acc=2), 1, 2],
  ['sggmc', dict(steps=4), 1, 1],
  ['sggmc', dict(steps=1, acc=2), 1, 2],
  ['sghmc', dict(acc=3, steps=3, mass=1, tree=1, burn=1), 1, 4],
  ['sghmc', dict(acc=2, steps=5), 1, 2],
  ['obabo', dict(acc=4, steps=1), 1, 4],
  ['amagold', dict(adaptive=1, burn=2), 1, 3],
  ['sggmc', dict(adaptive=1, burn=2), 1, 3],
  # many chains
  ['sgld', dict(acc=1), 11, 1],
  ['re_sgld', dict(acc=1, numpy=0), 5, 1],
  ['sghmc', dict(acc=1, steps=1), 11, 1],
  ['obabo', dict(acc=1, steps=1, numpy=0), 11, 1],
  ['amagold', dict(acc=1, steps=1), 4, 1],
  ['sggmc', dict(acc=1, steps=1), 4, 1],
]
T = Q + [
  ['re_sgld', dict(acc=2, burn=1), 2, 3],
  ['amagold', dict(acc=1, mass=1, state=1), 2, 2],
  ['sggmc', dict(acc=1, mass=1, state=1), 2, 2],
  ['sghmc', dict(noise='full', steps=1, mb=2, cache=1, acc=1), 1, 1],
  ['sghmc', dict(noise='diag', steps=2, mb=2, cache=2, acc=2), 2, 2],
  ['obabo', dict(acc=2, burn=1, mass=1, steps=3), 2, 3],
]


@CHECK.harness('sampler', quick=Q, thorough=T,
               bounds='1-3 (some: 4, 5, 11) chains of 1-6 iterations of 1-5 inner steps over '
               'parameters of two leaves; arbitrary step sizes, friction, mass, '
               'temperature, RMSprop and dual averaging constants, initial samples, '
               'data and potentials; listed burn-in, batch and cache sizes and numbers '
               'of samples; samples on the host and on the device')
def sampler(h, cfg):
  from jax_sgmc import alias
  kind, opt, n, iterations = cfg
  spec = {'w': (2,), 'b': ()} if opt.get('noise') != 'full' else {'w': (2,)}
  s = settings(h, kind, opt)
  pot = stub_potential(n_lik=s['batch_size'])
  full = full_potential(bool(opt.get('state')))
  xs = []
  for c in range(n):
    if kind == 're_sgld':
      xs.append((tree_of(h, f'x{c}', spec), tree_of(h, f'z{c}', spec)))
    else:
      xs.append(tree_of(h, f'x{c}', spec))
  state = h.array('state') if opt.get('state') else None
  r = stubs.run()
  loader = make_loader(h, 3)
  pots = (pot, full) if kind in ('amagold', 'sggmc') else (pot,)
  r.path_names = {}
  run = getattr(alias, kind)(*pots, loader, **s)
  kw = {} if state is None else dict(init_model_state=state)
  got = run(*xs, iterations=iterations, **kw)
  seen = (list(loader.random), list(loader.ordered))
  r.path_names = {}
  want = reference(h, kind, s, pot, full, make_loader(h, 3), xs, state, iterations)
  r.path_names = None
  h.same('size of the cache and the batches of every random chain',
         sorted({tuple(c[:2]) for c in seen[0]}), [(s['cache_size'], s['batch_size'])])
  if kind in ('amagold', 'sggmc'):
    h.same('size of the cache and the batches of the full data',
           sorted({tuple(c) for c in seen[1]}), [(s['cache_size'], s['batch_size'])])
  h.same('number of results', len(got), n)
  for c in range(n):
    sub = got[c]['samples'] if 'samples' in got[c] else got[c]
    for k, smp in enumerate(want[c]):
      h.same('variables of a sample', sorted(sub), sorted(smp))
      for name in smp:
        w, td = tree_util.tree_flatten(smp[name])
        g, gd = tree_util.tree_flatten(sub[name])
        h.same('structure', str(gd), str(td))
        for a, b in zip(g, w):
          h.same('samples are kept on the host', not isinstance(a, jax.Array),
                 s['save_to_numpy'])
          h.same('number of samples', np.shape(a)[0], len(want[c]))
          h.eq(f'{name} of the samples', a[k], val(b))


@CHECK.harness('refusal', quick=[['sgld', 3, 1, 3], ['re_sgld', 3, 0, 2],
                                 ['sghmc', 2, 2, 3], ['obabo', 2, 1, 2],
                                 ['amagold', 3, 1, 3], ['sggmc', 2, 1, 2]],
               bounds='more samples requested than iterations after burn-in')
def refusal(h, cfg):
  from jax_sgmc import alias
  kind, acc, burn, iterations = cfg
  s = settings(h, kind, dict(acc=acc, burn=burn))
  pots = (stub_potential(),)
  if kind in ('amagold', 'sggmc'):
    pots += (full_potential(False),)
  run = getattr(alias, kind)(*pots, make_loader(h, 3), **s)
  x = tree_of(h, 'x', SPECS['dict'])
  h.raises('refusal of more samples than iterations', AssertionError,
           lambda: run((x, x) if kind == 're_sgld' else x, iterations=iterations))
