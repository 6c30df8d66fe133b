"""P13: random keys are never reused."""
import re
from .common import *

CHECK = Check('P13', 'Random keys')


def keys_in(tree):
  """Paths of all keys stored in a state"""
  r = stubs.run()
  out = []
  for l in tree_util.tree_leaves(tree):
    if np.shape(l)[-1:] == (2,) and np.dtype(getattr(l, 'dtype', float)) == np.uint32:
      v = val(l).reshape((-1, 2))
      for row in v:
        kid = row[0]
        if isinstance(kid, SV):
          kid = int(kid)
        out.append(r.keys[int(kid)])
  return out


def consumption(log):
  """-> list of (key, what it was used for); folding in distinct data is no reuse"""
  out = []
  for op, path, detail in log:
    out.append((path, op, detail if op == 'fold_in' else None))
  return out


def judge(h, label, log, before, after, roots):
  """Inductive step: the state held fresh keys before; every key is used at most once
  and the keys in the new state are fresh again.

  Keys are compared through the operations that made them: two keys are the same if
  and only if they result from the same operation on the same key.
  """
  uses = {}
  for path, op, detail in consumption(log):
    uses.setdefault(path, []).append((op, detail))
  bad = []
  for path, us in uses.items():
    folds = [u for u in us if u[0] == 'fold_in']
    if len(us) > 1 and (len(folds) < len(us) or len(set(folds)) < len(folds)):
      bad.append(path)
  h.same(f"{label}: keys used more than once", bad, [])
  ka = keys_in(after)
  h.same(f"{label}: keys of the new state which were already used",
         [k for k in ka if k in uses], [])
  h.same(f"{label}: keys occurring twice in the new state",
         sorted({k for k in ka if ka.count(k) > 1}), [])
  # every key descends from a key of the former state (or of the user)
  allowed = list(before) + list(roots)
  h.same(f"{label}: keys which do not descend from the key of the chain",
         [k for k in list(uses) + ka
          if not any(k == b or k.startswith(b + '.') for b in allowed)], [])


def full_pot():
  def full(sample, data_state, full_data_map_fn, state=None):
    return (stubs.UF('F', *tree_util.tree_leaves(sample)),
            (data_state, None if state is None else state + 1))
  return full


FULL_MAP = (lambda **kw: jnp.array(0), None, None)


def solver_of(h, kind, x, batches):
  from jax_sgmc import solver, integrator, adaption
  pot = stub_potential()
  if kind == 'langevin':
    return solver.sgmc(integrator.langevin_diffusion(pot, batches))
  if kind == 'langevin_rms':
    return solver.sgmc(integrator.langevin_diffusion(pot, batches,
                                                     adaption.rms_prop()))
  if kind == 'obabo':
    return solver.sgmc(integrator.obabo(pot, batches, steps=2))
  if kind == 'leapfrog':
    return solver.sgmc(integrator.reversible_leapfrog(pot, batches, steps=2))
  if kind == 'sghmc':
    return solver.sgmc(integrator.friction_leapfrog(pot, batches, steps=2))
  if kind == 'amagold':
    return solver.amagold(integrator.reversible_leapfrog(pot, batches, steps=2),
                          full_pot(), FULL_MAP)
  if kind == 'amagold_mass':
    return solver.amagold(integrator.reversible_leapfrog(pot, batches, steps=1),
                          full_pot(), FULL_MAP, adaption.mass_matrix(burn_in=5))
  if kind == 'sggmc':
    return solver.sggmc(integrator.obabo(pot, batches, steps=2), full_pot(),
                        FULL_MAP)
  if kind == 'sggmc_mass':
    return solver.sggmc(integrator.obabo(pot, batches, steps=1), full_pot(),
                        FULL_MAP, adaption.mass_matrix(burn_in=5))
  return solver.parallel_tempering(integrator.langevin_diffusion(pot, batches))


def device_chain(h, N=4, mb=2, cache=1):
  """Random batches of a data set on the device"""
  from jax_sgmc.data import core
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
  dl = DeviceNumpyDataLoader(y=h.array('data', (N, 2)))
  return core.random_reference_data(dl, cache, mb)


MH = ('amagold', 'sggmc', 'amagold_mass', 'sggmc_mass')


def par(h, tag=''):
  from jax_sgmc.scheduler import schedule
  return schedule(step_size=h.pos(tag + 'eps'), temperature=h.pos(tag + 'T'),
                  burn_in=jnp.array(1.0), accept=jnp.array(True))


KINDS = ['langevin', 'langevin_rms', 'obabo', 'leapfrog', 'sghmc', 'amagold', 'sggmc',
         'tempering', 'amagold_mass', 'sggmc_mass']


@CHECK.harness('solver', quick=[[k, 'dict', 2, 0] for k in KINDS] +
               [[k, 'vec', 2, 1] for k in ('langevin', 'obabo', 'leapfrog', 'sghmc')] +
               [[k, 'same', 1 if k in MH else 2, 0] for k in KINDS] +
               [['langevin', 'vec', 8, 1], ['sghmc', 'same', 6, 1]] +
               [[k, 'wide', 1, 0] for k in ('langevin', 'obabo', 'leapfrog', 'sghmc')],
               thorough=[[k, s, 4, d] for k in KINDS for s in ('dict', 'nest', 'same')
                         for d in (0, 1) if not (k == 'tempering' and d)],
               bounds='parameters of 1-4 and of 38 leaves; initialisation and 2 (some: 8, '
               'thorough: 4) updates with arbitrary '
               'potentials and acceptance decisions; the state of every update holds '
               'only fresh keys, which makes the argument inductive; with random '
               'batches of a device data set drawn from their own key')
def solvers(h, cfg):
  kind, spec, steps, device = cfg
  x = tree_of(h, 'x', SPECS[spec])
  log = stubs.run().key_log
  batches = device_chain(h) if device else batch_chain(h)
  init, update, get = solver_of(h, kind, x, batches)
  roots = ['chain']
  kw = dict(key=h.key('chain'))
  if device:
    kw['batch_kwargs'] = {'key': h.key('data')}
    roots.append('data')
  del log[:]
  args = (x, x) if kind == 'tempering' else (x,)
  s = init(*args, **kw)
  judge(h, 'initialisation', log, [], s, roots)
  for k in range(steps):
    del log[:]
    before = keys_in(s)
    if kind == 'tempering':
      s, _ = update(s, par(h, 'c'), par(h, 'h'))
    else:
      s, _ = update(s, par(h))
    judge(h, f'update {k}', log, before, s, [])
    h.true(f'update {k}: draws random numbers',
           any(op not in ('split', 'fold_in') for op, _, _ in log))


@CHECK.harness('mcmc', quick=[['langevin', 'map', 3], ['obabo', 'vmap', 3],
                              ['leapfrog', 'map', 3], ['tempering', 'map', 3]],
               thorough=[[k, s, 2 if k in MH else 3] for k in KINDS
                         for s in ('map', 'vmap') if not (s == 'vmap' and k in MH)],
               bounds='two chains with their own keys through the real mcmc driver '
               'for 3 iterations (AMAGOLD, SGGMC: 2), with random thinning, device data '
               'and no saving')
def driver(h, cfg):
  from jax_sgmc import solver, scheduler
  kind, strat, its = cfg
  x = tree_of(h, 'x', SPECS['dict'])
  device = kind != 'tempering'
  batches = device_chain(h) if device else batch_chain(h)
  sol = solver_of(h, kind, x, batches)
  eps = scheduler.polynomial_step_size(h.pos('a'), jnp.array(1.0), jnp.array(0.0))
  burn = scheduler.initial_burn_in(0)
  thin = scheduler.random_thinning(eps, burn, 1)
  sched = scheduler.init_scheduler(step_size=eps, burn_in=burn, thinning=thin,
                                   progress_bar=False)
  saving = (lambda *a: jnp.array(0), lambda state, *a, **k: (state, None),
            lambda state, saved: state)
  run = solver.mcmc(sol, sched, strategy=strat, saving=saving)
  log = stubs.run().key_log
  del log[:]
  sts = []
  for c in range(2):
    kw = dict(key=h.key(f'chain{c}'))
    if device:
      kw['batch_kwargs'] = {'key': h.key(f'data{c}')}
    args = (x, x) if kind == 'tempering' else (x,)
    sts.append(sol[0](*args, **kw))
  extra = dict(schedulers=({'temperature': {}},)) if kind == 'tempering' else {}
  run(*sts, iterations=its, **extra)
  # The thinning of every chain and scheduler is initialised with the same default
  # key, which selects the same iterations; it must be used for nothing else.
  thinning = [e for e in log if e[1] == 'root0']
  h.same('use of the key of the thinning', sorted({e[0] for e in thinning}),
         ['choice'])
  rest = [e for e in log if e[1] != 'root0']
  judge(h, 'run', rest, [], [], ['chain0', 'chain1', 'data0', 'data1'])


@CHECK.harness('loader', quick=[[4, 2, 3], [3, 1, 3], [9, 4, 12], [3, 3, 3], [1, 1, 2],
                                 [5, 4, 2]],
               thorough=[[4, 2, 6], [3, 1, 5], [2, 2, 4]],
               bounds='3-12 batches of the device data loader for two chains')
def loader(h, cfg):
  from jax_sgmc.data import core
  N, mb, steps = cfg
  init, get, _ = device_chain(h, N, mb)
  log = stubs.run().key_log
  del log[:]
  chains = [init(key=h.key('data0')), init(key=h.key('data1'))]
  judge(h, 'initialisation', log, [], chains, ['data0', 'data1'])
  for k in range(steps):
    for c in range(2):
      del log[:]
      before = keys_in(chains[c])
      chains[c], _ = get(chains[c])
      judge(h, f'batch {k}', log, before, chains, keys_in(chains[1 - c]))


@CHECK.harness('thinning', quick=[[3], [7]], thorough=[[3], [6]],
               bounds='random thinning: initialisation with a given key, 3-6 updates')
def thinning(h, cfg):
  from jax_sgmc import scheduler
  its, = cfg
  eps = scheduler.polynomial_step_size(h.pos('a'), jnp.array(1.0), jnp.array(0.0))
  burn = scheduler.initial_burn_in(0)
  init, update, get = scheduler.random_thinning(eps, burn, 2)
  log = stubs.run().key_log
  del log[:]
  s, _ = init(its, key=h.key('thin'))
  judge(h, 'initialisation', log, [], s, ['thin'])
  h.same('draw with the given key', [(e[0], e[1].split('.')[0]) for e in log
                                     if e[0] != 'split'], [('choice', 'thin')])
  del log[:]
  for k in range(its):
    get(s, k)
    s = update(s, k)
  h.same('no random draws while sampling', list(log), [])
