"""P12: replica exchange of parallel tempering."""
from .common import *

CHECK = Check('P12', 'Parallel tempering')


def chain(h, tag, spec):
  from jax_sgmc.integrator import LangevinState
  return LangevinState(
    latent_variables=tree_of(h, tag + 'x', SPECS[spec]), model_state=None,
    key=h.key(tag + 'k'), adapt_state=None,
    data_state=h.array(tag + 'ds', (), 'int', 0, 9),
    potential=h.array(tag + 'U'), variance=h.array(tag + 'v', lo=0))


def sched(h, tag):
  from jax_sgmc.scheduler import schedule
  return schedule(step_size=h.pos(tag + 'eps'), temperature=h.pos(tag + 'T'),
                  burn_in=jnp.array(1.0), accept=jnp.array(True))


def advance(state, sch):
  """Stub of the integrator: an arbitrary function of chain and schedule."""
  args = (tree_util.tree_leaves(state.latent_variables), state.data_state,
          state.potential, state.variance, sch.temperature, sch.step_size)
  x = [stubs.UF(f"adv{i}", *args, shape=np.shape(l)) for i, l in
       enumerate(tree_util.tree_leaves(state.latent_variables))]
  return state._replace(
    latent_variables=tree_util.tree_unflatten(
      tree_util.tree_structure(state.latent_variables), x),
    data_state=state.data_state + 1, potential=stubs.UF('advU', *args),
    variance=stubs.UF('advv', *args))


def advanced(state, sch):
  args = [np.ravel(l) for l in leaves(state.latent_variables)] + [
    np.ravel(val(q)) for q in (state.data_state, state.potential, state.variance,
                               sch.temperature, sch.step_size)]
  return (cat([ufv(f"adv{i}", *args, shape=np.shape(l)) for i, l in
               enumerate(leaves(state.latent_variables))]),
          ufv('advU', *args), ufv('advv', *args), val(state.data_state)[()] + 1)


@CHECK.harness('step', quick=[['dict', 0], ['vec', 1], ['same', 0], ['scalar', 1]],
               thorough=[['dict', 0], ['vec', 0], ['nest', 0], ['scalar', 1],
                         ['vec', 1]],
               bounds='one update from an arbitrary pair of chains, any integrator, '
               'variance estimate, step count, correction factor, temperatures and '
               'uniform draw; default and custom averaging schedule')
def step(h, cfg):
  from jax_sgmc import solver
  spec, custom = cfg
  c0, h0 = chain(h, 'c0', spec), chain(h, 'h0', spec)
  sc, sh = sched(h, 'c'), sched(h, 'h')
  n = h.array('n', (), 'int', 0, 50)
  ssq, F = h.array('ssq', lo=0), h.pos('F')
  kw = dict(sa_schedule=lambda k: stubs.UF('gamma', k)) if custom else {}
  _, update, get = solver.parallel_tempering(
    (None, advance, lambda s: {'variables': s.latent_variables,
                               'data': s.data_state}), **kw)
  r = stubs.run()
  r.key_log.clear()
  new, _ = update((c0, h0, ssq, F, n, h.key('pt')), sc, sh)
  nv = val(n)[()]
  gamma = ufv('gamma', [nv + 1]) if custom else 1 / (1.0 * (nv + 1)) \
      if not h.sym else frac(1) / (nv + 1)
  xc, uc, vc, dc = advanced(c0, sc)
  xh, uh, _, dh = advanced(h0, sh)
  est = (1 - gamma) * val(ssq)[()] + gamma * vc
  us = [k for k in r.key_log if k[0] == 'uniform']
  h.same('one uniform draw decides', len(us), 1)
  u = h.scalar(f"uniform[{us[0][1]}]{list(us[0][2])}@{[0] * len(us[0][2])}",
               lo=0, hi=1, strict=True)
  db = 1 / val(sc.temperature)[()] - 1 / val(sh.temperature)[()]
  ls = db * (uc - uh - db * est / val(F)[()])
  h.assume(lnot(log(u) == ls))
  swap = h.fork(log(u) < ls)
  cold, hot = ((xh, dh), (xc, dc)) if swap else ((xc, dc), (xh, dh))
  h.eq('sample of the cold chain', flat(get(new)['variables']), cold[0])
  h.eq('data chain of the cold chain', get(new)['data'], arr(cold[1]))
  h.eq('sample of the hot chain', flat(new[1].latent_variables), hot[0])
  h.eq('data chain of the hot chain', new[1].data_state, arr(hot[1]))
  h.eq('variance estimate', new[2], arr(est))
  h.eq('correction factor', new[3], val(F))
  h.eq('step count', new[4], arr(nv + 1))
  ks = [val(q) for q in (new[5], h.key('pt'))]
  h.true('new key', lnot(land(*[a == b for a, b in zip(*ks)])))


@CHECK.harness('langevin', quick=[['dict', 7, 2], ['vec', 3, 3], ['same', 100, 4],
                                  ['scalar', 10, 1], ['vec', 20, 8]],
               thorough=[['dict', 7, 2], ['vec', 3, 3], ['nest', 100, 4],
                         ['scalar', 10, 1]],
               bounds='one update of two real Langevin chains; mini-batches of '
               '1-8 of 3-100 observations')
def tempered_langevin(h, cfg):
  from jax_sgmc import solver, integrator
  spec, n_total, mb = cfg
  x = tree_of(h, 'x', SPECS[spec])
  integ = integrator.langevin_diffusion(
    stub_potential(n_lik=mb), batch_chain(h, n_total=n_total, mb=mb))
  init, update, get = solver.parallel_tempering(
    integ, sa_schedule=lambda k: stubs.UF('gamma', k))
  ssq, F = h.array('ssq', lo=0), h.pos('F')
  s = init(x, x, key=h.key('pt'), ssq_init=ssq, F=F)
  sc, sh = sched(h, 'c'), sched(h, 'h')
  new, _ = update(s, sc, sh)
  args = [np.ravel(l) for l in leaves(x)] + [np.ravel(batch_val(0, mb=mb))]
  lik = ufv('Ul', *args, shape=(mb,))
  mean = sum(list(lik), frac(0)) / mb
  var = sum([(l - mean) * (l - mean) for l in lik], frac(0)) / mb
  gamma = ufv('gamma', [frac(1)])
  h.eq('swaps corrected with the variance of the stochastic potential', new[2],
       arr((1 - gamma) * val(ssq)[()] + gamma * var * n_total * n_total / mb))


@CHECK.harness('init', quick=[['dict']], bounds='initial state')
def init_(h, cfg):
  from jax_sgmc import solver
  from jax_sgmc.integrator import LangevinState
  a, b = tree_of(h, 'a', SPECS['dict']), tree_of(h, 'b', SPECS['dict'])
  seen = []

  def iinit(sample, key=None, **kw):
    seen.append((sample, key, kw))
    z = jnp.array(0.0)
    return LangevinState(sample, None, key, None, z, z, z)
  init, _, get = solver.parallel_tempering(
    (iinit, None, lambda s: {'variables': s.latent_variables}))
  s = init(a, b, key=h.key(), ssq_init=h.array('s'), F=h.array('F'),
           batch_kwargs={'t': 1})
  h.treeeq('cold sample', get(s)['variables'], a)
  h.treeeq('hot sample', s[1].latent_variables, b)
  h.same('keyword arguments reach both chains', [x[2] for x in seen],
         [{'batch_kwargs': {'t': 1}}] * 2)
  h.eq('variance estimate', s[2], val(h.array('s')))
  h.eq('correction', s[3], val(h.array('F')))
  k = [val(q) for q in (s[5], seen[0][1], seen[1][1], h.key())]
  for i in range(4):
    for j in range(i):
      h.true('independent keys', lnot(land(*[p == q for p, q in zip(k[i], k[j])])))


@CHECK.harness('floats', quick=[[0], [6]],
               bounds='one update on IEEE single precision numbers: any potentials, '
               'variance and estimate (infinite or no number), any uniform draw and '
               'positive temperatures, the hot one higher; logarithm, products and '
               'quotients known by their special values, signs and order')
def floats(h, cfg):
  from jax_sgmc import solver
  from jax_sgmc.integrator import LangevinState
  from jax_sgmc.scheduler import schedule
  steps, = cfg
  names = ['cU', 'hU', 'v', 'ssq', 'F', 'cT', 'hT', 'cx', 'hx']
  xs = h.floats(*names)
  u, = h.floats('u')
  key, count = jnp.zeros(2, jnp.uint32), jnp.array(0, jnp.int32)

  def step_(cU, hU, v, ssq, F, cT, hT, cx, hx):
    mk = lambda x, e: LangevinState(latent_variables=x, model_state=None, key=key,
                                    adapt_state=None, data_state=count, potential=e,
                                    variance=v)
    sch = lambda T: schedule(step_size=jnp.array(0.1), temperature=T,
                             burn_in=jnp.array(1.0), accept=jnp.array(True))
    _, update, get = solver.parallel_tempering(
      (None, lambda s, sched_: s, lambda s: {'variables': s.latent_variables}))
    new, _ = update((mk(cx, cU), mk(hx, hU), ssq, F, jnp.array(steps), key),
                    sch(cT), sch(hT))
    return (get(new)['variables'], new[0].potential, new[1].latent_variables,
            new[1].potential)
  (x, U, y, V), o, axioms = h.on_floats(step_, xs, u, rough=True)
  cU, hU, v, ssq, F, cT, hT, cx, hx = xs
  n = o.num
  bad = lambda z: o.any(o.nan(z), o.inf(z))
  usual = lambda: o.all(
    o.le(n(0), u), o.lt(u, n(1)), o.le(n(0.5), cT), o.lt(cT, hT), o.le(hT, n(1e4)),
    *axioms)
  stay = lambda: o.all(o.same(x, cx), o.same(U, cU), o.same(y, hx), o.same(V, hU))
  swap = lambda: o.all(o.same(x, hx), o.same(U, hU), o.same(y, cx), o.same(V, cU))
  h.bits_hold('chains are swapped as a whole', lambda: o.any(stay(), swap()), usual)
  h.bits_hold('no swap without energies', stay, usual, lambda: o.any(
    o.nan(cU), o.nan(hU), o.nan(v), o.nan(ssq)))
  h.bits_hold('a hot chain of infinite energy is not adopted', stay, usual,
              lambda: o.all(o.inf(hU), o.lt(n(0), hU)),
              lambda: o.no(o.any(bad(cU), bad(v), bad(ssq), bad(F))),
              lambda: o.lt(n(0), F),
              lambda: o.all(o.le(n(0), v), o.le(n(0), ssq)))
