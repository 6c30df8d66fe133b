"""P10: integrators perform exactly their published transition."""
from .common import *

CHECK = Check('P10', 'Integrators')


def params(h, temp=True):
  from jax_sgmc.scheduler import schedule
  eps = h.array('eps', (), lo=0, strict=True)
  T = h.array('T', (), lo=0)
  return schedule(step_size=eps, temperature=T, burn_in=jnp.array(1.0),
                  accept=jnp.array(True)), val(eps)[()], val(T)[()]


@CHECK.harness('langevin', quick=[['vec', 0], ['dict', 1], ['same', 1], ['scalar', 0]],
               thorough=[[s, m] for s in SPECS for m in (0, 1)],
               bounds='one update from an arbitrary state; sample trees with 1-6 '
               'scalars; with and without a model state')
def langevin(h, cfg):
  from jax_sgmc import integrator
  spec, has_state = cfg
  x = tree_of(h, 'x', SPECS[spec])
  ms = h.array('ms', ()) if has_state else None
  p, eps, T = params(h)
  init, update, get = integrator.langevin_diffusion(
    stub_potential(), batch_chain(h))
  s0 = init(x, key=h.key(), init_model_state=ms, batch_kwargs={'offset': 3})
  xs = leaves(x)
  u, g, new = pot_oracle(xs, batch_val(3), None if ms is None else val(ms))
  obs = {}

  def observe():
    s1 = update(s0, p)
    obs['s'] = s1
    return flat(get(s1)['variables']) - cat(xs) + eps * cat(g)
  n = len(cat(xs))
  check_noise(h, 'langevin', observe, diag([2 * T * eps] * n))
  s1 = obs['s']
  h.eq('reported likelihood', get(s1)['likelihood'], arr(-u))
  if has_state:
    h.eq('model state', get(s1)['model_state'], arr(new))
  h.eq('data state advanced once', s1.data_state, arr(frac(4)))


# -- hamiltonian integrators -------------------------------------------------

def matvec(M, v):
  out = []
  for row in M:
    s = frac(0)
    for a, b in zip(row, v):
      s = s + a * b
    out.append(s)
  return arr(out)


def matmat(A, B):
  Bt = list(zip(*B))
  return [[sum((a * b for a, b in zip(r, c)), frac(0)) for c in Bt] for r in A]


def transpose(A):
  return [list(r) for r in zip(*A)]


def dot(u, v):
  return sum((a * b for a, b in zip(u, v)), frac(0))


def masses(h, kind, x):
  """-> (const_mass argument, mass argument, W, Winv, S) (flat matrices)"""
  from jax_sgmc.adaption import MassMatrix
  from jax_sgmc.util import Tensor
  n = len(flat(x))
  one = [frac(1)] * n
  if kind == 'none':
    return None, None, diag(one), diag(one), diag(one)
  mk = lambda nm: tree_util.tree_map(  # noqa: E731
    lambda i, l: h.pos(f"{nm}{i}", np.shape(l)),
    tree_util.tree_unflatten(tree_util.tree_structure(x),
                             list(range(len(tree_util.tree_leaves(x))))), x)
  if kind == 'const':
    m = mk('m')
    mf = list(flat(m))
    return m, None, diag([1 / a for a in mf]), diag(mf), diag(
      [sqrt(a) for a in mf])
  if kind == 'diag':
    w, s = mk('w'), mk('s')
    wf, sf = list(flat(w)), list(flat(s))
    return None, MassMatrix(inv=Tensor(1, w), sqrt=Tensor(1, s)), diag(wf), diag(
      [1 / a for a in wf]), diag(sf)
  # full matrices: a fixed invertible inverse mass, arbitrary noise factor
  W = np.eye(n) + np.ones((n, n))
  Wi = np.eye(n) - np.ones((n, n)) / (n + 1)
  Wi = [[frac(n * (i == j) + 1 * (i == j) - 1, n + 1) for j in range(n)]
        for i in range(n)]
  Wl = [[frac(int(W[i, j])) for j in range(n)] for i in range(n)]
  S = h.array('S', (n, n))
  Sv = val(S)
  return None, MassMatrix(inv=Tensor(2, jnp.asarray(W)), sqrt=Tensor(2, S)), Wl, \
      Wi, [list(r) for r in Sv]


def scale_cov(c, S):
  C = matmat(S, transpose(S))
  return [[c * e for e in r] for r in C]


HAM = [['vec', 'none', 1], ['dict', 'const', 0], ['dict', 'diag', 0],
       ['vec', 'const', 0], ['vec', 'full', 1], ['same', 'diag', 1], ['scalar', 'none', 0]]
HAM_T = HAM + [['nest', 'const', 1], ['nest', 'diag', 0], ['vec', 'diag', 1],
               ['dict', 'none', 0], ['scalar', 'const', 1], ['dict', 'full', 0],
               ['same', 'const', 0], ['same', 'none', 1]]


@CHECK.harness('obabo', quick=HAM, thorough=HAM_T,
               bounds='one OBABO step from an arbitrary state (positions, momentum, '
               'accumulated energies, model state); mass default/const/diagonal/'
               'dense; trees with 1-6 scalars')
def obabo(h, cfg):
  from jax_sgmc import integrator
  spec, mass, has_state = cfg
  x, m = tree_of(h, 'x', SPECS[spec]), tree_of(h, 'p', SPECS[spec])
  ms = h.array('ms', ()) if has_state else None
  par, eps, T = params(h)
  fr = h.array('f', (), lo=0, strict=True)
  f = val(fr)[()]
  cm, mm, W, Wi, S = masses(h, mass, x)
  k0, k1 = h.array('K0', ()), h.array('K1', ())
  init, integrate, get = integrator.obabo(stub_potential(), batch_chain(h), steps=1,
                                          friction=fr, const_mass=cm)
  s0 = init(x, key=h.key(), init_model_state=ms, batch_kwargs={'offset': 5})
  s0 = s0._replace(momentum=m, kinetic_energy_start=k0, kinetic_energy_end=k1)
  xs, p0 = leaves(x), flat(m)
  shapes = struct(x)
  st = None if ms is None else val(ms)
  ua, ga, st1 = pot_oracle(xs, batch_val(5), st)
  ga = cat(ga)
  perm = exp(-f * eps)
  obs = {}

  def run():
    s1 = integrate(s0, par, mass=mm)
    x1 = flat(s1.positions)
    p1 = matvec(Wi, (x1 - cat(xs)) / eps)      # momentum that moved the position
    r = p1 + eps * ga / 2                      # refreshed momentum
    ub, gb, st2 = pot_oracle(split_like(x1, shapes), batch_val(6), st1)
    p2 = p1 - eps * cat(gb) / 2
    obs.update(s=s1, r=r, p2=p2, u=(ua + ub) / 2, st=st2)
    return r, p2, flat(s1.momentum)

  def first():
    r, _, _ = run()
    return r - sqrt(perm) * p0

  def both():
    r, p2, p3 = run()
    return np.concatenate([r - sqrt(perm) * p0, p3 - sqrt(perm) * p2])
  n = len(p0)
  C = scale_cov((1 - perm) * T, S)
  Z = [[frac(0)] * n for _ in range(n)]
  cov = [a + b for a, b in zip(C, Z)] + [a + b for a, b in zip(Z, C)]
  check_noise(h, 'momentum refreshments', both, cov)
  run()
  s1, r, p2 = obs['s'], obs['r'], obs['p2']
  h.eq('kinetic energy before', s1.kinetic_energy_start,
       arr(val(k0)[()] + dot(r, matvec(W, r)) / 2))
  h.eq('kinetic energy after', s1.kinetic_energy_end,
       arr(val(k1)[()] + dot(p2, matvec(W, p2)) / 2))
  h.eq('potential', get(s1)['energy'], arr(obs['u']))
  h.eq('sample', flat(get(s1)['variables']), flat(s1.positions))
  if has_state:
    h.eq('model state', get(s1)['model_state'], arr(obs['st']))
  h.eq('two mini-batches per step', s1.data_state, arr(frac(7)))


@CHECK.harness('reversible_leapfrog', quick=HAM, thorough=HAM_T,
               bounds='one full step (half drift, kick, half drift) from an '
               'arbitrary state; masses and trees as above')
def leapfrog(h, cfg):
  from jax_sgmc import integrator
  spec, mass, has_state = cfg
  x, m = tree_of(h, 'x', SPECS[spec]), tree_of(h, 'p', SPECS[spec])
  ms = h.array('ms', ()) if has_state else None
  par, eps, T = params(h)
  fr = h.array('f', (), lo=0, strict=True)
  f = val(fr)[()]
  cm, mm, W, Wi, S = masses(h, mass, x)
  init, integrate, get = integrator.reversible_leapfrog(
    stub_potential(), batch_chain(h), steps=1, friction=fr, const_mass=cm)
  s0 = init(x, key=h.key(), init_model_state=ms, batch_kwargs={'offset': 2}, mass=mm)
  s0 = s0._replace(momentum=m, potential=h.array('E0', ()))
  xs, p0, shapes = flat(x), flat(m), struct(x)
  st = None if ms is None else val(ms)
  mid = xs + eps / 2 * matvec(W, p0)
  u, g, st1 = pot_oracle(split_like(mid, shapes), batch_val(2), st)
  g = cat(g)
  obs = {}

  def observe():
    s1 = integrate(s0, par, mass=mm)
    p1 = flat(s1.momentum)
    obs.update(s=s1, p=p1)
    return (1 + eps * f) * p1 - (1 - eps * f) * p0 + eps * g
  check_noise(h, 'momentum update', observe, scale_cov(4 * f * eps, S))
  observe()
  s1, p1 = obs['s'], obs['p']
  h.eq('position', flat(get(s1)['variables']), mid + eps / 2 * matvec(W, p1))
  h.eq('accumulated energy', get(s1)['energy'],
       arr(eps / 2 * dot(p0 + p1, matvec(W, g))))
  if has_state:
    h.eq('model state', get(s1)['model_state'], arr(st1))
  h.eq('one mini-batch per step', s1.data_state, arr(frac(3)))


@CHECK.harness('leapfrog_init', quick=[['vec', 'none'], ['dict', 'const'],
                                       ['dict', 'diag'], ['vec', 'full'], ['same', 'diag'],
                                       ['same', 'none'], ['scalar', 'const']],
               bounds='initial momentum of the reversible leapfrog integrator')
def leapfrog_init(h, cfg):
  from jax_sgmc import integrator
  spec, mass = cfg
  x = tree_of(h, 'x', SPECS[spec])
  cm, mm, W, Wi, S = masses(h, mass, x)
  init, integrate, get = integrator.reversible_leapfrog(
    stub_potential(), batch_chain(h), steps=1, const_mass=cm)
  key = h.key()
  check_noise(h, 'initial momentum',
              lambda: flat(init(x, key=key, mass=mm).momentum),
              scale_cov(frac(1), S))
  s = init(x, key=key, mass=mm)
  h.treeeq('initial sample', get(s)['variables'], x)
  h.eq('initial energy', s.potential, arr(frac(0)))


@CHECK.harness('sghmc', quick=[c + [k] for c, k in zip(HAM, (0, 1, 0, 0, 0, 1, 0))],
               thorough=[c + [k] for c in HAM_T for k in (0, 1)],
               bounds='one integration with one step from an arbitrary state; '
               'scalar and per-parameter friction; masses and trees as above')
def sghmc(h, cfg):
  from jax_sgmc import integrator
  spec, mass, has_state, treefric = cfg
  x = tree_of(h, 'x', SPECS[spec])
  ms = h.array('ms', ()) if has_state else None
  par, eps, T = params(h)
  xs, shapes = flat(x), struct(x)
  n = len(xs)
  if treefric:
    fr = tree_of(h, 'f', SPECS[spec], lo=0, strict=True)
    f = flat(fr)
  else:
    fr = h.array('f', (), lo=0, strict=True)
    f = arr([val(fr)[()]] * n)
  cm, mm, W, Wi, S = masses(h, mass, x)
  init, integrate, get = integrator.friction_leapfrog(
    stub_potential(), batch_chain(h), steps=1, friction=fr, const_mass=cm)
  s0 = init(x, key=h.key(), init_model_state=ms, batch_kwargs={'offset': 2})
  s0 = s0._replace(momentum=tree_of(h, 'p', SPECS[spec]))
  st = None if ms is None else val(ms)
  obs = {}

  def observe():
    s1 = integrate(s0, par, mass=mm)
    x1 = flat(s1.positions)
    v = (x1 - xs) / eps                    # velocity used for the drift
    p0 = matvec(Wi, v)
    u, g, st1 = pot_oracle(split_like(x1, shapes), batch_val(2), st)
    obs.update(s=s1, u=u, st=st1)
    noise = flat(s1.momentum) - p0 + eps * f * v + eps * cat(g)
    return np.concatenate([p0, noise])
  C = scale_cov(frac(1), S)
  D = diag([2 * eps * a for a in f])
  Z = [[frac(0)] * n for _ in range(n)]
  cov = [a + b for a, b in zip(C, Z)] + [a + b for a, b in zip(Z, D)]
  check_noise(h, 'momentum', observe, cov)
  observe()
  s1 = obs['s']
  h.eq('potential', get(s1)['energy'], arr(obs['u']))
  if has_state:
    h.eq('model state', get(s1)['model_state'], arr(obs['st']))
  h.eq('one mini-batch per step', s1.data_state, arr(frac(3)))


@CHECK.harness('multi_step', quick=[['obabo', 2], ['reversible', 2], ['sghmc', 2], ['obabo', 4],
                                    ['reversible', 5], ['sghmc', 7], ['sghmc', 1],
                                    ['obabo', 1], ['reversible', 1]],
               thorough=[[k, n] for k in ('obabo', 'reversible', 'sghmc')
                         for n in (2, 3, 4, 5, 6)],
               bounds='whole trajectories of 1-7 inner steps with '
               'the noise of all but the last step set to zero')
def multi_step(h, cfg):
  from jax_sgmc import integrator
  kind, steps = cfg
  x, m = tree_of(h, 'x', SPECS['dict']), tree_of(h, 'p', SPECS['dict'])
  ms = h.array('ms', ())
  par, eps, T = params(h)
  fr = h.array('f', (), lo=0, strict=True)
  f = val(fr)[()]
  cm, mm, W, Wi, S = masses(h, 'const', x)
  mk = {'obabo': integrator.obabo, 'reversible': integrator.reversible_leapfrog,
        'sghmc': integrator.friction_leapfrog}[kind]
  init, integrate, get = mk(stub_potential(), batch_chain(h), steps=steps,
                            friction=fr, const_mass=cm)
  s0 = init(x, key=h.key(), init_model_state=ms, batch_kwargs={'offset': 4})
  s0 = s0._replace(momentum=m)
  shapes = struct(x)
  n = len(flat(x))
  with noise_as(lambda nm: 0):
    s1 = integrate(s0, par)
  X, P, st, k = flat(x), flat(m), val(ms), 4
  if kind == 'sghmc':
    P = zeros((n,))
  E = frac(0)
  K0 = K1 = frac(0)
  U = None
  if kind == 'reversible':
    X = X + eps / 2 * matvec(W, P)

  def force(X):
    nonlocal st, k
    u, g, st = pot_oracle(split_like(X, shapes), batch_val(k), st)
    k += 1
    return u, cat(g)
  rp = sqrt(exp(-f * eps))
  for i in range(steps):
    if kind == 'obabo':
      P = rp * P
      K0 = K0 + dot(P, matvec(W, P)) / 2
      ua, g = force(X)
      P = P - eps / 2 * g
      X = X + eps * matvec(W, P)
      ub, g = force(X)
      P = P - eps / 2 * g
      K1 = K1 + dot(P, matvec(W, P)) / 2
      P = rp * P
      U = (ua + ub) / 2
    elif kind == 'reversible':
      if i:
        X = X + eps * matvec(W, P)
      _, g = force(X)
      Q = ((1 - eps * f) * P - eps * g) / (1 + eps * f)
      E = E + eps / 2 * dot(P + Q, matvec(W, g))
      P = Q
    else:
      V = matvec(W, P)
      X = X + eps * V
      U, g = force(X)
      P = P - eps * f * V - eps * g
  if kind == 'reversible':
    X = X + eps / 2 * matvec(W, P)
    U = E
  h.eq('trajectory: positions', flat(get(s1)['variables']), X)
  h.eq('trajectory: momentum', flat(s1.momentum), P)
  h.eq('trajectory: energy', get(s1)['energy'], arr(U))
  h.eq('trajectory: model state', get(s1)['model_state'], arr(st))
  h.eq('trajectory: batches', s1.data_state, arr(frac(k)))
  if kind == 'obabo':
    h.eq('trajectory: kinetic before', s1.kinetic_energy_start, arr(K0))
    h.eq('trajectory: kinetic after', s1.kinetic_energy_end, arr(K1))
  # noise of the last draw enters with the covariance of a single step
  r = stubs.run()
  r.noise_names = []
  if kind == 'reversible':
    integrate(s0, par)
  else:
    integrate(s0, par)
  last = list(r.noise_names)[-n:]
  cols = []
  for nm in last:
    with noise_as(lambda q, nm=nm: 1 if q == nm else 0):
      cols.append(flat(integrate(s0, par).momentum) - P)
  want = {'obabo': scale_cov((1 - exp(-f * eps)) * T, S),
          'reversible': scale_cov(4 * f * eps / (1 + eps * f) ** 2, S),
          'sghmc': diag([2 * eps * f] * n)}[kind]
  for i in range(n):
    for j in range(i + 1):
      s = frac(0)
      for c in cols:
        s = s + c[i] * c[j]
      h.eq('trajectory: covariance of the last noise', arr(s), arr(want[i][j]))


# Langevin diffusion on a manifold and friction with a noise model are described with
# the adaption (P14); they are transitions of the integrators as well
from . import p14  # noqa: E402

CHECK.harness('manifold', quick=[['dict', 1, 1], ['vec', 0, 0]],
              thorough=[['nest', 0, 1], ['mixed', 1, 0]],
              bounds='two updates on an arbitrary diagonal or dense metric with '
              'correction; trees with 2-4 scalars')(p14.manifold)
CHECK.harness('noise_model', quick=[['vec', 0, 0], ['dict', 1, 1]],
              thorough=[['mixed', 0, 1], ['mixed', 1, 0]],
              bounds='one leapfrog step with friction; arbitrary diagonal or dense '
              'noise model with a state')(p14.sghmc_noise)
