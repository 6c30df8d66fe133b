"""P14: adaption estimates the documented statistics for every tree."""
from .common import *

CHECK = Check('P14', 'Adaption')
SPECS14 = dict(SPECS, mixed={'b': {'c': (), 'd': (1, 2)}, 'a': ()})


def mean(vs):
  s = vs[0]
  for v in vs[1:]:
    s = s + v
  return s / len(vs)


def tensor(h, label, tn, ndim, tree):
  """Checks the type of a returned tensor -> flat vector or matrix rows"""
  h.same(label + ': dimension', int(tn.ndim), ndim)
  if ndim == 1:
    a, b = tree_util.tree_structure(tn.tensor), tree_util.tree_structure(tree)
    h.same(label + ': structure', str(a), str(b))
    h.same(label + ': shapes', struct(tn.tensor), struct(tree))
    return flat(tn.tensor)
  n = len(flat(tree))
  h.same(label + ': shape', tuple(np.shape(tn.tensor)), (n, n))
  return val(tn.tensor)


def mat(rows):
  return arr([list(r) for r in rows])


def mm(A, B):
  n, k, m = len(A), len(B), len(B[0])
  out = zeros((n, m))
  for i in range(n):
    for j in range(m):
      s = frac(0)
      for l in range(k):
        s = s + A[i][l] * B[l][j]
      out[i, j] = s
  return out


def ident(n):
  return mat([[frac(int(i == j)) for j in range(n)] for i in range(n)])


@CHECK.harness('rms_prop', quick=[['vec', 2, 1], ['mixed', 1, 1], ['dict', 2, 0], ['same', 4, 1],
                                  ['scalar', 3, 0], ['scalar', 2, 1], ['same', 1, 1],
                                  ['nest', 2, 1]],
               thorough=[[s, k, d] for s in SPECS14 for k in (1, 2, 3)
                         for d in (0, 1)],
               bounds='1-4 updates from the initial state; decay and regularisation '
               'given or default; sample trees with 1-4 scalars')
def rms_prop(h, cfg):
  from jax_sgmc import adaption
  spec, steps, given = cfg
  x = tree_of(h, 'x', SPECS14[spec])
  init, update, get = adaption.rms_prop()
  kw = {}
  al, lm = frac(9, 10), frac(1, 100000)
  if given:
    a, l = h.array('alpha', (), lo=0), h.pos('lmbd')
    h.assume(val(a)[()] <= 1)
    kw = dict(alpha=a, lmbd=l)
    al, lm = val(a)[()], val(l)[()]
  elif not h.sym:
    al, lm = 0.9, 1e-5
  state = init(x, **kw)
  v = arr([frac(1)] * len(flat(x)))
  for k in range(steps):
    xk, g = tree_of(h, f'x{k}', SPECS14[spec]), tree_of(h, f'g{k}', SPECS14[spec])
    state = update(state, xk, g, {'batch': h.array(f'b{k}', (2,))})
    v = al * v + (1 - al) * flat(g) * flat(g)
    man = get(state, xk, g, {'batch': h.array(f'b{k}', (2,))})
    G = tensor(h, 'metric', man.g_inv, 1, x)
    S = tensor(h, 'root', man.sqrt_g_inv, 1, x)
    gam = tensor(h, 'correction', man.gamma, 1, x)
    if given:
      h.eq('metric', G * (lm + sqrt(v)), arr([frac(1)] * len(v)))
    else:
      # the default constants are rounded to float32
      d = G * (lm + sqrt(v)) - 1
      for e in d:
        h.true('metric with defaults', land(e <= frac(1, 1000), e >= frac(-1, 1000)))
    h.eq('root of the metric', S * S, G)
    for s in S:
      h.true('root is not negative', s >= 0)
    h.eq('correction', gam, zeros((len(v),)))


def spd_assume(h, C):
  """positive definite (leading minors) for n <= 3"""
  n = len(C)
  for i in range(n):
    h.assume(C[i][i] > 0)
  if n >= 2:
    h.assume(C[0][0] * C[1][1] - C[0][1] * C[1][0] > 0)
  if n == 3:
    h.assume(C[0][0] * (C[1][1] * C[2][2] - C[1][2] * C[2][1])
             - C[0][1] * (C[1][0] * C[2][2] - C[1][2] * C[2][0])
             + C[0][2] * (C[1][0] * C[2][1] - C[1][1] * C[2][0]) > 0)


MASS = [['same', True, 3, 'tree'], ['vec', True, 6, 'tree'], ['vec', True, 2, 'tree'], ['dict', True, 3, 'none'], ['mixed', True, 2, 'none'],
        ['vec', False, 2, 'none'], ['vec', False, 3, 'tree'],
        ['scalar', False, 2, 'none'], ['dict', False, 2, 'tree']]


@CHECK.harness('mass_matrix', quick=MASS,
               thorough=MASS + [['nest', True, 3, 'tree'], ['scalar', True, 4, 'none'],
                                ['vec', True, 4, 'tree'], ['mixed', False, 1, 'tree'],
                                ['scalar', False, 3, 'tree']],
               bounds='burn-in of 2-6 steps and two steps beyond; diagonal and dense '
               'matrices; initial covariance given as tree or omitted; the root of '
               'dense matrices for up to 2 parameters (eigh: exact decomposition)')
def mass_matrix(h, cfg):
  from jax_sgmc import adaption
  spec, diagonal, burn, cov0 = cfg
  x = tree_of(h, 'x', SPECS14[spec])
  n = len(flat(x))
  init, update, get = adaption.mass_matrix(diagonal=diagonal, burn_in=burn)
  c = tree_of(h, 'c', SPECS14[spec], lo=0, strict=True) if cov0 == 'tree' else None
  state = init(x, c)
  c0 = flat(c) if c is not None else arr([frac(1)] * n)
  nd = 1 if diagonal else 2

  def initial(label, state):
    m = get(state)
    W, S = tensor(h, 'inverse', m.inv, nd, x), tensor(h, 'root', m.sqrt, nd, x)
    if diagonal:
      h.eq(label + ': inverse', W, c0)
      h.eq(label + ': root', S * S * c0, arr([frac(1)] * n))
    else:
      h.eq(label + ': inverse', W, mat(diag(list(c0))))
      h.eq(label + ': root', mm(mm(S, S.T), W), ident(n))
  initial('before burn-in', state)
  seen = []
  # the covariance of the samples of the burn-in
  samples = [tree_of(h, f's{k}', SPECS14[spec]) for k in range(burn)]
  fl = [flat(s) for s in samples]
  mu = mean(fl)
  C = zeros((n, n))
  for f in fl:
    for i in range(n):
      for j in range(n):
        C[i, j] = C[i, j] + (f[i] - mu[i]) * (f[j] - mu[j]) / len(fl)
  singular = not diagonal and burn <= n
  for i in range(n):
    h.assume(C[i, i] > 0)
  if not diagonal and n == 2 and not singular:
    spd_assume(h, C)
  for k, s in enumerate(samples):
    state = update(state, s)
    if k < burn - 1:
      initial('during burn-in', state)
  m = get(state)
  W, S = tensor(h, 'inverse', m.inv, nd, x), tensor(h, 'root', m.sqrt, nd, x)
  if diagonal:
    h.eq('inverse mass is the variance', W, arr([C[i, i] for i in range(n)]))
    h.eq('root of the mass', S * S * W, arr([frac(1)] * n))
    for e in S:
      h.true('root is positive', e > 0)
  else:
    h.eq('inverse mass is the covariance', W, C)
    if n <= 2 and not singular:
      h.eq('root of the mass', mm(mm(S, S.T), W), ident(n))
  for k in range(2):
    state = update(state, tree_of(h, f't{k}', SPECS14[spec]))
    m2 = get(state)
    h.eq('fixed after burn-in: inverse', flat(m2.inv.tensor), flat(m.inv.tensor))
    h.eq('fixed after burn-in: root', flat(m2.sqrt.tensor), flat(m.sqrt.tensor))


@CHECK.harness('mass_history', quick=[[150, True], [130, False]],
               thorough=[[150, True], [400, True], [300, False]],
               bounds='burn-in of 130-400 steps with samples of one or two parameters: '
               'three of the samples are arbitrary, the other ones fixed')
def mass_history(h, cfg):
  from jax_sgmc import adaption
  burn, diagonal = cfg
  n = 2 if diagonal else 1
  init, update, get = adaption.mass_matrix(diagonal=diagonal, burn_in=burn)
  state = init({'w': h.array('x', (n,))}, None)
  free = {1, burn // 2, burn - 2}
  fl = []
  for k in range(burn):
    if k in free:
      s = h.array(f's{k}', (n,))
    else:
      s = jnp.array([((7 * k + 3 * i) % 11 - 5) / 2 for i in range(n)])
    fl.append(val(s))
    state = update(state, {'w': s})
  # sum of squares about the mean
  C = sum((np.outer(f, f) for f in fl), zeros((n, n))) / burn
  m = sum(fl, zeros((n,))) / burn
  C = C - np.outer(m, m)
  for i in range(n):
    h.assume(C[i, i] > 0)
  man = get(state)
  W, S = flat(man.inv.tensor), flat(man.sqrt.tensor)
  h.eq('inverse mass is the variance', W, arr([C[i, i] for i in range(n)]))
  h.eq('root of the mass', S * S * W, arr([frac(1)] * n))


def psd_lemma(h, C):
  """A Gram matrix is positive semi-definite"""
  n = len(C)
  for i in range(n):
    h.assume(C[i][i] >= 0)
  if n == 2:
    h.assume(C[0][0] * C[1][1] - C[0][1] * C[1][0] >= 0)


def svd_factor(h, label, S, want):
  """S is a square root of the symmetric matrix want: S S^T = want"""
  n = len(want)
  h.eq(label, mm(S, S.T), want)


@CHECK.harness('fisher', quick=[['vec', True, 2, 'map', 0], ['dict', True, 3, 'vmap', 1],
                                ['mixed', True, 2, 'batched', 0],
                                ['vec', False, 2, 'map', 0]],
               thorough=[['vec', True, 2, 'map', 0], ['dict', True, 3, 'vmap', 1],
                         ['mixed', True, 2, 'batched', 0], ['vec', False, 2, 'map', 0],
                         ['vec', True, 4, 'vmap', 0], ['scalar', False, 3, 'vmap', 1],
                         ['nest', True, 3, 'map', 1],
                         ['scalar', False, 2, 'batched', 1]],
               bounds='2-4 observations per batch, arbitrary differentiable '
               'likelihood and prior through the real minibatch_potential; diagonal '
               'and dense noise models (svd: exact decomposition, up to 2 scalars); '
               'trees with 1-4 scalars')
def fisher(h, cfg):
  from jax_sgmc import adaption, potential
  from jax_sgmc.data import MiniBatchInformation
  spec, diagonal, n, strat, has_state = cfg
  x = tree_of(h, 'x', SPECS14[spec])
  d = len(flat(x))
  fric = tree_of(h, 'f', SPECS14[spec], lo=0, strict=True)
  eps = h.array('eps', (), lo=0, strict=True)
  ms = h.array('ms', ()) if has_state else None
  y = h.array('y', (n,))
  N = h.array('N', (), lo=n)
  xl = tree_util.tree_leaves(x)

  def one(state, sample, obs):
    args = tree_util.tree_leaves(sample) + [obs['y']]
    st = [] if state is None else [state]
    return stubs.UF('lik', *args, *st)

  def likelihood(*a):
    state, sample, obs = a if has_state else (None,) + a
    if strat == 'batched':
      v = jnp.stack([one(state, sample, {'y': obs['y'][i]}) for i in range(n)])
    else:
      v = one(state, sample, obs)
    return (v, state + 1) if has_state else v

  pot = potential.minibatch_potential(
    lambda s: stubs.UF('prior', *tree_util.tree_leaves(s)), likelihood,
    strategy='map' if strat == 'batched' else strat, has_state=bool(has_state),
    is_batched=strat == 'batched')
  batch = ({'y': y}, MiniBatchInformation(
    observation_count=N, mask=jnp.ones(n, bool), batch_size=n))
  # oracle: covariance of the gradients of the single log-likelihoods
  xs, fv, e = leaves(x), flat(fric), val(eps)[()]
  G = []
  for i in range(n):
    args = [np.ravel(a) for a in xs] + [np.ravel(val(y)[i])]
    if has_state:
      args.append(np.ravel(val(ms)))
    G.append(cat([ufv(f"lik.d{k}", *args, shape=np.shape(a))
                  for k, a in enumerate(xs)]))
  mu = mean(G)
  V = zeros((d, d))
  for g in G:
    for i in range(d):
      for j in range(d):
        V[i, j] = V[i, j] + (g[i] - mu[i]) * (g[j] - mu[j]) / (n - 1)
  nd = 1 if diagonal else 2
  b = mat([[e * V[i, j] / 2 for j in range(d)] for i in range(d)])
  D = mat(diag(list(fv))) - b
  if not diagonal:
    # a difference which is not positive definite has no real root
    spd_assume(h, D)
    psd_lemma(h, b)
  init, update, get = adaption.fisher_information(minibatch_potential=pot,
                                                  diagonal=diagonal)
  state = init(x)
  (_, _), grad = jax.value_and_grad(pot, has_aux=True)(x, batch, state=ms)
  state = update(state, x, grad, fric, mini_batch=batch, step_size=eps)
  model = get(state, x, grad, fric, mini_batch=batch, step_size=eps, model_state=ms)
  if diagonal and d == 2:
    # without step size: as for a unit step
    one, plain = [get(state, x, grad, fric, mini_batch=batch, model_state=ms, **kw)
                  for kw in (dict(step_size=jnp.array(1.0)), {})]
    h.treeeq('default step size', plain, one)
  CB = tensor(h, 'noise', model.cb_diff_sqrt, nd, x)
  B = tensor(h, 'estimate', model.b_sqrt, nd, x)
  if diagonal:
    b = arr([e * V[i, i] / 2 for i in range(d)])
    ok = land(*[fv[i] - b[i] > 0 for i in range(d)])
    if h.fork(ok):
      h.eq('injected noise', CB * CB, fv - b)
      h.eq('noise estimate', B * B, b)
    else:
      # parameters whose friction is below the estimate get the smallest noise of
      # the other ones, which are not affected
      low = None
      for i in range(d):
        if h.fork(fv[i] - b[i] > 0):
          low = fv[i] - b[i] if low is None else minimum(low, fv[i] - b[i])
          h.eq('injected noise, other parameters corrected', CB[i] * CB[i],
               arr(fv[i] - b[i]))
      for i in range(d):
        if d == 2 and low is not None and not h.fork(fv[i] - b[i] > 0):
          h.eq('injected noise, corrected', CB[i] * CB[i], arr(low))
  else:
    svd_factor(h, 'injected noise', CB, D)
    svd_factor(h, 'noise estimate', B, b)


def stub_adaption(h, x, dense, log):
  """Adaption strategy whose results are arbitrary functions of its state"""
  from jax_sgmc.adaption import Manifold
  from jax_sgmc.util import Tensor
  n = len(flat(x))

  def like(name, s):
    ls, td = tree_util.tree_flatten(x)
    return tree_util.tree_unflatten(
      td, [stubs.UF(f"{name}{k}", s, shape=np.shape(l)) for k, l in enumerate(ls)])

  def init(sample, **kw):
    log.append(('init', sample, kw))
    return jnp.asarray(0, dtype=jnp.int32)

  def update(state, sample, grad, *args, **kw):
    log.append(('update', state, sample, grad))
    return state + 1

  def get(state, sample, grad, *args, **kw):
    log.append(('get', state, sample, grad))
    if dense:
      G = Tensor(2, stubs.UF('G', state, shape=(n, n)))
      S = Tensor(2, stubs.UF('S', state, shape=(n, n)))
    else:
      G, S = Tensor(1, like('G', state)), Tensor(1, like('S', state))
    return Manifold(g_inv=G, sqrt_g_inv=S, gamma=Tensor(1, like('Ga', state)))
  return init, update, get


def stub_val(name, x, k):
  return cat([ufv(f"{name}{i}", [k], shape=np.shape(l))
              for i, l in enumerate(tree_util.tree_leaves(x))])


def mv(M, v):
  return arr([sum((a * b for a, b in zip(r, v)), frac(0)) for r in M])


@CHECK.harness('langevin_on_manifold', quick=[['vec', 0, 0], ['dict', 1, 1], ['vec', 1, 0],
                                              ['same', 0, 1], ['nest', 0, 0]],
               thorough=[[s, d, m] for s in ('vec', 'dict', 'nest', 'mixed')
                         for d in (0, 1) for m in (0, 1)],
               bounds='two updates; arbitrary diagonal or dense metric, root and '
               'correction; trees with 2-4 scalars')
def manifold(h, cfg):
  from jax_sgmc import integrator
  from jax_sgmc.scheduler import schedule
  spec, dense, has_state = cfg
  x = tree_of(h, 'x', SPECS14[spec])
  ms = h.array('ms', ()) if has_state else None
  epsa, Ta = h.array('eps', (), lo=0, strict=True), h.array('T', (), lo=0)
  par = schedule(step_size=epsa, temperature=Ta, burn_in=jnp.array(1.0),
                 accept=jnp.array(True))
  eps, T = val(epsa)[()], val(Ta)[()]
  log = []
  init, update, get = integrator.langevin_diffusion(
    stub_potential(), batch_chain(h), adaption=stub_adaption(h, x, dense, log))
  s0 = init(x, key=h.key(), init_model_state=ms, batch_kwargs={'offset': 3},
            adaption_kwargs={'tag': 7})
  h.same('arguments of the adaption', log[0][2], {'tag': 7})
  h.treeeq('sample given to the adaption', log[0][1], x)
  st = None if ms is None else val(ms)
  n = len(flat(x))
  for k in range(2):
    xs = leaves(s0.latent_variables)
    u, g, st = pot_oracle(xs, batch_val(3 + k), st)
    if dense:
      G = ufv('G', [k + 1], shape=(n, n))
      S = ufv('S', [k + 1], shape=(n, n))
    else:
      G = mat(diag(list(stub_val('G', x, k + 1))))
      S = mat(diag(list(stub_val('S', x, k + 1))))
    gam = stub_val('Ga', x, k + 1)
    drift = cat(xs) - eps * mv(G, cat(g)) + eps * gam
    obs = {}

    def observe():
      del log[:]
      obs['s'] = update(s0, par)
      return flat(get(obs['s'])['variables']) - drift
    C = mm(S, S.T)
    check_noise(h, 'langevin on the manifold', observe,
                [[2 * T * eps * e for e in r] for r in C])
    h.same('one update, then one evaluation', [l[0] for l in log], ['update', 'get'])
    h.eq('adaption state', log[0][1], arr(frac(k)))
    h.eq('updated state evaluated', log[1][1], arr(frac(k + 1)))
    for l in log:
      h.eq('sample of the adaption', flat(l[2]), cat(xs))
      h.eq('gradient of the adaption', flat(l[3]), cat(g))
    with noise_as(lambda nm: 0):
      s0 = update(s0, par)


@CHECK.harness('langevin_rms', quick=[['vec'], ['same']], thorough=[['vec'], ['dict'], ['mixed']],
               bounds='two updates of Langevin diffusion with the real RMSprop '
               'strategy')
def langevin_rms(h, cfg):
  from jax_sgmc import integrator, adaption
  from jax_sgmc.scheduler import schedule
  x = tree_of(h, 'x', SPECS14[cfg[0]])
  epsa, Ta = h.array('eps', (), lo=0, strict=True), h.array('T', (), lo=0)
  al, lm = h.array('alpha', (), lo=0), h.pos('lmbd')
  h.assume(val(al)[()] <= 1)
  par = schedule(step_size=epsa, temperature=Ta, burn_in=jnp.array(1.0),
                 accept=jnp.array(True))
  eps, a, l = val(epsa)[()], val(al)[()], val(lm)[()]
  init, update, get = integrator.langevin_diffusion(
    stub_potential(), batch_chain(h), adaption=adaption.rms_prop())
  s = init(x, key=h.key(), batch_kwargs={'offset': 3},
           adaption_kwargs=dict(alpha=al, lmbd=lm))
  v = arr([frac(1)] * len(flat(x)))
  for k in range(2):
    xs = leaves(s.latent_variables)
    _, g, _ = pot_oracle(xs, batch_val(3 + k))
    g = cat(g)
    v = a * v + (1 - a) * g * g
    with noise_as(lambda nm: 0):
      s = update(s, par)
    h.eq('step', (flat(get(s)['variables']) - cat(xs)) * (l + sqrt(v)), -eps * g)


@CHECK.harness('sghmc_noise_model', quick=[['vec', 0, 0], ['dict', 1, 1], ['same', 0, 1]],
               thorough=[[s, d, m] for s in ('vec', 'dict', 'mixed') for d in (0, 1)
                         for m in (0, 1)],
               bounds='one leapfrog step with friction; arbitrary diagonal or dense '
               'noise model; scalar or per-parameter friction')
def sghmc_noise(h, cfg):
  from jax_sgmc import integrator
  from jax_sgmc.adaption import NoiseModel
  from jax_sgmc.util import Tensor
  from jax_sgmc.scheduler import schedule
  spec, dense, treefric = cfg
  x = tree_of(h, 'x', SPECS14[spec])
  n = len(flat(x))
  ms = h.array('ms', ())
  epsa = h.array('eps', (), lo=0, strict=True)
  par = schedule(step_size=epsa, temperature=jnp.array(1.0),
                 burn_in=jnp.array(1.0), accept=jnp.array(True))
  eps = val(epsa)[()]
  if treefric:
    fr = tree_of(h, 'f', SPECS14[spec], lo=0, strict=True)
    f = flat(fr)
  else:
    fr = h.array('f', (), lo=0, strict=True)
    f = arr([val(fr)[()]] * n)

  def parts(state, sample, grad, friction, mini_batch=None, step_size=None,
            model_state=None):
    out = [state] + tree_util.tree_leaves((sample, grad, friction))
    out += [mini_batch[0]['y'], step_size]
    return out + ([] if model_state is None else [model_state])

  def ninit(sample):
    return stubs.UF('N0', *tree_util.tree_leaves(sample))

  def nupdate(*args, **kw):
    return stubs.UF('N1', *parts(*args, **kw))

  def nget(*args, **kw):
    ins = parts(*args, **kw)
    ls, td = tree_util.tree_flatten(x)
    q = (Tensor(2, stubs.UF('Q', *ins, shape=(n, n))) if dense
         else Tensor(1, tree_util.tree_unflatten(
           td, [stubs.UF(f"Q{k}", *ins, shape=np.shape(q)) for k, q in enumerate(ls)])))
    return NoiseModel(cb_diff_sqrt=q, b_sqrt=q)
  init, integrate, get = integrator.friction_leapfrog(
    stub_potential(), batch_chain(h), steps=1, friction=fr,
    noise_model=(ninit, nupdate, nget))
  s0 = init(x, key=h.key(), init_model_state=ms, batch_kwargs={'offset': 2})
  xs, shapes = flat(x), struct(x)

  def observe():
    s1 = integrate(s0, par)
    x1 = flat(s1.positions)
    p0 = (x1 - xs) / eps
    u, g, _ = pot_oracle(split_like(x1, shapes), batch_val(2), val(ms))
    rest = [x1, cat(g), f, batch_val(2), [eps]]
    n1 = ufv('N1', [ufv('N0', xs)], *rest)
    h.eq('kept state of the noise model', s1.extra_fields, arr(n1))
    ins = [[n1]] + rest + [val(ms)]
    if dense:
      Q = ufv('Q', *ins, shape=(n, n))
    else:
      Q = mat(diag(list(cat([ufv(f"Q{i}", *ins, shape=np.shape(l))
                             for i, l in enumerate(tree_util.tree_leaves(x))]))))
    res = flat(s1.momentum) - p0 + eps * f * p0 + eps * cat(g)
    return x1, res, Q

  # The noise of the momentum refreshment moves the position; the remaining noise
  # must have the covariance 2 eps Q Q^T
  r = stubs.run()
  r.noise_names = []
  observe()
  names = list(r.noise_names)
  late = []
  for nm in names:
    ends = []
    for v in (0, 1):
      with noise_as(lambda q, v=v, nm=nm: v if q == nm else None):
        ends.append(observe()[0])
    same = land(*[a == b for a, b in zip(*ends)])
    if h.fork(same):
      late.append(nm)
  with noise_as(lambda q: 0 if q in late else None):
    _, res, Q = observe()
  h.eq('momentum update without noise', res, zeros((n,)))
  cols = []
  for nm in late:
    with noise_as(lambda q, nm=nm: (1 if q == nm else 0) if q in late else None):
      cols.append(observe()[1])
  C = mm(Q, Q.T)
  full = zeros((n,))
  for nm, c in zip(late, cols):
    full = full + c * h.scalar(nm)
  h.eq('noise enters linearly', observe()[1], full)
  for i in range(n):
    for j in range(i + 1):
      s = sum((c[i] * c[j] for c in cols), frac(0))
      h.eq('covariance of the injected noise', arr(s), arr(2 * eps * C[i, j]))


@CHECK.harness('solver_mass', quick=[['amagold', 'vec', 'none'], ['sggmc', 'dict', 'tree'],
                                     ['sggmc', 'vec', 'none'], ['sggmc', 'same', 'tree'],
                                     ['amagold', 'same', 'none']],
               thorough=[[k, s, c] for k in ('amagold', 'sggmc')
                         for s in ('vec', 'dict', 'mixed') for c in ('none', 'tree')],
               bounds='AMAGOLD and SGGMC with the real mass adaption (diagonal, burn-in '
               '2): three updates with arbitrary proposals')
def solver_mass(h, cfg):
  from jax_sgmc import solver, adaption, integrator
  from jax_sgmc.scheduler import schedule
  kind, spec, cov0 = cfg
  x = tree_of(h, 'x', SPECS14[spec])
  n = len(flat(x))
  seen = []
  prop = [tree_of(h, f'q{k}', SPECS14[spec]) for k in range(3)]
  step = [0]
  z = jnp.array(0.0)

  def mk(sample, key, st):
    d = dict(positions=sample, momentum=sample, potential=z, model_state=st,
             data_state=z, key=key)
    if kind == 'amagold':
      return integrator.LeapfrogState(**d)
    return integrator.ObaboState(kinetic_energy_start=z, kinetic_energy_end=z, **d)

  def iinit(sample, key=None, init_model_state=None, mass=None, **kw):
    return mk(sample, key, init_model_state)

  def integrate(state, par, mass=None):
    seen.append(mass)
    return mk(prop[step[0]], state.key, state.model_state)

  def full(sample, data_state, full_data_map_fn, state=None):
    return stubs.UF('F', *tree_util.tree_leaves(sample)), (data_state, None)
  init, update, get = getattr(solver, kind)(
    (iinit, integrate, lambda s: {'variables': s.positions}), full,
    (lambda **kw: z, None, None), adaption.mass_matrix(burn_in=2))
  kw = {}
  c0 = arr([frac(1)] * n)
  if cov0 == 'tree':
    c = tree_of(h, 'c', SPECS14[spec], lo=0, strict=True)
    kw, c0 = dict(initial_mass=c), flat(c)
  s = init(x, key=h.key(), **kw)
  par = schedule(step_size=h.pos('eps'), temperature=h.pos('T'),
                 burn_in=jnp.array(1.0), accept=jnp.array(True))
  hist = []
  for k in range(3):
    step[0] = k
    if k == 2:
      # the integrator divides by the variance
      mu = mean(hist)
      var = sum(((q - mu) * (q - mu) for q in hist), zeros((n,))) / 2
      for e in var:
        h.assume(e > 0)
    s, _ = update(s, par)
    hist.append(flat(get(s)['variables']))
    W = flat(seen[k].inv.tensor)
    S = flat(seen[k].sqrt.tensor)
    want = c0 if k < 2 else var
    h.eq('inverse mass of the step', W, want)
    h.eq('root of the mass', S * S * want, arr([frac(1)] * n))
