"""P11: Metropolis-Hastings correction of AMAGOLD and SGGMC."""
from functools import partial

from .common import *

CHECK = Check('P11', 'MH')


def schedule_(h):
  from jax_sgmc.scheduler import schedule
  eps, T = h.pos('eps'), h.pos('T')
  return schedule(step_size=eps, temperature=T, burn_in=jnp.array(1.0),
                  accept=jnp.array(True))


def full_pot(with_state):
  """Full potential: uninterpreted value, data state counts the sweeps."""
  def full(sample, data_state, full_map, state=None, **kw):
    args = tree_util.tree_leaves(sample)
    st = () if state is None else (state,)
    return (stubs.UF('F', *args, *st),
            (data_state + 1, None if state is None else stubs.UF('Fs', *args, *st)))
  return full


def full_val(xs, st):
  a = [np.ravel(x) for x in xs] + ([] if st is None else [np.ravel(st)])
  return ufv('F', *a), None if st is None else ufv('Fs', *a)


FULL_MAP = (lambda **kw: jnp.asarray(kw.get('offset', 0), dtype=jnp.int32),
            lambda *a, **k: None, lambda: None)


def stub_mass(h, mlog):
  from jax_sgmc.adaption import MassMatrix

  def init(sample, mass):
    mlog.append(('init', sample, mass))
    return jnp.asarray(0, dtype=jnp.int32)

  def update(state, sample):
    mlog.append(('update', state, sample))
    return state + 1

  def get(state):
    mlog.append(('get', state))
    return MassMatrix(inv=stubs.UF('inv', state, shape=()),
                      sqrt=stubs.UF('sq', state, shape=()))
  return init, update, get


def states(h, kind, spec, has_state, tag, energies):
  from jax_sgmc import integrator
  x = tree_of(h, tag + 'x', SPECS[spec])
  p = tree_of(h, tag + 'p', SPECS[spec])
  ms = h.array(tag + 'ms', ()) if has_state else None
  common = dict(positions=x, momentum=p, potential=energies.get('pot'),
                model_state=ms, data_state=h.array(tag + 'ds', (), 'int', 0, 9),
                key=h.key(tag + 'k'))
  if kind == 'amagold':
    return integrator.LeapfrogState(**common)
  return integrator.ObaboState(kinetic_energy_start=energies.get('k0'),
                               kinetic_energy_end=energies.get('k1'), **common)


CFG = [['amagold', 'dict', 1, 0], ['amagold', 'vec', 0, 1], ['sggmc', 'dict', 1, 0],
       ['sggmc', 'vec', 0, 1]] + [
  [k, s, a, b] for k in ('amagold', 'sggmc') for s, a, b in (
    ('same', 1, 1), ('nest', 0, 0), ('scalar', 1, 0), ('dict', 0, 1))]
CFG_T = [[k, s, a, b] for k in ('amagold', 'sggmc') for s in SPECS
         for a in (0, 1) for b in (0, 1)]


@CHECK.harness('step', quick=CFG, thorough=CFG_T,
               bounds='one MH step from an arbitrary chain state with an arbitrary '
               'proposal (any positions, momentum, energies, model state), any '
               'uniform draw, step size and temperature; trees with 1-6 scalars')
def step(h, cfg):
  from jax_sgmc import solver
  kind, spec, has_state, adapt = cfg
  old = states(h, kind, spec, has_state, 'o',
               dict(pot=h.array('oE'), k0=jnp.array(0.), k1=jnp.array(0.)))
  prop = states(h, kind, spec, has_state, 'n',
                dict(pot=h.array('nE'), k0=h.array('K0'), k1=h.array('K1')))
  mlog, seen = [], []

  def upd(state, sched, mass=None):
    seen.append((state, sched, mass))
    return prop

  def get(state):
    return {'variables': state.positions, 'energy': state.potential,
            'model_state': state.model_state}
  mk = getattr(solver, kind)
  _, update, getter = mk((None, upd, get), full_pot(has_state), FULL_MAP,
                         stub_mass(h, mlog) if adapt else None)
  cls = solver.AMAGOLDState if kind == 'amagold' else solver.SGGMCState
  xo, xn = leaves(old.positions), leaves(prop.positions)
  so = val(old.model_state) if has_state else None
  sn = val(prop.model_state) if has_state else None
  U0 = h.array('U0')
  U1, s1 = full_val(xn, sn)
  z = jnp.array(0.0)
  r = stubs.run()
  s = cls(full_data_state=jnp.asarray(3, dtype=jnp.int32), potential=U0,
          integrator_state=old, key=h.key('mh'),
          acceptance_ratio=(z, z) if kind == 'amagold' else (z, z, z),
          mass_state=jnp.asarray(5, dtype=jnp.int32) if adapt else None)
  sched = schedule_(h)
  r.key_log.clear()
  new, stats = update(s, sched)
  us = [k for k in r.key_log if k[0] == 'uniform']
  h.same('one uniform draw decides', len(us), 1)
  u = h.scalar(f"uniform[{us[0][1]}]{list(us[0][2])}@{[0] * len(us[0][2])}",
               lo=0, hi=1, strict=True)
  u0, T = val(U0)[()], val(sched.temperature)[()]
  if kind == 'amagold':
    la = u0 - U1 + val(prop.potential)[()]
  else:
    la = (u0 - U1 + val(prop.kinetic_energy_start)[()]
          - val(prop.kinetic_energy_end)[()]) / T
  la = minimum(la, frac(0))
  h.assume(lnot(log(u) == la))
  acc = h.fork(log(u) < la)
  st = new.integrator_state
  sign = 1 if acc else -1
  h.eq('sample', flat(getter(new)['variables']), cat(xn) if acc else cat(xo))
  h.eq('momentum', flat(st.momentum), flat((prop if acc else old).momentum) * sign)
  h.eq('current true potential', new.potential, arr(U1 if acc else u0))
  if has_state:
    h.eq('model state', getter(new)['model_state'], arr(s1) if acc else so)
  h.eq('data chain advances even when rejected', st.data_state,
       val(prop.data_state))
  h.eq('noise chain advances even when rejected', st.key, val(prop.key))
  h.eq('full data state', new.full_data_state, arr(frac(4)))
  h.eq('reported acceptance ratio', getter(new)['acceptance_ratio'], arr(exp(la)))
  h.eq('acceptance ratio passed to the scheduler', stats['acceptance_ratio'],
       arr(exp(la)))
  h.eq('reported step size', getter(new)['step_size'], val(sched.step_size))
  if kind == 'sggmc':
    h.eq('kinetic energies restart', cat([val(st.kinetic_energy_start),
                                          val(st.kinetic_energy_end)]), zeros((2,)))
    h.eq('reported potential', getter(new)['potential'], arr(U1 if acc else u0))
    h.eq('reported kinetic energy', getter(new)['kinetic_energy'],
         val(prop.kinetic_energy_end) - val(prop.kinetic_energy_start))
  h.treeeq('proposal starts from the current state', seen[0][0].positions,
           old.positions)
  h.treeeq('proposal starts from the current momentum', seen[0][0].momentum,
           old.momentum)
  h.same('one proposal per step', len(seen), 1)
  if adapt:
    h.eq('adapted mass used', cat([val(seen[0][2].inv), val(seen[0][2].sqrt)]),
         cat([ufv('inv', [5]), ufv('sq', [5])]))
    ups = [e for e in mlog if e[0] == 'update']
    h.same('one mass update', len(ups), 1)
    h.eq('mass adapted to the accepted sample', flat(ups[0][2]),
         cat(xn) if acc else cat(xo))
    h.eq('mass state', new.mass_state, arr(frac(6)))
  else:
    h.same('no mass', seen[0][2], None)


@CHECK.harness('init', quick=CFG, thorough=CFG_T,
               bounds='initial state for an arbitrary sample and model state')
def init_(h, cfg):
  from jax_sgmc import solver, integrator
  kind, spec, has_state, adapt = cfg
  x = tree_of(h, 'x', SPECS[spec])
  ms = h.array('ms', ()) if has_state else None
  mlog, seen = [], []

  def iinit(sample, key=None, init_model_state=None, mass=None, **kw):
    seen.append((mass, kw))
    z = jnp.array(0.0)
    d = dict(positions=sample, momentum=sample, potential=z,
             model_state=init_model_state, data_state=z, key=key)
    if kind == 'amagold':
      return integrator.LeapfrogState(**d)
    return integrator.ObaboState(kinetic_energy_start=z, kinetic_energy_end=z, **d)

  def get(state):
    return {'variables': state.positions, 'energy': state.potential,
            'model_state': state.model_state}
  mk = getattr(solver, kind)
  init, _, getter = mk((iinit, None, get), full_pot(has_state), FULL_MAP,
                       stub_mass(h, mlog) if adapt else None)
  mass0 = tree_of(h, 'm', SPECS[spec], lo=0, strict=True)
  kw = dict(initial_mass=mass0) if adapt else {}
  r = stubs.run()
  r.key_log.clear()
  s = init(x, key=h.key(), init_model_state=ms, full_data_kwargs={'offset': 2},
           batch_kwargs={'tag': 1}, **kw)
  U, st = full_val(leaves(x), None if ms is None else val(ms))
  h.eq('true potential of the initial sample', s.potential, arr(U))
  h.treeeq('initial sample', getter(s)['variables'], x)
  h.eq('full data state', s.full_data_state, arr(frac(3)))
  h.same('integrator arguments', seen[0][1], {'batch_kwargs': {'tag': 1}})
  if has_state:
    h.eq('model state', getter(s)['model_state'], arr(st))
  k = [val(q) for q in (s.key, s.integrator_state.key, h.key())]
  for i in range(3):
    for j in range(i):
      h.true('independent keys', lnot(land(*[a == b for a, b in zip(k[i], k[j])])))
  if adapt:
    h.treeeq('initial mass reaches the adaption', mlog[0][2], mass0)
    if kind == 'amagold':
      h.eq('initial momentum drawn with the adapted mass', val(seen[0][0].inv),
           ufv('inv', [0]))


@CHECK.harness('floats', quick=[['amagold'], ['sggmc']],
               bounds='one MH step on IEEE single precision numbers: any old energy that '
               'is a number, any energies of the proposal (infinite or no number), any '
               'uniform draw and positive temperature; exp, log, products and '
               'quotients known by their special values, signs, order and ranges')
def floats(h, cfg):
  from jax_sgmc import solver, integrator
  kind, = cfg
  names = ['U0', 'U1', 'nE', 'K0', 'K1', 'T', 'eps', 'ox', 'nx', 'op', 'np']
  xs = h.floats(*names)
  u, = h.floats('u')
  zero, key = jnp.array(0.0), jnp.zeros(2, jnp.uint32)
  count = jnp.array(0, jnp.int32)

  def step_(U0, U1, nE, K0, K1, T, eps, ox, nx, op, np_):
    from jax_sgmc.scheduler import schedule
    mk = integrator.LeapfrogState if kind == 'amagold' else partial(
      integrator.ObaboState, kinetic_energy_start=K0, kinetic_energy_end=K1)
    state = lambda x, p, e: mk(positions=x, momentum=p, potential=e, model_state=None,
                               data_state=count, key=key)
    old, prop = state(ox, op, zero), state(nx, np_, nE)
    _, update, getter = getattr(solver, kind)(
      (None, lambda s, sched, mass=None: prop,
       lambda s: {'variables': s.positions}),
      lambda x, ds, fmap, state=None, **kw: (U1, (ds, state)), FULL_MAP)
    cls = solver.AMAGOLDState if kind == 'amagold' else solver.SGGMCState
    new, stats = update(cls(
      full_data_state=count, potential=U0, integrator_state=old, key=key,
      acceptance_ratio=(zero,) * (2 if kind == 'amagold' else 3), mass_state=None),
      schedule(step_size=eps, temperature=T, burn_in=jnp.array(1.0),
               accept=jnp.array(True)))
    return (new.integrator_state.positions, new.integrator_state.momentum,
            new.potential, stats['acceptance_ratio'])
  (x, p, U, a), o, axioms = h.on_floats(step_, xs, u, rough=True)
  U0, U1, nE, K0, K1, T, eps, ox, nx, op, np_ = xs
  n = o.num
  usual = lambda: o.all(
    o.le(n(0), u), o.lt(u, n(1)), o.no(o.nan(U0)), o.no(o.inf(U0)),
    o.lt(n(0), T), o.no(o.inf(T)), *axioms)
  undefined = (U1, nE) if kind == 'amagold' else (U1, K0, K1)
  none = lambda: o.any(*[o.nan(v) for v in undefined])
  finite = lambda: o.all(*[o.no(o.any(o.nan(v), o.inf(v))) for v in undefined])
  stays = lambda: o.all(o.same(x, ox), o.same(U, U0), o.any(
    o.eq(p, o.neg(op)), o.nan(op)))
  h.bits_hold('a proposal without an energy is rejected', stays, usual, none)
  h.bits_hold('a proposal of infinite energy is rejected', stays, usual,
              lambda: o.all(o.inf(U1), o.lt(n(0), U1),
                            *[o.no(o.any(o.nan(v), o.inf(v))) for v in undefined[1:]]))
  h.bits_hold('acceptance ratio is a probability',
              lambda: o.all(o.le(n(0), a), o.le(a, n(1))), usual)
  h.bits_hold('the true potential stays a number', lambda: o.no(o.nan(U)), usual)
  h.bits_hold('the true potential belongs to the sample', lambda: o.any(
    o.all(o.same(x, nx), o.same(p, np_), o.same(U, U1)), stays()), usual)
  if kind == 'amagold':
    h.bits_hold('a proposal of lower energy is accepted',
                lambda: o.all(o.same(x, nx), o.same(U, U1)), usual, finite,
                lambda: o.lt(U1, U0), lambda: o.le(n(0), nE))
  else:
    h.bits_hold('a proposal of lower energy is accepted',
                lambda: o.all(o.same(x, nx), o.same(U, U1)), usual, finite,
                lambda: o.lt(U1, U0), lambda: o.le(K1, K0),
                lambda: o.all(o.le(n(1e-6), T), o.le(T, n(1e6))))
