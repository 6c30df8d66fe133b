"""P07: schedules deliver the documented parameters in every iteration."""
from .common import *

CHECK = Check('P07', 'Schedules')


def run_schedule(sch, its, kwargs=None, stats=None, after=None, arrays=False,
                 **init_kw):
  """Schedules seen in all iterations, and the static information."""
  init, update, get = sch
  state, static = init(its, **(kwargs or {}), **init_kw)
  if arrays:
    # as a compiled loop carries them
    state = tree_util.tree_map(jnp.asarray, state)
  out = []
  for k in range(its):
    s = get(state)
    out.append(s)
    state = update(state, **(stats(k) if stats else {}))
    if after:
      after(k)
  return out, static


def reports(text):
  """[step, iterations, collected, samples] of each progress report"""
  import re
  return [[int(v) for v in m] for m in
          re.findall(r'(\d+)\s*/\s*(\d+).*?(\d+)\s+of\s+(\d+)', text)]


def int_of(x):
  v = val(x)[()]
  return v


def check_defaults(h, seq, static, its, which):
  for s in seq:
    if 'step' in which:
      h.eq('default step size', s.step_size, arr(frac(1)))
    if 'temp' in which:
      h.eq('default temperature', s.temperature, arr(frac(1)))
    if 'burn' in which:
      h.true('default burn in', val(s.burn_in)[()] != 0)
    if 'thin' in which:
      h.true('default thinning', val(s.accept)[()] != 0)
  if 'thin' in which and 'burn' in which:
    h.eq('all samples collected', static.samples_collected, arr(its))


GAMMAS = {'third': (1, 3), 'half': (1, 2), 'one': (1, 1), 'two': (2, 1),
          'doc': (33, 100)}


def gamma_of(h, g):
  if g == 'sym':
    x = h.pos('gamma')
    return x, val(x)[()]
  if g == 'zero':
    return 0.0, frac(0)
  if g.startswith('int'):
    return int(g[3:]), frac(int(g[3:]))
  n, d = GAMMAS[g]
  return (stubs_const(n, d), frac(n, d))


def stubs_const(n, d):
  """An exactly represented constant parameter."""
  from vsym import trace
  return trace.make(SV(frac(n, d)), np.float32) if stubs.run().sym else \
      jnp.asarray(n / d)


@CHECK.harness('polynomial', quick=[[40, 'half', 0], [1, 'sym', 0], [3, 'sym', 0], [4, 'half', 1],
                                    [2, 'zero', 1], [120, 'sym', 1], [25, 'third', 0], [7, 'one', 1], [600, 'half', 0],
                                    [4, 'int1', 0], [3, 'int2', 1], [2, 'int0', 0]],
               thorough=[[n, g, o] for n in (1, 2, 5, 9) for g in
                         ('sym', 'half', 'third', 'doc', 'zero', 'one')
                         for o in (0, 1)],
               bounds='1-600 iterations, every scale, stabilisation and decay constant '
               '(symbolic and rational exponents; Python integers as well), given at construction or as '
               'override at initialisation')
def polynomial(h, cfg):
  from jax_sgmc import scheduler
  its, g, override = cfg
  a, b = h.pos('a'), h.pos('b')
  if g.startswith('int'):
    a, b = (2, 1) if its % 2 == 0 else (h.pos('a'), 3)
  gam, og = gamma_of(h, g)
  kw = {}
  if override:
    sp = scheduler.polynomial_step_size(a=2.5, b=0.5, gamma=0.7)
    kw = {'step_size': dict(a=a, b=b, gamma=gam)}
  else:
    sp = scheduler.polynomial_step_size(a=a, b=b, gamma=gam)
  sch = scheduler.init_scheduler(step_size=sp, progress_bar=False)
  seq, static = run_schedule(sch, its, kw)
  oa, ob = [frac(v) if isinstance(v, int) else val(v)[()] for v in (a, b)]
  for n, s in enumerate(seq):
    h.eq('polynomial step size', s.step_size, arr(oa * power(ob + n, -og)))
  check_defaults(h, seq, static, its, ('temp', 'burn', 'thin'))


@CHECK.harness('first_last', quick=[[2, 'half', 0], [3, 'one', 1], [4, 'third', 0],
                                    [1, 'half', 0], [1, 'one', 1], [30, 'half', 1], [12, 'two', 0], [250, 'one', 0],
                                    [3, 'int1', 0], [4, 'int2', 1]],
               thorough=[[n, g, o] for n in (1, 2, 3, 5, 8)
                         for g in ('half', 'third', 'one', 'two') for o in (0, 1)],
               bounds='1-30 iterations, every first >= last > 0, decay constants 1/3, '
               '1/2, 1 and 2')
def first_last(h, cfg):
  from jax_sgmc import scheduler
  its, g, override = cfg
  first, last = h.pos('first'), h.pos('last')
  h.assume(val(last)[()] <= val(first)[()])
  gam, og = gamma_of(h, g)
  kw = {}
  if override:
    sp = scheduler.polynomial_step_size_first_last(first=3.0, last=0.3, gamma=0.7)
    kw = {'step_size': dict(first=first, last=last, gamma=gam)}
  else:
    sp = scheduler.polynomial_step_size_first_last(first=first, last=last, gamma=gam)
  seq, _ = run_schedule(scheduler.init_scheduler(step_size=sp, progress_bar=False),
                        its, kw)
  h.eq('first step size', seq[0].step_size, val(first))
  if its == 1:
    return
  h.eq('last step size', seq[-1].step_size, val(last))
  # a (b + n)^-gamma with these ends: step^(-1/gamma) is linear in n
  f, l = power(val(first)[()], -1 / og), power(val(last)[()], -1 / og)
  for n, s in enumerate(seq):
    h.eq('polynomial between first and last',
         s.step_size, arr(power(f + (l - f) * frac(n, its - 1), -og)))


@CHECK.harness('first_last_defaults', quick=[[1], [3]], thorough=[[1], [2], [7]],
               bounds='default arguments')
def first_last_defaults(h, cfg):
  from jax_sgmc import scheduler
  sp = scheduler.polynomial_step_size_first_last()
  seq, _ = run_schedule(scheduler.init_scheduler(step_size=sp, progress_bar=False),
                        cfg[0])
  h.eq('first step size', seq[0].step_size, arr(frac(1)))
  h.eq('last step size', seq[-1].step_size, arr(frac(1)))


@CHECK.harness('temperature', quick=[[3, 0], [3, 1], [600, 0]], thorough=[[6, 0], [6, 1]],
               bounds='every constant temperature, given at construction or at '
               'initialisation')
def temperature(h, cfg):
  from jax_sgmc import scheduler
  its, override = cfg
  tau = h.array('tau', lo=0)
  kw = {}
  if override:
    ts = scheduler.constant_temperature(tau=0.25)
    kw = {'temperature': dict(tau=tau)}
  else:
    ts = scheduler.constant_temperature(tau=tau)
  seq, static = run_schedule(
    scheduler.init_scheduler(temperature=ts, progress_bar=False), its, kw)
  for s in seq:
    h.eq('temperature', s.temperature, val(tau))
  check_defaults(h, seq, static, its, ('step', 'burn', 'thin'))
  d, st = run_schedule(scheduler.init_scheduler(progress_bar=False), its)
  check_defaults(h, d, st, its, ('step', 'temp', 'burn', 'thin'))


@CHECK.harness('burn_in', quick=[[12, 0, 0], [4, 1, 1], [60, 0, 0], [8, 1, 0], [9, 0, 1]],
               thorough=[[20, 0, 0]] + [[8, o, p] for o in (0, 1) for p in (0, 1)],
               bounds='4-60 iterations, every number of burn-in iterations, with and '
               'without progress bar')
def burn_in(h, cfg):
  from jax_sgmc import scheduler
  import contextlib as cl, io as sio
  its, override, bar = cfg
  n = h.array('n', (), 'int', 0, its)
  kw = {}
  if override:
    bs = scheduler.initial_burn_in(n=1)
    kw = {'burn_in': dict(n=n)}
  else:
    bs = scheduler.initial_burn_in(n=n)
  out = sio.StringIO()
  with cl.redirect_stdout(out):
    seq, static = run_schedule(
      scheduler.init_scheduler(burn_in=bs, progress_bar=bool(bar)), its, kw)
  on = val(n)[()]
  total = frac(0)
  for k, s in enumerate(seq):
    kept = val(s.burn_in)[()] != 0
    h.true('discarded iff in burn in', lnot(kept) if k < 0 else
           land(lor(lnot(kept), on <= k), lor(kept, on > k)))
    total = total + val(s.burn_in)[()]
  h.eq('collected samples', static.samples_collected, arr(its - on))
  h.eq('number of kept iterations', static.samples_collected, arr(total))
  check_defaults(h, seq, static, its, ('step', 'temp', 'thin'))


@CHECK.harness('thinning', quick=[[4, 1, 2, 0, 0], [4, 2, 1, 1, 0], [3, 0, 3, 0, 1], [7, 2, 3, 0, 0], [5, 0, 5, 1, 0],
                                  [6, 5, 1, 0, 0], [4, 0, 1, 0, 1]],
               thorough=[[5, b, s, o, p] for b, s in ((0, 2), (2, 3), (3, 1), (0, 5))
                         for o in (0, 1) for p in (0, 1)],
               bounds='3-7 iterations, every outcome of the random selection and every '
               'decaying step size, with and without progress bar')
def thinning(h, cfg):
  from jax_sgmc import scheduler
  import contextlib as cl, io as sio
  its, nb, sel, override, bar = cfg
  out, text = sio.StringIO(), []
  a, b = h.pos('a'), h.pos('b')
  ss = scheduler.polynomial_step_size(a=a, b=b, gamma=1.0)
  bs = scheduler.initial_burn_in(n=nb)
  kw = {}
  if override:
    th = scheduler.random_thinning(ss, bs, selections=1, key=h.key('other'))
    kw = {'thinning': dict(selections=sel, key=h.key('sel'))}
  else:
    th = scheduler.random_thinning(ss, bs, selections=sel, key=h.key('sel'))
  sch = scheduler.init_scheduler(step_size=ss, burn_in=bs, thinning=th,
                                 progress_bar=bool(bar), progress_bar_steps=its)
  h.run.key_log.clear()

  def after(k):
    text.append(out.getvalue())
    out.seek(0)
    out.truncate()
  with cl.redirect_stdout(out):
    seq, static = run_schedule(sch, its, kw, after=after)
  h.eq('collected samples', static.samples_collected, arr(sel))
  total = frac(0)
  for k, s in enumerate(seq):
    acc = val(s.accept)[()] != 0
    if k < nb:
      h.true('nothing selected in burn in', lnot(acc))
      h.true('burn in', val(s.burn_in)[()] == 0)
    total = total + where(land(acc, val(s.burn_in)[()] != 0), frac(1), frac(0))
    if not bar:
      h.same('no report', text[k], '')
    for i, n, c, tot in reports(text[k]):
      h.same('reported iteration', [i, n, tot], [k, its, sel])
      h.eq('reported number of collected samples', arr(total), arr(frac(c)))
  if bar:
    h.true('progress is reported', any(reports(x) for x in text))
  h.eq('exactly the requested number of samples', arr(total), arr(frac(sel)))
  used = {p for op, p, _ in h.run.key_log if op != 'split'}
  h.same('the given key draws the selection', {p[:3] for p in used}, {'sel'})
  # weights of the selection are proportional to the step size after burn-in
  num = SV if h.sym else float
  for w in h.run.weights:
    tot = sum((val(a)[()] / (val(b)[()] + k) for k in range(nb, its)), frac(0))
    sw = sum((num(x) for x in w), frac(0))
    for k in range(its):
      want = val(a)[()] / (val(b)[()] + k) if k >= nb else frac(0)
      h.eq('selection proportional to the step size', arr(num(w[k]) * tot),
           arr(want * sw))


@CHECK.harness('thinning_refused', quick=[[3, 1, 3], [3, 3, 1]],
               thorough=[[4, 2, 3], [4, 4, 1], [5, 0, 6]],
               bounds='more selections than iterations after burn-in')
def thinning_refused(h, cfg):
  from jax_sgmc import scheduler
  its, nb, sel = cfg
  a = h.pos('a')
  ss = scheduler.polynomial_step_size(a=a, b=1.0, gamma=0.0)
  bs = scheduler.initial_burn_in(n=nb)
  th = scheduler.random_thinning(ss, bs, selections=sel, key=h.key('sel'))
  sch = scheduler.init_scheduler(step_size=ss, burn_in=bs, thinning=th,
                                 progress_bar=False)
  h.raises('too many selections', Exception, lambda: sch[0](its))


@CHECK.harness('adaptive', quick=[[2, 'given'], [3, 'init'], [8, 'given'], [3, 'default'], [110, 'long'],
                                  [3, 'integers'], [4, 'jit integers']],
               thorough=[[n, o] for n in (1, 4, 5) for o in ('given', 'init',
                                                             'default')],
               bounds='1-8 iterations, every burn-in length, history of acceptance '
               'ratios, initial step size, target and constants; 110 iterations with '
               'fixed constants')
def adaptive(h, cfg):
  from jax_sgmc import scheduler
  its, how = cfg
  n = h.array('n', (), 'int', 0, its)
  e0 = h.pos('e0')
  t0, kappa, gam = h.pos('t0'), h.pos('kappa'), h.pos('gamma')
  if how == 'long':
    # a long history with fixed constants
    n, t0, kappa, gam = [jnp.array(c) for c in (its - 4, 9.0, 1.0, 0.25)]
  if 'integers' in how:
    # constants without fractional part
    t0, kappa, gam = 9, 1, 2
  target = h.array('target', lo=0, hi=1)
  args = dict(burn_in=n, initial_step_size=e0, stabilization_constant=t0,
              decay_constant=kappa, speed_constant=gam, target_acceptance_rate=target)
  kw = {}
  if how in ('given', 'long', 'integers', 'jit integers'):
    sp = scheduler.adaptive_step_size(**args)
  elif how == 'init':
    sp = scheduler.adaptive_step_size(burn_in=1)
    kw = {'step_size': args}
  else:
    args = dict(burn_in=n)
    sp = scheduler.adaptive_step_size(**args)
    e0, t0, kappa, gam, target = (frac(1, 20), frac(100), frac(3, 4), frac(1, 20),
                                  frac(1, 50))
  acc = [jnp.array(0.25) if how == 'long' and k not in (2, 60, its - 6) else
         h.array(f"acc{k}", lo=0) for k in range(its)]
  seq, _ = run_schedule(
    scheduler.init_scheduler(step_size=sp, progress_bar=False), its, kw,
    stats=lambda k: {'acceptance_ratio': acc[k]}, arrays=how.startswith('jit'))
  sc = lambda x: frac(x) if isinstance(x, int) else \
      val(x)[()] if not isinstance(x, (float, Fraction)) else x
  oe0, ot0, ok, og, ot = sc(e0), sc(t0), sc(kappa), sc(gam), sc(target)
  on = val(n)[()]
  mu, xbar, hbar = log(10 * oe0), log(oe0), frac(0)
  for k in range(its):
    h.eq('dual averaging', seq[k].step_size, arr(exp(xbar)))
    m = k + 1
    hbar = (1 - 1 / (m + ot0)) * hbar + (ot - val(acc[k])[()]) / (m + ot0)
    x = mu - sqrt(frac(m)) / og * hbar
    lr = power(frac(m), -ok)
    xbar = where(on > k, lr * x + (1 - lr) * xbar, xbar)


@CHECK.harness('vectorized', quick=[[4, 1, 1], [3, 0, 1]],
               thorough=[[5, 1, 1], [6, 2, 1], [5, 2, 0]],
               bounds='two schedules evaluated together (replica exchange, vectorised '
               'chains) for 3-6 iterations equal the schedules evaluated alone; with '
               'and without progress report, whose numbers are checked')
def vectorized(h, cfg):
  from jax_sgmc import scheduler, util
  import contextlib as cl, io as sio
  its, nb, bar = cfg
  ss = scheduler.polynomial_step_size(a=h.pos('a'), b=h.pos('b'), gamma=1.0)
  init, update, get = scheduler.init_scheduler(
    step_size=ss, burn_in=scheduler.initial_burn_in(n=nb),
    temperature=scheduler.constant_temperature(tau=h.pos('T0')),
    progress_bar=bool(bar), progress_bar_steps=2)
  T1 = h.pos('T1')
  out = sio.StringIO()
  with cl.redirect_stdout(out):
    states = [init(its)[0], init(its, temperature={'tau': T1})[0]]
    states = [tree_util.tree_map(jnp.asarray, s) for s in states]
    alone = [list(), list()]
    for c in range(2):
      s = states[c]
      for _ in range(its):
        alone[c].append(get(s))
        s = update(s)
    text = len(out.getvalue())
    for k in range(its):
      both = util.list_vmap(get)(*states)
      for c in range(2):
        for f in ('step_size', 'temperature', 'burn_in', 'accept'):
          h.eq(f'{f} of both chains', getattr(both[c], f),
               val(getattr(alone[c][k], f)))
      states = list(util.list_vmap(update)(*states))
  if not bar:
    h.same('no report', out.getvalue(), '')
    return
  lines = out.getvalue()[text:]
  h.true('progress is reported', len(lines) > 0)
  for i, n, c, tot in reports(lines):
    h.same('reported iterations', n, its)
    h.same('reported number of samples', tot, its - nb)
    h.same('reported collected samples', c, max(0, i + 1 - nb))
