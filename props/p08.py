"""P08: saved samples are exactly the kept iterates of each chain, in order."""
import shutil
import tempfile
from collections import namedtuple, OrderedDict
from pathlib import Path

from .common import *

CHECK = Check('P08', 'Saving')

Layer = namedtuple('Layer', ['weight', 'bias'])

# sample structure: (tree of (shape, kind), stored name of each leaf in tree order)
TREES = {
  'flat': ({'variables': {'w': ((2,), 'real'), 'b': ((), 'real')}},
           ['variables/b', 'variables/w']),
  'mixed': ({'variables': {'w': ((2, 1), 'real')}, 'step': ((), 'int'),
             'ok': ((2,), 'bool')}, ['ok', 'step', 'variables/w']),
  'nested': ({'variables': [Layer(((2,), 'real'), ((), 'real')), (((), 'int'),)],
              'likelihood': ((), 'real')},
             ['likelihood', 'variables/list_element_0/weight',
              'variables/list_element_0/bias',
              'variables/list_element_1/list_element_0']),
  'long': ({'variables': [((), 'real')] * 12},
           [f'variables/list_element_{k}' for k in range(12)]),
  'ones': ({'variables': {'a': ((1,), 'real'), 'b': ((1, 1), 'int'),
                          'c': ((1, 2), 'bool'), 'd': ((), 'real')}},
           ['variables/a', 'variables/b', 'variables/c', 'variables/d']),
  'ordered': (OrderedDict([('z', ((), 'real')), ('a', ((), 'real'))]), ['z', 'a']),
}


def is_spec(s):
  return isinstance(s, tuple) and len(s) == 2 and isinstance(s[0], tuple) \
      and isinstance(s[1], str)


def sample_tree(h, tag, spec):
  ls, td = tree_util.tree_flatten(TREES[spec][0], is_leaf=is_spec)
  return tree_util.tree_unflatten(td, [
    h.array(f"{tag}.{k}", s, kind, *((-9, 9) if kind == 'int' else ()))
    for k, (s, kind) in enumerate(ls)])


class Deadlock(Exception):
  pass


class Threads:
  """threading as seen by the collectors: the host callbacks form one thread."""

  def __init__(self, h):
    self.h, self.depth, self.expired, self.timed = h, 0, 0, 0
    self.queue = stubs.run().tap_queue = []
    self.waiting = None
    self.on_resume = lambda: None

  def step(self):
    cb = self.queue.pop(0)
    self.depth += 1
    try:
      cb()
    finally:
      self.depth -= 1

  def wait_for(self, cond, timeout=None):
    if timeout is not None and timeout >= 0 and not cond() and self.expired < 1 \
        and self.h.pick(f'time is up {self.timed}', [0, 1]):
      # the callbacks take longer than that
      self.expired += 1
      return False
    self.timed += 1
    while not cond():
      if self.depth or not self.queue:
        raise Deadlock("waits for a callback which never runs")
      self.waiting = cond
      self.step()
    self.waiting = None
    return True

  def freed(self):
    # the waiting thread can continue at once, before the callback ends
    if self.waiting is not None and self.depth and self.waiting():
      self.waiting = None
      self.on_resume()

  def namespace(self):
    outer = self

    class Guard:
      def __enter__(self):
        return self.acquire()

      def __exit__(self, *a):
        self.release()

    class Semaphore(Guard):
      limit = None

      def __init__(self, value=1):
        self._n = self._start = value

      def acquire(self, blocking=True, timeout=None):
        if not blocking and self._n == 0:
          return False
        ok = outer.wait_for(lambda: self._n > 0, timeout)
        self._n -= ok
        return ok

      def release(self, n=1):
        if self.limit and self._n + n > self._start:
          raise ValueError('released too many times')
        self._n += n
        outer.freed()

    class BoundedSemaphore(Semaphore):
      limit = True

    class Lock(Guard):
      def __init__(self):
        self._held = False

      def acquire(self, blocking=True, timeout=-1):
        if not blocking and self._held:
          return False
        ok = outer.wait_for(lambda: not self._held, timeout)
        self._held = self._held or ok
        return ok

      def release(self):
        if not self._held:
          raise RuntimeError('release unlocked lock')
        self._held = False
        outer.freed()

      def locked(self):
        return self._held

    class RLock(Guard):
      def __init__(self):
        self._owner, self._n = None, 0

      def acquire(self, blocking=True, timeout=-1):
        me = outer.depth > 0
        free = lambda: self._n == 0 or self._owner == me
        if not blocking and not free():
          return False
        ok = outer.wait_for(free, timeout)
        if ok:
          self._owner, self._n = me, self._n + 1
        return ok

      def release(self):
        if not self._n or self._owner != (outer.depth > 0):
          raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        outer.freed()

    class Condition:
      def __init__(self, lock=None):
        self._lock = lock or RLock()
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._asleep = []

      def __enter__(self):
        return self.acquire()

      def __exit__(self, *a):
        self.release()

      def _free(self):
        return not (self._lock._n if hasattr(self._lock, '_n') else self._lock._held)

      def wait(self, timeout=None):
        ticket = object()
        self._asleep.append(ticket)
        n = 0
        while not self._free():
          self.release()
          n += 1
        ok = outer.wait_for(lambda: ticket not in self._asleep and self._free(), timeout)
        for _ in range(n):
          self.acquire()
        return ok

      def wait_for(self, predicate, timeout=None):
        while not predicate():
          if not self.wait(timeout):
            break
        return predicate()

      def notify(self, n=1):
        del self._asleep[:n]
        outer.freed()

      def notify_all(self):
        self.notify(len(self._asleep))

    class Event:
      def __init__(self):
        self._set = False

      def set(self):
        self._set = True
        outer.freed()

      def clear(self):
        self._set = False

      def is_set(self):
        return self._set
      isSet = is_set

      def wait(self, timeout=None):
        return outer.wait_for(lambda: self._set, timeout)

    class NS:
      def __getattr__(self, name):
        raise Unsupported(f"threading.{name}")
    ns = NS()
    ns.Lock, ns.RLock, ns.Event, ns.Condition = Lock, RLock, Event, Condition
    ns.Semaphore, ns.BoundedSemaphore = Semaphore, BoundedSemaphore
    return ns


class StubFile:
  """h5py.File: named datasets of fixed shape and type."""

  def __init__(self):
    self.sets = {}

  def create_dataset(self, name, shape=None, dtype=None, **kw):
    name = '/' + name.strip('/')
    if name in self.sets:
      raise ValueError("Unable to create dataset (name already exists)")
    self.sets[name] = stubs.buffer(shape, dtype)
    return self.sets[name]

  def __getitem__(self, name):
    return self.sets['/' + name.strip('/')]

  def __contains__(self, name):
    return '/' + name.strip('/') in self.sets


class World:
  """A saving backend in a scratch directory with recorded files."""

  def __init__(self, h, backend, freq=0):
    from jax_sgmc import io
    self.h, self.io, self.backend = h, io, backend
    self.dir = tempfile.mkdtemp(prefix='verif_p08_')
    self.saved = [(k, getattr(io, k)) for k in ('threading', 'ujson', 'h5py')]
    self.savez = getattr(io.onp, 'savez')
    self.files, self.dc = {}, None
    self.threads = None
    self.freq = freq

  def __enter__(self):
    io = self.io
    self.threads = Threads(self.h)
    io.threading = self.threads.namespace()
    world = self

    class J:
      @staticmethod
      def dump(obj, fp, **kw):
        world.files[Path(fp.name).name] = obj
    io.ujson = J
    self.np_old = io.onp

    class NP(stubs.NPShim):
      def _alloc(self, f, a, k, kw):
        dt = kw.get('dtype', k[0] if k else np.float64)
        return stubs.buffer(a, dt, 1 if f is np.ones else 0)

      def savez(self, path, *args, **arrays):
        if not Path(path).parent.is_dir() or Path(path).is_dir():
          raise OSError(f'cannot write {path}')
        world.files[Path(path).name] = {k: np.array(v, dtype=object)
                                        for k, v in arrays.items()}
      savez_compressed = savez
    io.onp = NP(np)
    b = self.backend
    if b == 'no_save':
      self.saving = io.no_save()
    else:
      self.file = StubFile()
      self.dc = {'memory': lambda: io.MemoryCollector(),
                 # the directory is made by the collector
                 'npz': lambda: io.MemoryCollector(self.dir + '/samples'),
                 'hdf5': lambda: io.HDF5Collector(self.file),
                 'json': lambda: io.JSONCollector(self.dir, self.freq)}[b]()
      self.saving = io.save(self.dc)
    return self

  def __exit__(self, *a):
    for k, v in self.saved:
      setattr(self.io, k, v)
    self.io.onp = self.np_old
    stubs.run().tap_queue = None
    shutil.rmtree(self.dir, ignore_errors=True)

  def drain(self, k=None):
    while self.threads.queue and (k is None or k > 0):
      self.threads.step()
      k = None if k is None else k - 1

  def check(self, label, chain, result, kept, spec, rows):
    """The backend holds exactly the kept samples of the chain."""
    h = self.h
    if isinstance(result, Deadlock):
      h.true(f'{label}: {result}', False)
    if result is not None:
      h.eq(label + ' count', result['sample_count'], arr(frac(len(kept))))
    names = TREES[spec][1]
    kl = [[val(x) for x in tree_util.tree_leaves(s)] for s in kept]

    def stack(j):
      return np.stack([s[j] for s in kl]) if kl else None
    like = tree_util.tree_leaves(TREES[spec][0], is_leaf=is_spec)

    def compare(tag, j, got):
      shape, kind = like[j]
      if hasattr(got, 'dtype') and self.backend != 'json':
        dk = np.dtype(got.dtype).kind
        h.same(label + ' type', dk if dk != 'O' else None,
               {'real': 'f', 'int': 'i', 'bool': 'b'}[kind] if dk != 'O' else None)
      h.same(label + ' shape', np.shape(got), (rows,) + tuple(shape))
      if kl:
        h.eq(label + tag, val(got)[:len(kl)], stack(j))
    if self.backend in ('no_save', 'memory', 'npz') and result is not None:
      got = result['samples']
      want = tree_util.tree_structure(TREES[spec][0], is_leaf=is_spec)
      h.same(label + ' structure', str(tree_util.tree_structure(got)), str(want))
      for j, x in enumerate(tree_util.tree_leaves(got)):
        compare(' samples', j, x)
    if self.backend == 'npz':
      h.true(label + ' file written', f"chain_{chain}.npz" in self.files)
      f = self.files[f"chain_{chain}.npz"]
      h.same(label + ' file names', sorted(f), sorted(names))
      for j, n in enumerate(names):
        compare(' file', j, f[n])
    if self.backend == 'hdf5':
      mine = [n for n in self.file.sets if n.startswith(f'/chain~{chain}/')]
      h.same(label + ' file names', sorted(mine),
             sorted(f'/chain~{chain}/{n}' for n in names))
      for j, n in enumerate(names):
        compare(' file', j, self.file[f'/chain~{chain}/{n}'])
    if self.backend == 'json':
      mine = {k: v for k, v in self.files.items() if k.startswith(f'chain_{chain}_')}
      want = set()
      if self.freq:
        want |= {k for k in range(self.freq, len(kept) + 1, self.freq)}
      if kept:
        want.add(len(kept))
      h.same(label + ' files', sorted(mine),
             sorted(f'chain_{chain}_iteration_{k}.json' for k in want))
      for k in want:
        f = mine[f'chain_{chain}_iteration_{k}.json']
        h.same(label + ' number of leaves', len(f), len(names))
        for j, x in enumerate(f):
          h.eq(label + ' file', arr(x), stack(j)[:k])


def finish(w, post, state):
  try:
    return post(state, None)
  except Deadlock as e:
    return e


ALL = ['no_save', 'memory', 'npz', 'hdf5', 'json']


@CHECK.harness('single', quick=[[b, s, 3] for b, s in zip(
    ALL * 2, ['flat', 'mixed', 'nested', 'nested', 'flat',
              'nested', 'long', 'long', 'mixed', 'mixed'])] + [
                ['hdf5', 'ordered', 2], ['npz', 'ordered', 2]] + [
                  [b, 'ones', 2] for b in ALL] + [
                  [b, s, 4] for b, s in zip(ALL, ('mixed', 'flat', 'flat', 'mixed', 'flat'))],
    thorough=[[b, s, 4] for b in ALL for s in ('flat', 'mixed', 'nested')] + [
      [b, s, 2] for b in ALL for s in ('long', 'ordered', 'ones')],
    bounds='one chain, every sequence of 2-4 samples and keep-decisions, host '
    'callbacks delayed arbitrarily, six sample structures, all backends')
def single(h, cfg):
  from jax_sgmc import scheduler
  backend, spec, n = cfg
  samples = [sample_tree(h, f"s{k}", spec) for k in range(n)]
  keeps = [h.array(f"keep{k}", (), 'bool') for k in range(n)]
  kept = [s for s, k in zip(samples, keeps) if h.fork(val(k)[()])]
  rows = max(1, len(kept) + h.pick('unused rows', [0, 1]))
  freq = h.pick('frequency', [0, 1, 2]) if backend == 'json' else 0
  with World(h, backend, freq) as w:
    init, save, post = w.saving
    state = init(samples[0], {}, scheduler.static_information(samples_collected=rows))
    for k in range(n):
      state, _ = save(state, keeps[k], samples[k], scheduler_state=None,
                      solver_state=None)
      w.drain(h.pick(f"run{k}", [0, 1]) if w.threads.queue else 0)
    if backend in ('npz', 'hdf5', 'memory'):
      w.threads.on_resume = lambda: w.check('at return', 0, None, kept, spec, rows)
    res = finish(w, post, state)
    if backend == 'json':
      w.drain()
    w.check('saved', 0, res, kept, spec, rows)


@CHECK.harness('many', quick=[[b, 'flat', 140, 90, 7] for b in ALL] +
               [['hdf5', 'mixed', 70, 0, 0], ['json', 'flat', 120, 50, 50],
                ['json', 'mixed', 70, 0, 0], ['npz', 'mixed', 70, 60, 0],
                ['no_save', 'mixed', 70, 60, 0], ['no_save', 'flat', 130, 5, 0],
                ['memory', 'flat', 130, 5, 0], ['hdf5', 'flat', 130, 5, 0]],
               thorough=[[b, 'mixed', 300, 100, 30] for b in ALL],
               bounds='one chain with 70-140 (thorough: 300) arbitrary samples of which '
               'the first ones are burn-in and two more may be dropped; host callbacks '
               'run after every tenth sample')
def many(h, cfg):
  from jax_sgmc import scheduler
  backend, spec, n, burn, freq = cfg
  if backend != 'json':
    freq = 0
  kept, drop = [], {burn: h.array('first', (), 'bool'), n - 1: h.array('last', (), 'bool')}
  with World(h, backend, freq) as w:
    init, save, post = w.saving
    state, rows = None, n - burn
    for k in range(n):
      s = sample_tree(h, f"s{k}", spec)
      keep = drop[k] if k in drop else k >= burn
      if state is None:
        state = init(s, {}, scheduler.static_information(samples_collected=rows))
      if h.fork(val(keep)[()]) if k in drop else keep:
        kept.append(s)
      state, _ = save(state, keep if k in drop else jnp.array(keep), s)
      if k % 10 == 9:
        w.drain()
    res = finish(w, post, state)
    if backend == 'json':
      w.drain()
    w.check('saved', 0, res, kept, spec, rows)


@CHECK.harness('chains', quick=[[b, 2, 4] for b in ALL] + [['memory', 3, 4], ['json', 3, 4], ['hdf5', 3, 3],
                                                         ['npz', 2, 5]],
               thorough=[[b, 2, 5] for b in ALL] + [[b, 3, 4] for b in ALL],
               bounds='2-3 chains of different structure saving in every '
               'interleaving of 4-5 steps, host callbacks delayed arbitrarily')
def chains(h, cfg):
  from jax_sgmc import scheduler
  backend, nc, n = cfg
  specs = ['flat', 'mixed', 'flat'][:nc]
  with World(h, backend) as w:
    init, save, post = w.saving
    first = [sample_tree(h, f"i{c}", specs[c]) for c in range(nc)]
    st = [init(first[c], {}, scheduler.static_information(samples_collected=n))
          for c in range(nc)]
    kept = [[] for _ in range(nc)]
    for k in range(n):
      c = h.pick(f"turn{k}", list(range(nc)))
      s = sample_tree(h, f"s{k}.{c}", specs[c])
      st[c], _ = save(st[c], True, s)
      kept[c].append(s)
      if k == n // 2:
        w.drain(h.pick("run", [0, 1]))
    done = list(range(nc))
    if h.pick('finish last first', [0, 1]):
      done.reverse()
    for c in done:
      res = finish(w, post, st[c])
      if backend == 'json':
        w.drain()
      w.check('chain', c, res, kept[c], specs[c], n)
    for c in done:
      w.check('chain after all have finished', c, None, kept[c], specs[c], n)


def stub_solver(h, cfg_two=False):
  """solver with state {x, i}; update is any function of state and schedules"""
  def update(state, *schedules):
    args = [state['x']]
    for s in schedules:
      args += [s.step_size, s.temperature]
    new = {'x': stubs.UF('next', *args, shape=(2,)), 'i': state['i'] + 1}
    return new, {'acceptance_ratio': stubs.UF('acc', *args)}

  def get(state):
    return {'variables': {'x': state['x']}, 'i': state['i']}
  return None, update, get


def oracle_chain(x0, n, steps):
  """steps(k, acc history) -> flat list of schedule values"""
  x, acc, out, ks = x0, [], [], []
  for k in range(n):
    s = steps(k, acc)
    out.append(ufv('next', *x, *s, shape=(2,)))
    acc.append(ufv('acc', *x, *s))
    x = out[-1]
  return out, acc


@CHECK.harness('mcmc', quick=[['map', 'none', 2, 3, 0], ['map', 'memory', 2, 3, 0],
                              ['map', 'hdf5', 2, 3, 1], ['pmap', 'none', 2, 3, 0],
                              ['pmap', 'npz', 2, 3, 1], ['vmap', 'none', 2, 3, 1],
                              ['vmap', 'memory', 2, 3, 0],
                              ['map', 'json', 1, 3, 1], ['map', 'none', 3, 4, 1],
                              ['vmap', 'npz', 3, 4, 1], ['pmap', 'memory', 3, 3, 0],
                              ['pmap', 'none', 1, 3, 0], ['vmap', 'memory', 1, 3, 1],
                              ['vmap', 'memory', 10, 1, 0], ['map', 'hdf5', 11, 1, 0],
                              ['vmap', 'none', 10, 1, 0]],
               thorough=[[s, b, c, 4, t] for s, b, c in (
                 ('map', 'none', 3), ('map', 'memory', 2), ('map', 'npz', 3),
                 ('map', 'hdf5', 2), ('map', 'json', 2), ('pmap', 'none', 3),
                 ('pmap', 'memory', 3), ('pmap', 'hdf5', 2), ('vmap', 'none', 3),
                 ('vmap', 'npz', 3), ('vmap', 'hdf5', 2))
                         for t in (0, 1)],
               bounds='complete runs of 1-3 chains with 3-4 iterations (10-11 chains with one '
               'iteration), any solver, '
               'initial states, number of burn-in iterations and random thinning, '
               'constant or adaptive step size, sequential, parallel and vectorised')
def mcmc(h, cfg):
  from jax_sgmc import solver, scheduler
  strategy, backend, nc, its, thin = cfg
  a, tau = h.pos('a'), h.pos('tau')
  nb = h.pick('burn in', [0, 1, 2][:its + 1])
  bs = scheduler.initial_burn_in(n=nb)
  adaptive = not thin and h.pick('adaptive', [0, 1])
  if adaptive:
    ss = scheduler.adaptive_step_size(
      burn_in=2, initial_step_size=a, target_acceptance_rate=0.25,
      decay_constant=1.0, speed_constant=1.0, stabilization_constant=1)
  else:
    ss = scheduler.polynomial_step_size(a=a, b=1.0, gamma=1.0)
  th = None
  if thin:
    th = scheduler.random_thinning(ss, bs, selections=1, key=h.key('sel'))
  sch = scheduler.init_scheduler(
    step_size=ss, temperature=scheduler.constant_temperature(tau), burn_in=bs,
    thinning=th, progress_bar=False)
  x0 = [h.array(f"x{c}", (2,)) for c in range(nc)]
  with World(h, backend if backend != 'none' else 'no_save') as w:
    run = solver.mcmc(stub_solver(h), sch, strategy=strategy,
                      saving=None if backend == 'none' else w.saving)
    states = [{'x': x, 'i': jnp.asarray(0)} for x in x0]
    TREES['mcmc'] = ({'variables': {'x': ((2,), 'real')}, 'i': ((), 'int')},
                     ['i', 'variables/x'])
    try:
      res = run(*states, iterations=its)
    except Deadlock as e:
      h.true(f'run: {e}', False)
    w.drain()
    h.same('one result per chain', len(res), nc)
    for c in range(nc):
      oa = val(a)[()]
      xbar, hbar = [log(oa)], [frac(0)]

      def steps(k, acc):
        if not adaptive:
          return [oa / (1 + k), val(tau)[()]]
        if k:
          m = frac(k)
          hb = (1 - 1 / (m + 1)) * hbar[-1] + (frac(1, 4) - acc[k - 1]) / (m + 1)
          hbar.append(hb)
          x = log(10 * oa) - sqrt(m) * hb
          xbar.append(x / m + (1 - 1 / m) * xbar[-1] if k <= 2 else xbar[-1])
        return [exp(xbar[-1]), val(tau)[()]]
      xs, _ = oracle_chain(list(val(x0[c])), its, steps)
      if thin:
        # the selected iteration is symbolic
        name = next(k for k in (h.run.draws if h.sym else h.run.used)
                    if k.startswith('choice[sel'))
        idx = int(h.scalar(name, 'int', 0, its - 1) if h.sym else h.run.used[name])
        kept = [idx]
        h.true('selected after burn in', idx >= nb)
      else:
        kept = list(range(nb, its))
      rows = len(kept)
      want = [{'variables': {'x': xs[k]}, 'i': arr(k + 1)} for k in kept]
      w.check('chain', c, res[c], want, 'mcmc', rows)


@CHECK.harness('again', quick=[['map', b] for b in ('none', 'memory', 'hdf5', 'npz', 'json')] +
               [['vmap', 'memory'], ['vmap', 'none'], ['pmap', 'hdf5'], ['pmap', 'npz']],
               bounds='three runs of one sampler with the same saving backend: two '
               'chains, one chain, three chains, with different numbers of iterations; '
               'the results of earlier runs stay as they were')
def again(h, cfg):
  from jax_sgmc import solver, scheduler
  strategy, backend = cfg
  a, tau = h.pos('a'), h.pos('tau')
  sch = scheduler.init_scheduler(
    step_size=scheduler.polynomial_step_size(a=a, b=1.0, gamma=1.0),
    temperature=scheduler.constant_temperature(tau),
    burn_in=scheduler.initial_burn_in(n=1), progress_bar=False)
  TREES['mcmc'] = ({'variables': {'x': ((2,), 'real')}, 'i': ((), 'int')},
                   ['i', 'variables/x'])
  with World(h, backend if backend != 'none' else 'no_save') as w:
    run = solver.mcmc(stub_solver(h), sch, strategy=strategy,
                      saving=None if backend == 'none' else w.saving)
    done = []
    for r, (nc, its) in enumerate(((2, 3), (1, 2), (3, 3))):
      x0 = [h.array(f"x{r}.{c}", (2,)) for c in range(nc)]
      try:
        res = run(*[{'x': x, 'i': jnp.asarray(0)} for x in x0], iterations=its)
      except Deadlock as e:
        h.true(f'run: {e}', False)
      w.drain()
      h.same('one result per chain', len(res), nc)
      done += [(x, o, its) for x, o in zip(x0, res)]
    oa = val(a)[()]
    for c, (x, res, its) in enumerate(done):
      xs, _ = oracle_chain(list(val(x)), its, lambda k, acc: [oa / (1 + k), val(tau)[()]])
      want = [{'variables': {'x': xs[k]}, 'i': arr(k + 1)} for k in range(1, its)]
      w.check('chain', c, res, want, 'mcmc', its - 1)


@CHECK.harness('schedulers', quick=[['none'], ['memory']],
               bounds='a solver with two schedules; the second has its own '
               'temperature; burn-in of the first decides which samples are kept')
def schedulers(h, cfg):
  from jax_sgmc import solver, scheduler
  a, tau, hot = h.pos('a'), h.pos('tau'), h.pos('hot')
  its = 3
  nb, nb2 = h.pick('burn in', [0, 1]), h.pick('burn in of the second', [0, 2])
  sch = scheduler.init_scheduler(
    step_size=scheduler.polynomial_step_size(a=a, b=1.0, gamma=1.0),
    temperature=scheduler.constant_temperature(tau),
    burn_in=scheduler.initial_burn_in(n=nb), progress_bar=False)
  TREES['mcmc'] = ({'variables': {'x': ((2,), 'real')}, 'i': ((), 'int')},
                   ['i', 'variables/x'])
  x0 = h.array('x', (2,))
  with World(h, 'no_save' if cfg[0] == 'none' else cfg[0]) as w:
    run = solver.mcmc(stub_solver(h), sch,
                      saving=None if cfg[0] == 'none' else w.saving)
    res = run({'x': x0, 'i': jnp.asarray(0)}, iterations=its,
              schedulers=[{'temperature': {'tau': hot}, 'burn_in': {'n': nb2}}])
    oa = val(a)[()]
    xs, _ = oracle_chain(list(val(x0)), its, lambda k, acc: [
      oa / (1 + k), val(tau)[()], oa / (1 + k), val(hot)[()]])
    want = [{'variables': {'x': xs[k]}, 'i': arr(k + 1)} for k in range(nb, its)]
    w.check('chain', 0, res[0], want, 'mcmc', its - nb)


@CHECK.harness('vectorised_host', quick=[['memory'], ['hdf5'], ['npz'], ['json']],
               thorough=[[b] for b in ALL],
               bounds='saving on the host from vectorised chains')
def vectorised_host(h, cfg):
  from jax_sgmc import scheduler
  from jax_sgmc.util import list_vmap
  backend, = cfg
  n = 2
  with World(h, backend) as w:
    init, save, post = w.saving
    samples = [[sample_tree(h, f"s{k}.{c}", 'flat') for k in range(n)]
               for c in range(2)]
    keeps = [[h.array(f"keep{k}.{c}", (), 'bool') for k in range(n)]
             for c in range(2)]
    kept = [[s for s, k in zip(samples[c], keeps[c]) if h.fork(val(k)[()])]
            for c in range(2)]
    st = [init(samples[c][0], {}, scheduler.static_information(samples_collected=n))
          for c in range(2)]

    def step(args):
      return save(*args)[0]
    for k in range(n):
      st = list_vmap(step)(*[(st[c], keeps[c][k], samples[c][k]) for c in range(2)])
    for c in range(2):
      res = finish(w, post, st[c])
      if backend == 'json':          # does not wait
        w.drain()
      w.check('chain', c, res, kept[c], 'flat', n)
