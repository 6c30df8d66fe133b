"""P05: requests of several devices are served once per chain and step."""
import warnings as pywarnings

import os
from .common import *
from .p03 import stub_loader, check_batch, content

CHECK = Check('P05', 'Requests')


@CHECK.harness('devices', quick=[[2, 1, 1, 5, 1], [2, 2, 1, 6, 0], [3, 1, 1, 4, 1],
                                 [2, 1, 2, 5, 1], [2, 3, 2, 7, 0], [4, 1, 1, 4, 1]],
               thorough=[[2, 1, 1, 7, v] for v in (0, 1)] + [
                 [3, 1, 1, 5, 1], [4, 1, 1, 5, 0], [2, 2, 1, 8, 1], [2, 3, 2, 7, 0],
                 [3, 2, 1, 6, 1]],
               bounds='2-4 devices with replicated states of one chain drawing in every '
               'order of 4-8 draws, caches of 1-3 batches')
def devices(h, cfg):
  from jax_sgmc import data
  nd, cache, mb, n, strict = cfg
  dl = stub_loader()
  init, get, release = data.random_reference_data(dl, cache, mb,
                                                  verify_calls=bool(strict))
  s0 = init()
  st = [s0] * nd
  pos = [0] * nd
  for k in range(n):
    d = h.pick(f"turn{k}", list(range(nd)))
    st[d], b = get(st[d], information=True, device_count=nd)
    check_batch(h, b, 0, pos[d], mb, 50, 'sym')
    pos[d] += 1
  need = 1 + max(-(-p // cache) - 1 if p else 0 for p in pos)
  h.same('every group of batches is loaded once', len(dl.calls), need)
  release()


@CHECK.harness('rounds', quick=[[2, 1, 6, 1], [3, 1, 5, 1], [3, 2, 4, 0], [4, 1, 5, 1],
                                [2, 5, 6, 1], [3, 3, 4, 1], [4, 2, 4, 1]],
               thorough=[[2, 3, 9, 1], [3, 1, 6, 1], [3, 2, 6, 0], [4, 1, 6, 1],
                         [4, 2, 5, 0], [3, 3, 5, 1]],
               bounds='2-4 devices whose caches are empty request data in '
               'every order of 4-6 requests (thorough 9); draws from the cache, which '
               'are local to the device, follow at once')
def rounds(h, cfg):
  from jax_sgmc import data
  nd, cache, n, strict = cfg
  dl = stub_loader()
  init, get, release = data.random_reference_data(dl, cache, 1,
                                                  verify_calls=bool(strict))
  s0 = init()
  st = [s0] * nd
  pos = [0] * nd

  def turn(d):
    for _ in range(cache):
      st[d], b = get(st[d], information=True, device_count=nd)
      check_batch(h, b, 0, pos[d], 1, 50, 'sym')
      pos[d] += 1
  for d in range(nd):
    turn(d)
  calls = len(dl.calls)
  used = 0
  for k in range(n):
    # the devices are alike: a new one is always the next
    d = h.pick(f"turn{k}", list(range(min(used + 1, nd))))
    used = max(used, d + 1)
    turn(d)
    h.same('every group of batches is loaded once', len(dl.calls) - calls,
           max(pos) // cache - 1)
  release()


@CHECK.harness('many', quick=[[9, 1, 2, 1], [17, 2, 1, 0]],
               thorough=[[19, 1, 2, 1], [9, 3, 3, 1]],
               bounds='9-17 (thorough: 19) devices in 2-4 rounds; in every round but the first they '
               'request in their order, in reverse or the even ones first, and the '
               'first device may start the next round early')
def many(h, cfg):
  from jax_sgmc import data
  nd, cache, n, strict = cfg
  dl = stub_loader()
  init, get, release = data.random_reference_data(dl, cache, 1,
                                                  verify_calls=bool(strict))
  s0 = init()
  st = [s0] * nd
  pos = [0] * nd

  def turn(d):
    for _ in range(cache):
      st[d], b = get(st[d], information=True, device_count=nd)
      check_batch(h, b, 0, pos[d], 1, 50, 'sym')
      pos[d] += 1
  ahead = None
  for k in range(n + 1):
    order = list(range(nd))
    how = h.pick(f'order{k}', ['up', 'down', 'even']) if k else 'up'
    if how == 'down':
      order.reverse()
    elif how == 'even':
      order = order[::2] + order[1::2]
    for d in order:
      if d != ahead:
        turn(d)
    ahead = None
    if k < n and h.pick(f'early{k}', [False, True]):
      ahead = order[0]
      turn(ahead)
    h.same('every group of batches is loaded once', len(dl.calls), max(pos) // cache)
  release()


@CHECK.harness('chains', quick=[[2, 1, 4, 1], [2, 2, 3, 0], [1, 1, 6, 1]],
               thorough=[[2, 1, 4, v] for v in (0, 1)] + [[2, 2, 4, 0], [2, 2, 5, 1]],
               bounds='two chains replicated on two devices each, every order of 3-5 '
               'draws')
def chains(h, cfg):
  from jax_sgmc import data
  nd, cache, n, strict = cfg
  dl = stub_loader()
  init, get, release = data.random_reference_data(dl, cache, 1,
                                                  verify_calls=bool(strict))
  st = []
  for c in range(2):
    st += [init()] * nd
  pos = [0] * (2 * nd)
  for k in range(n):
    i = h.pick(f"turn{k}", list(range(2 * nd)))
    st[i], b = get(st[i], information=True, device_count=nd)
    check_batch(h, b, i // nd, pos[i], 1, 50, 'sym')
    pos[i] += 1
  release()


@CHECK.harness('stale', quick=[[1, 1], [2, 1], [1, 0], [2, 0]],
               thorough=[[c, v] for c in (1, 2, 3) for v in (0, 1)],
               bounds='a state is used again after its chain has loaded 1-2 further '
               'groups of batches: an error (strict) or a warning with new data')
def stale(h, cfg):
  from jax_sgmc import data
  cache, strict = cfg
  dl = stub_loader()
  init, get, release = data.random_reference_data(dl, cache, 1,
                                                  verify_calls=bool(strict))
  s = init()
  for _ in range(cache):
    s, _ = get(s)
  old = s                       # the next draw requests data
  k = h.pick('further', [1, 2])
  for _ in range(k):
    for _ in range(cache):
      s, _ = get(s)
  if strict:
    with pywarnings.catch_warnings():
      pywarnings.simplefilter('ignore')
      try:
        get(old)
      except Exception as e:  # pylint: disable=broad-except
        h.true('reported as invalid request', 'nvalid request' in str(e))
      else:
        h.true('reported as invalid request', False)
    return
  with pywarnings.catch_warnings(record=True) as ws:
    pywarnings.simplefilter('always')
    t, b = get(old, information=True)
    h.true('warned', any('nvalid request' in str(w.message) for w in ws))
  # the chain continues with new data
  check_batch(h, b, 0, (k + 1) * cache, 1, 50, 'sym', ' after an invalid request')
  for j in range(1, 2 * cache + 1):
    t, b = get(t, information=True)
    check_batch(h, b, 0, (k + 1) * cache + j, 1, 50, 'sym', ' after an invalid request')
  release()


@CHECK.harness('pmap', quick=[[2, 1], [2, 2], [3, 1]], thorough=[[n, c] for n in (2, 3)
                                                        for c in (1, 2, 3)],
               bounds='2-3 devices draw in lockstep inside of pmap, caches of 1-3 '
               'batches; the devices request in every order')
def pmapped(h, cfg):
  from jax_sgmc import data
  nd, cache = cfg
  dl = stub_loader()
  init, get, release = data.random_reference_data(dl, cache, 1, verify_calls=True)
  s0 = init()
  s = tree_util.tree_map(lambda a: jnp.stack([jnp.asarray(a)] * nd), s0)
  cnt = [0]

  def order(devs):
    left, out = list(devs), []
    while len(left) > 1:
      cnt[0] += 1
      out.append(left.pop(h.pick(f"order{cnt[0]}", list(range(len(left))))))
    return out + left
  stubs.run().device_order = order
  step = jax.pmap(lambda q: get(q, information=True, device_count=nd))
  for k in range(2 * cache + 1 if nd == 2 else cache + 1):
    s, (b, info) = step(s)
    for d in range(nd):
      w = content(0, k, 1)
      h.eq('content', b['x'][d], w['x'])
      h.eq('content', b['y'][d], w['y'])
  release()


@CHECK.harness('full', quick=[[2, 4, 2, 1, 3], [2, 3, 2, 2, 3], [2, 5, 3, 2, 4]],
               thorough=[[2, n, b, c, 4] for n, b in ((3, 1), (4, 2), (5, 3))
                         for c in (1, 2, 3)],
               bounds='replicated mappings over the full data on two devices in every '
               'order of 3-4 mappings')
def full(h, cfg):
  from jax_sgmc import data
  from .p01 import make_loader, sequence, fvec, first
  nd, N, mb, cache, n = cfg
  dl, ox, oy = make_loader(h, 'host', N)
  init, fmap, release = data.full_reference_data(dl, cached_batches_count=cache,
                                                 mb_size=mb)
  s0 = init()
  st = [s0] * nd
  cs = [h.array(f"c{d}") for d in range(nd)]
  ov = [val(c)[()] for c in cs]
  for k in range(n):
    d = h.pick(f"turn{k}", list(range(nd)))
    carry = cs[d]
    st[d], (res, cs[d]) = fmap(
      lambda b, s: (jax.vmap(lambda o: fvec(o, s))(b), first(b, s)), st[d], carry,
      device_count=nd)
    want, ov[d] = sequence(ox, oy, mb, ov[d])
    h.eq('results', res, arr(np.array(want, dtype=object)))
  release()


class Threaded:
  """Hands get_batches of a stub loader to the main thread."""

  def __init__(self, dl, sched):
    get, reg = dl.get_batches, dl.register_ordered_pipeline
    dl.get_batches = lambda chain_id: sched.on_main(lambda: get(int(chain_id)))
    dl.register_ordered_pipeline = lambda *a, **k: sched.on_main(lambda: reg(*a, **k))


@CHECK.harness('preempt', quick=[[2, 1, 1, 1, 1], [2, 1, 1, 0, 1], [1, 2, 1, 1, 1],
                                 [3, 1, 1, 1, 1]],
               thorough=[[2, 1, 1, 1, 2], [3, 1, 1, 1, 2], [4, 1, 1, 1, 1],
                         [2, 2, 1, 1, 1], [1, 2, 2, 0, 2], [1, 3, 1, 1, 1]],
               max_paths=20000,
               bounds='1-2 chains replicated on 1-3 devices request data at the same '
               'time; the threads of the host callbacks are preempted at every line of '
               'jax_sgmc outside of util, at most once (thorough: twice)')
def preempt(h, cfg):
  from jax_sgmc import data
  from jax_sgmc.data import core
  from vsym import threads, harness
  nd, nc, cache, strict, switches = cfg
  dl = stub_loader(masks='sym')
  sched = threads.Scheduler(h, os.path.join(harness.REPO, 'jax_sgmc'), switches)
  with threads.locks(sched, core):
    init, get, release = data.random_reference_data(dl, cache, 1,
                                                    verify_calls=bool(strict))
    st = [s for s in [init() for _ in range(nc)] for _ in range(nd)]
    for i, s in enumerate(st):
      for _ in range(cache):
        s, _ = get(s, device_count=nd)
      st[i] = s
    Threaded(dl, sched)
    dl.calls.clear()
    draws = [lambda s=s: get(s, information=True, device_count=nd) for s in st]
    progs = [threads.Program(d) for d in draws]
    h.true('data is requested', all(p.pending for p in progs))
    res = sched.run([p.job for p in progs])
    h.true('no deadlock', res != 'deadlock')
    for _, err in res:
      h.same('error', None if err is None else f"{type(err).__name__}: {err}", None)
    h.same('every group of batches is loaded once', sorted(dl.calls), list(range(nc)))
    for i, p in enumerate(progs):
      p.give(res[i][0])
      st[i], b = p.result
      check_batch(h, b, i // nd, cache, 1, 50, 'sym', ' after concurrent requests')
    # the chains continue
    for i in range(len(st)):
      for j in range(cache):
        st[i], b = get(st[i], information=True, device_count=nd)
        check_batch(h, b, i // nd, cache + 1 + j, 1, 50, 'sym', ' afterwards')
    release()


@CHECK.harness('mappings', quick=[[2, 0, 1], [2, 1, 1], [2, 2, 1]],
               thorough=[[2, l, 2] for l in range(4)] + [[3, 0, 1], [3, 1, 1]],
               max_paths=20000,
               bounds='2 devices (thorough 3) map over the full data at the same time '
               'with one mapper, twice; the first is ahead by 0-2 host callbacks (3); '
               'the threads of the host callbacks are preempted at every line of '
               'jax_sgmc, at most once per callback (twice)')
def mappings(h, cfg):
  from jax_sgmc import data
  from jax_sgmc.data import core
  from vsym import threads, harness
  nd, lead, switches = cfg
  dl = stub_loader(N=2, masks=None)
  sched = threads.Scheduler(h, os.path.join(harness.REPO, 'jax_sgmc'), switches)
  with threads.locks(sched, core):
    fmap, release = data.full_data_mapper(dl, 1, 1)
    Threaded(dl, sched)

    def device():
      r, _ = fmap(lambda b, s: (b['y'], s), None)
      return r
    used = []
    for rep in range(2):
      progs = [threads.Program(device) for _ in range(nd)]
      for _ in range(lead):
        progs[0].proceed()
      while any(p.pending for p in progs):
        busy = [p for p in progs if p.pending]
        sched.left = switches
        res = sched.run([p.job for p in busy])
        h.true('no deadlock', res != 'deadlock')
        for p, (r, err) in zip(busy, res):
          h.same('error', None if err is None else f"{type(err).__name__}: {err}",
                 None)
          p.give(r)
      for p in progs:
        # two successive batches of one of the chains, none of another device
        got = val(p.result)
        h.same('number of results', got.shape, (2,))
        same = (lambda x, y: str(x) == str(y)) if h.sym else (
          lambda x, y: abs(float(x) - float(y)) < 1e-4)
        at = [[c, k] for c in range(len(dl.chains)) for k in range(0, dl.chains[c][2], 2)
              if [c, k] not in used and same(got[0], val(content(c, k, 1, None)['y'])[0])]
        h.true('the mapping starts with the first batch of a chain', len(at) == 1)
        (c, k), = at
        used.append([c, k])
        h.eq('the mapping continues with the chain', got[1],
             content(c, k + 1, 1, None)['y'][0])
    release()


@CHECK.harness('tokens', quick=[['new'], ['words']],
               bounds='any two identifiers (122 free bits) or any two arrays of the '
               'machine words which represent an identifier: never confused, unchanged '
               'by the way through a tree')
def tokens(h, cfg):
  import uuid
  from jax_sgmc.util import uuid as module
  kind, = cfg
  x, y = h.bits('x', 128), h.bits('y', 128)
  if h.sym:
    E = bits.bv
  else:
    E = int
    x, y = [v & ~(0xF000 << 64 | 3 << 62) | (0x4000 << 64 | 2 << 62) for v in (x, y)]
  todo = [x, y]

  class New:
    """a UUID of a given number"""

    def __init__(self, v):
      self.int = v
  make = lambda: New(todo.pop(0)) if h.sym else uuid.UUID(int=todo.pop(0))
  random_bits = [] if not h.sym else [
    lambda v=v: bits.bv((v >> 76) & 0xF) == 4 for v in (x, y)] + [
    lambda v=v: bits.bv((v >> 62) & 3) == 2 for v in (x, y)]
  with bits.patched(module, make, h.sym):
    a, b = module.JaxUUID(), module.JaxUUID()
    differ = lambda: E(x) != E(y)
    if kind == 'words':
      # identifiers which come back from the device
      la, ta = tree_util.tree_flatten(a)
      h.same('identifiers are arrays', len(la), 1)
      n = len(la[0])
      wa, wb = [[h.bits(f"{v}{k}", 32) for k in range(n)] for v in 'ab']
      arr_ = (lambda w: bits.Words(w, np.uint32)) if h.sym else (
        lambda w: np.array(w, np.uint32))
      a, b = [tree_util.tree_unflatten(ta, [arr_(w)]) for w in (wa, wb)]
      differ = lambda: (bits.z3.Or if h.sym else lambda *c: any(c))(
        *[E(p) != E(q) for p, q in zip(wa, wb)])
    ua, ub = a.as_uuid.int, b.as_uuid.int
    h.bits_hold('different identifiers', lambda: E(ua) != E(ub), differ, *random_bits)
    again = tree_util.tree_map(lambda l: l, a)
    h.bits_hold('unchanged by the way through a tree',
                lambda: E(again.as_uuid.int) == E(ua))
    if kind == 'new':
      h.bits_hold('same identifier when asked again', lambda: E(a.as_uuid.int) == E(ua))
