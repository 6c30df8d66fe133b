"""P04: checkpoints of data loader chains."""
import copy
import pickle

from .common import *
from .p02 import id_loader

CHECK = Check('P04', 'Data loader checkpoints')

MODES = {'draw': {}, 'shuffle': dict(shuffle=True),
         'epochs': dict(shuffle=True, in_epochs=True)}


def register(dl, mode, cache, mb, seed):
  if mode == 'ordered':
    return dl.register_ordered_pipeline(cache, mb_size=mb)
  return dl.register_random_pipeline(cache, mb_size=mb, seed=seed, **MODES[mode])


def compare(h, label, got, want):
  for (b, m), (wb, wm) in zip(got, want):
    h.eq(label, b['id'], val(wb['id']))
    h.eq(label, b['x'], val(wb['x']))
    h.eq(label + ' (mask)', m, val(wm))


# mode, N, mb, cache, batches before, batches after
Q = [[m, n, b, c, k, 4] for m, n, b, c in (
  ('draw', 3, 2, 1), ('shuffle', 3, 2, 1), ('shuffle', 4, 3, 1), ('epochs', 3, 2, 1),
  ('epochs', 5, 2, 2), ('ordered', 5, 2, 2), ('ordered', 3, 2, 1)) for k in (0, 1, 2, 3)]
# one observation per batch, all observations in one batch, long streams
Q += [[m, n, b, c, k, a] for m in ('draw', 'shuffle', 'epochs', 'ordered')
      for n, b, c, a in ((3, 1, 1, 6), (2, 1, 3, 3), (1, 1, 1, 3), (3, 3, 1, 3))
      for k in (1, 2)]
Q += [['draw', 6, 4, 2, 2, 5], ['shuffle', 6, 2, 2, 3, 5], ['epochs', 6, 4, 2, 3, 5],
      ['ordered', 40, 7, 3, 5, 9], ['ordered', 11, 1, 5, 3, 6],
      ['ordered', 300, 13, 5, 4, 2], ['draw', 300, 2, 1, 1, 2]]
T = [[m, n, b, c, k, 5] for m in ('draw', 'shuffle', 'epochs', 'ordered')
     for n in range(1, 6) for b in range(1, n + 1) for c in (1, 2) for k in range(5)]


@CHECK.harness('restore', quick=Q, thorough=T,
               bounds='checkpoint after 0-5 cached groups of batches of datasets of 1-6 '
               'rows (some: 40, 300), every permutation or draw; the original chain continues before '
               'the restore; restored twice into the chain and into a new loader with '
               'a different history and seed')
def restore(h, cfg):
  mode, N, mb, cache, before, after = cfg
  dl, _ = id_loader(h, 'host', N)
  c = register(dl, mode, cache, mb, 3)
  o = register(dl, mode, cache, mb, 4)
  for _ in range(before):
    dl.get_batches(c)
  dl.get_batches(o)
  ck = dl.save_state(c)
  backup = pickle.loads(pickle.dumps(ck)) if not h.sym else copy.deepcopy(ck)
  want = [dl.get_batches(c) for _ in range(after)]
  other = dl.save_state(o)
  # an uninterrupted chain with the same seed delivers the same stream
  ref, _ = id_loader(h, 'host', N)
  rc = register(ref, mode, cache, mb, 3)
  full = [ref.get_batches(rc) for _ in range(before + after)]
  compare(h, 'taking a checkpoint does not change the chain', want, full[before:])
  # restore in place, twice
  for k in range(2):
    dl.load_state(c, ck)
    compare(h, f"restored in place ({k})", [dl.get_batches(c) for _ in range(after)],
            want)
  # restore into a new loader
  new, _ = id_loader(h, 'host', N)
  nc = register(new, mode, cache, mb, 9)
  new.get_batches(nc)
  new.load_state(nc, ck)
  compare(h, 'restored in a new loader', [new.get_batches(nc) for _ in range(after)],
          want)
  new.load_state(nc, backup)
  compare(h, 'restored from a stored copy', [new.get_batches(nc)
                                             for _ in range(after)], want)
  # the other chain is not affected
  oref, _ = id_loader(h, 'host', N)
  oc = register(oref, mode, cache, mb, 4)
  stream = [oref.get_batches(oc) for _ in range(3)]
  compare(h, 'other chains are not affected', [dl.get_batches(o) for _ in range(2)],
          stream[1:])
  dl.load_state(o, other)
  compare(h, 'second checkpoint', [dl.get_batches(o) for _ in range(2)], stream[1:])


@CHECK.harness('recheckpoint', quick=[['shuffle', 3, 2, 1], ['epochs', 3, 2, 1],
                                      ['draw', 3, 2, 1], ['ordered', 3, 2, 1]],
               thorough=[[m, n, b, c] for m in ('draw', 'shuffle', 'epochs', 'ordered')
                         for n, b in ((2, 1), (3, 2), (4, 3), (5, 2)) for c in (1, 2)],
               bounds='crash and restore at every position of the stream, checkpoint of '
               'the restored chain, restored again')
def recheckpoint(h, cfg):
  mode, N, mb, cache = cfg
  dl, _ = id_loader(h, 'host', N)
  c = register(dl, mode, cache, mb, 3)
  ref = [dl.get_batches(c) for _ in range(6)]
  live, _ = id_loader(h, 'host', N)
  c = register(live, mode, cache, mb, 3)
  for k in range(5):
    ck = live.save_state(c)
    got = live.get_batches(c)
    compare(h, 'stream', [got], [ref[k]])
    if h.fork(h.scalar(f"crash{k}", 'bool')):
      live, _ = id_loader(h, 'host', N)
      c = register(live, mode, cache, mb, 20 + k)
      live.load_state(c, ck)
      compare(h, 'stream after the restore', [live.get_batches(c)], [ref[k]])
