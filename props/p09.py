"""P09: trees survive the conversion to named dictionaries."""
from collections import namedtuple, OrderedDict, defaultdict

from .common import *

CHECK = Check('P09', 'Trees as dictionaries')

Pair = namedtuple('Pair', ['weight', 'bias'])
Single = namedtuple('Single', ['only'])
Triple = namedtuple('Triple', ['mu', 'alpha', 'z'])


@tree_util.register_pytree_node_class
class Plain:
  """A node without dictionize rule."""

  def __init__(self, *children):
    self.children = children

  def tree_flatten(self):
    return self.children, None

  @classmethod
  def tree_unflatten(cls, _, children):
    return cls(*children)


@tree_util.register_pytree_node_class
class Ruled(Plain):
  """A node with a registered rule."""


def register(io):
  if Ruled not in io._dictionize_rules:
    @io.register_dictionize_rule(Ruled)
    def _(node):
      return [(f"part~{9 - k}", c) for k, c in enumerate(node.children)]


# kind -> (number of children, constructor, names of the children)
KINDS = {
  'dict': (2, lambda c: {'b': c[0], 'a': c[1]}, ['b', 'a']),
  'dict3': (3, lambda c: {'k10': c[0], 'k9': c[1], 'K': c[2]}, ['k10', 'k9', 'K']),
  'odict': (2, lambda c: OrderedDict([('z', c[0]), ('c', c[1])]), ['z', 'c']),
  'list': (2, list, ['list_element_0', 'list_element_1']),
  'list1': (1, list, ['list_element_0']),
  'tuple': (2, tuple, ['list_element_0', 'list_element_1']),
  'pair': (2, lambda c: Pair(*c), ['weight', 'bias']),
  'triple': (3, lambda c: Triple(*c), ['mu', 'alpha', 'z']),
  'single': (1, lambda c: Single(*c), ['only']),
  'empty_list': (0, lambda c: [], []),
  'empty_dict': (0, lambda c: {}, []),
  'empty_tuple': (0, lambda c: (), []),
  'none': (0, lambda c: None, []),
  'ruled': (2, lambda c: Ruled(*c), ['part~9', 'part~8']),
  'separators': (3, lambda c: {'a/b': c[0], 'a~b': c[1], 'a.b': c[2]},
                 ['a/b', 'a~b', 'a.b']),
  'modules': (2, lambda c: {'mlp/~/linear_1': c[0], 'mlp/~/linear_0': c[1]},
              ['mlp/~/linear_1', 'mlp/~/linear_0']),
  'cases': (2, lambda c: {'W': c[0], 'w': c[1]}, ['W', 'w']),
  'default': (2, lambda c: defaultdict(list, {'q': c[0], 'p': c[1]}), ['q', 'p']),
  'elements': (2, lambda c: {'list_element_1': c[0], 'list_element_0': c[1]},
               ['list_element_1', 'list_element_0']),
  'long': (12, list, [f'list_element_{k}' for k in range(12)]),
  'longtuple': (11, tuple, [f'list_element_{k}' for k in range(11)]),
}
INNER = ['leaf', 'dict', 'odict', 'list', 'tuple', 'pair', 'none', 'empty_list',
         'empty_tuple', 'ruled']


class Builder:
  def __init__(self, h, kinds):
    self.h, self.kinds, self.n, self.leafs = h, kinds, 0, []

  def leaf(self, path):
    k = len(self.leafs)
    x = self.h.array(f"v{k}", [(), (2,), (1, 2)][k % 3])
    self.leafs.append((tuple(path), x))
    return x

  def tree(self, depth, path, kind=None):
    if kind is None:
      self.n += 1
      opts = self.kinds if depth > 0 else ['leaf']
      kind = self.h.pick(f"node{self.n}", opts) if len(opts) > 1 else opts[0]
    if kind == 'leaf':
      return self.leaf(path)
    _, make, names = KINDS[kind]
    return make([self.tree(depth - 1, path + [n]) for n in names])


def navigate(d, path):
  for k in path:
    d = d[k]
  return d


def paths_of(d, path=()):
  if not isinstance(d, dict):
    return [path] if tree_util.tree_leaves(d) else []
  return [p for k, v in d.items() for p in paths_of(v, path + (k,))]


def plain_dicts(d):
  """every inner node with leaves is a plain dictionary"""
  if isinstance(d, dict):
    return all(plain_dicts(v) for v in d.values())
  return len(tree_util.tree_leaves(d)) == 0 or tree_util.all_leaves([d])


def check_tree(h, io, tree, by_path):
  leafs = tree_util.tree_leaves(tree)
  before = [id(x) for x in leafs]
  d = io.pytree_to_dict(tree)
  h.same('input unchanged', [id(x) for x in tree_util.tree_leaves(tree)], before)
  if by_path and by_path[0][0] != ():
    h.same('nested dictionaries only', plain_dicts(d), True)
  want = {p: x for p, x in by_path}
  h.same('names', sorted(map(str, paths_of(d))), sorted(map(str, want)))
  h.same('number of named leaves', len(tree_util.tree_leaves(d)), len(by_path))
  for p, x in by_path:
    h.eq('leaf under its name', navigate(d, p), val(x))
  keys = io.pytree_dict_keys(tree)
  h.same('one key per leaf', len(keys), len(leafs))
  h.same('keys', sorted(map(tuple, keys)), sorted(want))
  for k, x in zip(keys, leafs):
    h.eq('key addresses its leaf', navigate(d, k), val(x))
    h.eq('key names its leaf', want[tuple(k)], val(x))
  h.treeeq('restored', io.dict_to_pytree(d, tree), tree)
  # the values come from the dictionary, the structure from the target
  other = tree_util.tree_map(lambda x: x * 0, tree)
  h.treeeq('restored to a target', io.dict_to_pytree(d, other), tree)
  # the dictionary itself is a tree
  h.treeeq('dictionary of the dictionary', io.pytree_to_dict(d), d)
  h.same('keys of the dictionary', sorted(map(tuple, io.pytree_dict_keys(d))),
         sorted(want))
  h.treeeq('restored dictionary', io.dict_to_pytree(d, d), d)


ROOTS = ['dict', 'odict', 'list', 'tuple', 'pair', 'ruled']
SPECIAL = ['separators', 'modules', 'cases', 'default', 'elements']
QUICK_INNER = ['leaf', 'dict', 'list', 'pair', 'odict', 'none', 'empty_list']


@CHECK.harness('trees', quick=[[r, 2, 'quick'] for r in ROOTS + ['triple', 'dict3']] +
               [[r, 2, 'small'] for r in SPECIAL] + [
                 [r, 3, 'small'] for r in ('single', 'list1')],
               thorough=[[r, 2, 'full'] for r in ROOTS + ['triple', 'dict3'] + SPECIAL] + [
                 [r, 3, 'small'] for r in ('single', 'list1')],
               bounds='every tree of the given root with 1-3 children chosen among 7 '
               '(thorough: 10) kinds of nodes, and chains of depth 3; leaf values '
               'are arbitrary', max_paths=20000)
def trees(h, cfg):
  from jax_sgmc import io
  register(io)
  root, depth, which = cfg
  kinds = {'quick': QUICK_INNER, 'full': INNER,
           'small': ['leaf', 'pair', 'dict', 'tuple']}[which]
  b = Builder(h, kinds)
  tree = b.tree(depth, [], root)
  check_tree(h, io, tree, b.leafs)


@CHECK.harness('long', quick=[['long'], ['longtuple'], ['leaf']],
               bounds='lists and tuples with more than ten elements; a single leaf')
def long_(h, cfg):
  from jax_sgmc import io
  register(io)
  b = Builder(h, ['leaf'])
  if cfg[0] == 'leaf':
    x = b.leaf([])
    check_tree(h, io, x, b.leafs)
    return
  tree = {'u': b.tree(1, ['u'], cfg[0]), 'f': b.leaf(['f'])}
  check_tree(h, io, tree, b.leafs)


@CHECK.harness('subtrees', quick=[['pair'], ['dict'], ['list']],
               thorough=[[k] for k in INNER if k not in ('leaf', 'none')],
               bounds='restoring a part of a tree')
def subtrees(h, cfg):
  from jax_sgmc import io
  register(io)
  b = Builder(h, ['leaf'])
  tree = {'b': b.tree(1, ['b'], cfg[0]), 'a': Pair(b.tree(1, ['a', 'weight'], cfg[0]),
                                                   b.leaf(['a', 'bias']))}
  d = io.pytree_to_dict(tree)
  h.treeeq('part', io.dict_to_pytree(d['b'], tree['b']), tree['b'])
  h.treeeq('part', io.dict_to_pytree(d['a'], tree['a']), tree['a'])
  h.treeeq('nested part', io.dict_to_pytree(d['a']['weight'], tree['a'].weight),
           tree['a'].weight)


@CHECK.harness('unnamed', quick=[[1], [3], [12]],
               bounds='nodes without a registered rule: distinct names, all leaves kept')
def unnamed(h, cfg):
  from jax_sgmc import io
  b = Builder(h, ['leaf'])
  tree = {'p': Plain(*[b.leaf(['?']) for _ in range(cfg[0])])}
  d = io.pytree_to_dict(tree)
  h.same('number of leaves', len(tree_util.tree_leaves(d)), cfg[0])
  keys = io.pytree_dict_keys(tree)
  h.same('distinct names', len(set(keys)), cfg[0])
  for k, x in zip(keys, tree_util.tree_leaves(tree)):
    h.eq('key addresses its leaf', navigate(d, k), val(x))
  h.treeeq('restored', io.dict_to_pytree(d, tree), tree)


FILES = {
  'modules': {'mlp/~/linear_0': {'w': (2,), 'b': ()}, 'mlp/~/linear_1': Single((2,))},
  'pair': Pair({'b': (2,), 'a': ()}, [(), (1,)]),
  'long': [() for _ in range(12)],
  'nested': {'z': Triple((2,), (), ((), {'q': (1,)})), 'a': {'y': (), 'x': (2,)}},
  'odict': OrderedDict([('z', ()), ('a', ())]),
}


@CHECK.harness('file', quick=[[s, 2] for s in FILES],
               thorough=[[s, n] for s in FILES for n in (1, 3)],
               bounds='1-3 samples of four structures written to HDF5 by the collector '
               'and used as reference data by the HDF5 loader')
def file_(h, cfg):
  from jax_sgmc import io, scheduler, data
  from .p08 import World, StubFile
  spec, n = cfg
  h5py = __import__('h5py')
  is_shape = lambda s: type(s) is tuple and all(isinstance(i, int) for i in s)
  ls, td = tree_util.tree_flatten(FILES[spec], is_leaf=is_shape)
  samples = [tree_util.tree_unflatten(td, [h.array(f"s{k}.{j}", s)
                                           for j, s in enumerate(ls)])
             for k in range(n)]
  with World(h, 'hdf5') as w:
    init, save, post = w.saving
    st = init({'variables': samples[0]}, {},
              scheduler.static_information(samples_collected=n))
    for s in samples:
      st, _ = save(st, True, {'variables': s})
    post(st, None)

    class File(StubFile):
      def __getitem__(self, name):
        return self.sets['/' + '/'.join(p for p in name.split('/') if p)]

      def close(self):
        pass
    f = File()
    f.sets = w.file.sets
    from jax_sgmc.data import hdf5_loader
    old = hdf5_loader.h5py

    class NS:
      pass
    NS.File = File
    hdf5_loader.h5py = NS
    try:
      dl = hdf5_loader.HDF5Loader(f, subdir='/chain~0/variables', sample=samples[0])
      finit, fmap, release = data.full_reference_data(dl, 1, 1)
      _, (res, _) = fmap(lambda b, s: (b, s), finit(), None)
      release()
    finally:
      hdf5_loader.h5py = old
  want = tree_util.tree_map(lambda *x: jnp.stack(x), *samples)
  h.treeeq('samples as reference data', res, want)
