"""P15: tree algebra and mapping over lists of chains."""
import collections
from .common import *

CHECK = Check('P15', 'Tree algebra')
NT = collections.namedtuple('NT', ['z', 'a'])

# Shapes are marked by tuples of ints; other containers are tree nodes.
TREES = {
  'leaf': (2,),
  'scalar': (),
  'dict': {'w': (2,), 'b': ()},
  'unsorted': {'z': (1,), 'a': (2, 1), 'm': ()},
  'nest': {'w': (2, 1), 'a': [(1,), ()]},
  'deep': [{'x': {'y': (1,)}, 'a': (1, 2)}, [(), [(2,)]]],
  'named': lambda f: NT(f('z', (2,)), {'q': f('q', ()), 'b': f('b', (1,))}),
  'tuple': lambda f: (f('0', (1, 2)), (f('1', ()), f('2', (2,)))),
  'none': lambda f: {'a': None, 'b': f('b', (2,)), 'c': []},
  'empty': lambda f: {'a': f('a', (0,)), 'b': f('b', (2,)), 'c': f('c', (0, 3))},
  'zero': lambda f: {},
  'wide': lambda f: {'l': [f(f'l{k}', (1,)) for k in range(37)], 'b': f('b', ())},
  'long': (300,),
}


def tree(h, prefix, name, **kw):
  spec = TREES[name]
  if callable(spec):
    return spec(lambda s, shape: h.array(prefix + s, shape, **kw))
  return tree_of(h, prefix, spec, **kw)


def ref(x, f, *others):
  """Oracle: apply f leaf by leaf -> list of arrays"""
  return [f(val(a), *[val(o) for o in os])
          for a, *os in zip(tree_util.tree_leaves(x),
                            *[tree_util.tree_leaves(o) for o in others])]


def vec(x):
  """Oracle: flattened tree"""
  ls = [val(l).ravel() for l in tree_util.tree_leaves(x)]
  return np.concatenate(ls) if ls else zeros((0,))


def match(h, label, got, like, want):
  h.same(f'{label}: structure', str(tree_util.tree_structure(got)),
         str(tree_util.tree_structure(like)))
  for g, w in zip(tree_util.tree_leaves(got), want):
    h.eq(label, g, arr(w))


def under(mode, f):
  return jax.jit(f) if mode == 'jit' else f


ALL = list(TREES)


@CHECK.harness('operations', quick=[[n, m] for n in ALL for m in ('plain', 'jit')],
               bounds='tree_add, tree_scale, tree_multiply, tree_dot for trees of 0-4 '
               'and 38 leaves and up to 6 (one: 300) entries, of dictionaries, lists, tuples, named '
               'tuples, None and empty arrays; all leaf values')
def operations(h, cfg):
  from jax_sgmc import util
  name, mode = cfg
  a, b, al = tree(h, 'a', name), tree(h, 'b', name), h.array('al')
  match(h, 'sum', under(mode, util.tree_add)(a, b), a, ref(a, lambda x, y: x + y, b))
  match(h, 'scaled', under(mode, util.tree_scale)(al, a), a,
        ref(a, lambda x: val(al) * x))
  match(h, 'product', under(mode, util.tree_multiply)(a, b), a,
        ref(a, lambda x, y: x * y, b))
  want = frac(0)
  for x, y in zip(vec(a), vec(b)):
    want = want + x * y
  h.eq('inner product', under(mode, util.tree_dot)(a, b), arr(want))
  # Python numbers are leaves as well
  match(h, 'scaled by a number', util.tree_scale(-0.5, a), a,
        ref(a, lambda x: frac(-1, 2) * x))


def mv(M, v):
  out = zeros((M.shape[0],))
  for i in range(M.shape[0]):
    s = frac(0)
    for j in range(M.shape[1]):
      s = s + M[i, j] * v[j]
    out[i] = s
  return out


@CHECK.harness('matrix', quick=[[n, m] for n in ALL if n not in ('zero', 'long')
                                for m in ('plain', 'jit')],
               bounds='tree_matmul and tensor_matmul for scalar, diagonal and full '
               'matrices over trees of up to 6 (one: 38) entries; all entries')
def matrix(h, cfg):
  from jax_sgmc import util
  name, mode = cfg
  v = tree(h, 'v', name)
  n = len(vec(v))
  shapes = struct(v)
  M = h.array('M', (n, n))
  want = split_like(mv(val(M), vec(v)), shapes)
  match(h, 'matrix product', under(mode, util.tree_matmul)(M, v), v, want)
  match(h, 'full tensor', util.tensor_matmul(util.Tensor(ndim=2, tensor=M), v), v, want)
  d = tree(h, 'd', name)
  match(h, 'diagonal tensor', util.tensor_matmul(util.Tensor(ndim=1, tensor=d), v), v,
        ref(v, lambda x, y: x * y, d))
  s = h.array('s')
  match(h, 'scalar tensor', util.tensor_matmul(util.Tensor(ndim=0, tensor=s), v), v,
        ref(v, lambda x: val(s) * x))
  h.raises('tensor of unknown dimension', NotImplementedError,
           lambda: util.tensor_matmul(util.Tensor(ndim=3, tensor=M), v))


def chain(h, c, name):
  """State of one chain with values, counters, flags and a key"""
  return {'x': tree(h, f'x{c}', name), 'n': h.array(f'n{c}', (), 'int'),
          'ok': h.array(f'ok{c}', (2,), 'bool')}


def step(state):
  """Couples all parts of a chain; contains a branch"""
  ls = tree_util.tree_leaves(state['x'])
  u = stubs.UF('step', *ls, state['n'], shape=(2,))
  x = tree_util.tree_map(lambda l: jnp.where(state['ok'][0], 2.0 * l + u[0], l),
                         state['x'])
  return {'x': x, 'n': state['n'] + 1, 'ok': state['ok'][::-1]}, u[1]


def oracle_step(s):
  ls = tree_util.tree_leaves(s['x'])
  u = ufv('step', *[val(l).ravel() for l in ls], val(s['n']).ravel(), shape=(2,))
  ok = val(s['ok'])
  x = [where(ok[0], frac(2) * val(l) + u[0], val(l)) for l in ls]
  return x, val(s['n']) + 1, ok[::-1], u[1]


LM_TREES = ['leaf', 'dict', 'nest', 'named', 'tuple', 'none']


@CHECK.harness('list_map', quick=[[m, n, c] for m in ('vmap', 'pmap')
                                  for n, c in (('dict', 1), ('dict', 3), ('nest', 2),
                                               ('named', 2), ('none', 2), ('dict', 19))],
               thorough=[[m, n, c] for m in ('vmap', 'pmap') for n in LM_TREES
                         for c in (1, 2, 3, 4)],
               bounds='1-3 (thorough: 4) and 19 chains whose states hold trees, a counter and '
               'flags; arbitrary coupled function with a data dependent branch; parallel '
               'evaluation is modelled by evaluating every device alone')
def list_map(h, cfg):
  from jax_sgmc import util
  mode, name, n = cfg
  states = [chain(h, c, name) for c in range(n)]
  mapper = util.list_vmap if mode == 'vmap' else util.list_pmap
  out = mapper(step)(*states)
  h.same('number of results', len(out), n)
  for c in range(n):
    new, extra = out[c]
    x, k, ok, e = oracle_step(states[c])
    match(h, 'state', new['x'], states[c]['x'], x)
    h.eq('counter', new['n'], arr(k))
    h.eq('flags', new['ok'], ok)
    h.eq('second result', extra, arr(e))
    h.same('types', [str(jnp.result_type(l)) for l in (new['n'], new['ok'])],
           ['int32', 'bool'])


@CHECK.harness('transpose', quick=[[n, c] for n in LM_TREES for c in (1, 2, 3)]
               + [['wide', 2], ['dict', 35]],
               bounds='1-3 and 35 trees of up to 4 (38) leaves to one tree of stacked leaves and back')
def transpose(h, cfg):
  from jax_sgmc import util
  name, n = cfg
  states = [chain(h, c, name) for c in range(n)]
  stacked = util.pytree_list_to_leaves(states)
  h.same('structure', str(tree_util.tree_structure(stacked)),
         str(tree_util.tree_structure(states[0])))
  for k, l in enumerate(tree_util.tree_leaves(stacked)):
    h.same('shape', np.shape(l)[0], n)
    for c in range(n):
      h.eq('stacked leaf', l[c], val(tree_util.tree_leaves(states[c])[k]))
  back = util.pytree_leaves_to_list(stacked)
  h.same('number of trees', len(back), n)
  for c in range(n):
    h.treeeq('tree after splitting', back[c], states[c])


BARE = [n for n in ALL if n not in ('zero', 'empty', 'wide', 'long')]


@CHECK.harness('bare', quick=[[n, c] for n in BARE for c in (1, 2)],
               thorough=[[n, c] for n in BARE for c in (1, 2, 3, 4)],
               bounds='1-2 (thorough: 4) trees of 1-4 leaves, a single array included; '
               'mapped function returns one array per chain')
def bare(h, cfg):
  from jax_sgmc import util
  name, n = cfg
  trees = [tree(h, f"t{c}", name) for c in range(n)]
  back = util.pytree_leaves_to_list(util.pytree_list_to_leaves(trees))
  h.same('number of trees', len(back), n)
  for c in range(n):
    h.treeeq('tree after splitting', back[c], trees[c])
  for mapper in (util.list_vmap, util.list_pmap):
    out = mapper(lambda x: util.tree_scale(2.0, x))(*trees)
    out2 = mapper(lambda x: tree_util.tree_leaves(x)[0])(*trees)
    h.same('number of results', (len(out), len(out2)), (n, n))
    for c in range(n):
      match(h, 'mapped', out[c], trees[c], ref(trees[c], lambda x: 2 * x))
      h.eq('one array per chain', out2[c], val(tree_util.tree_leaves(trees[c])[0]))


@CHECK.harness('types', quick=[['int', 'real'], ['real', 'int'], ['bool', 'int'],
                                ['int', 'bool'], ['number', 'real'], ['real', 'number']],
               bounds='two trees with leaves of different types: integers, flags, Python '
               'numbers and reals')
def types(h, cfg):
  from jax_sgmc import util
  a, b = [{'u': 2, 'w': h.array(f'w{i}', (2,))} if k == 'number' else
          {'u': h.array(f'u{i}', (), k), 'w': h.array(f'w{i}', (2,))}
          for i, k in enumerate(cfg)]
  num = lambda x: frac(x) if isinstance(x, int) else val(x)  # noqa: E731
  num1 = lambda x: where(val(x), frac(1), frac(0)) if (  # noqa: E731
    not isinstance(x, int) and jnp.result_type(x) == bool) else num(x)
  both = jnp.result_type(a['u'], b['u'])
  stacked = util.pytree_list_to_leaves([a, b])
  h.same('shape', (np.shape(stacked['u']), np.shape(stacked['w'])), ((2,), (2, 2)))
  h.same('type of the stacked leaf', str(jnp.result_type(stacked['u'])), str(both))
  back = util.pytree_leaves_to_list(stacked)
  for i, x in enumerate((a, b)):
    for got in (stacked['u'][i], back[i]['u']):
      h.eq('stacked leaf', jnp.asarray(got, dtype=jnp.float32), arr(num1(x['u'])))
  if 'bool' not in cfg:
    h.eq('sum', util.tree_add(a, b)['u'], arr(num(a['u']) + num(b['u'])))
    h.eq('product', util.tree_multiply(a, b)['u'], arr(num(a['u']) * num(b['u'])))
    al = h.array('al')
    h.eq('scaled', util.tree_scale(al, a)['u'], arr(val(al) * num(a['u'])))
    d = num(a['u']) * num(b['u'])
    for x, y in zip(val(a['w']), val(b['w'])):
      d = d + x * y
    h.eq('inner product', util.tree_dot(a, b), arr(d))


@CHECK.harness('derivative', quick=[['dict'], ['nest'], ['named']],
               bounds='gradient of inner product, sum and product through the tree '
               'operations for trees of 2-3 leaves')
def derivative(h, cfg):
  from jax_sgmc import util
  name, = cfg
  a, b, al = tree(h, 'a', name), tree(h, 'b', name), h.array('al')

  def f(x):
    return util.tree_dot(util.tree_add(util.tree_scale(al, x), b),
                         util.tree_multiply(x, b))
  g = jax.grad(f)(a)
  match(h, 'gradient', g, a,
        ref(a, lambda x, y: frac(2) * val(al) * x * y + y * y, b))
