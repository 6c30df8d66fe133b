"""Python integers as bit vectors: identifiers and seeds.

`Bits` is an integer of W bits (no overflow within the stated input widths), `words`
a numpy-like array of them.  `patched(module)` lets the host code of a module work on
them: `int`, `hex`, `uuid` and numpy arrays of symbolic words.  Everything else is
Unsupported.
"""
import contextlib
import uuid as real_uuid

import numpy as np
import z3

from .trace import Unsupported

W = 256


def bv(x):
  if isinstance(x, Bits):
    return x.e
  if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
    return z3.BitVecVal(int(x), W)
  raise Unsupported(f"bit operation with {type(x)}")


def _op(f, swap=False):
  def go(self, other):
    try:
      o = bv(other)
    except Unsupported:
      return NotImplemented
    return Bits(f(o, self.e) if swap else f(self.e, o))
  return go


OPS = {
  'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
  'lshift': lambda a, b: a << b, 'rshift': lambda a, b: z3.LShR(a, b),
  'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
  'floordiv': z3.UDiv, 'mod': z3.URem,
}


class Bits:
  """A non-negative integer with symbolic bits."""
  __array_priority__ = 1000

  def __init__(self, e):
    self.e = z3.simplify(e)

  def __repr__(self):
    return f"Bits({self.e})"

  def __hash__(self):
    return hash(self.e)

  def __eq__(self, other):
    if isinstance(other, Bits) and self.e.eq(other.e):
      return True
    raise Unsupported("branch on the bits of an identifier")

  def __bool__(self):
    raise Unsupported("branch on the bits of an identifier")
  __int__ = __index__ = __float__ = __bool__

  def item(self):
    return self

  def __format__(self, spec):
    if spec not in ('x', '032x'):
      raise Unsupported(f"format {spec}")
    name = f"bits~{len(NAMED)}~"
    NAMED[name] = self
    return name


NAMED = {}

for _n, _f in OPS.items():
  setattr(Bits, f"__{_n}__", _op(_f))
  setattr(Bits, f"__r{_n}__", _op(_f, True))


def var(name, width):
  return Bits(z3.ZeroExt(W - width, z3.BitVec(name, width)))


class Hex(str):
  """hex() of symbolic bits: a number which is written down"""

  def __new__(cls, b):
    o = str.__new__(cls, '0x?')
    o.bits = b
    return o

  def _same(self, *a):
    return self
  replace = lstrip = lower = zfill = rjust = _same

  def __getitem__(self, k):
    if k != slice(2, None):
      raise Unsupported("part of a hexadecimal number")
    return self


class Words(list):
  """array of symbolic machine words"""
  ndim = 1

  def __init__(self, items, dtype):
    self.dtype = np.dtype(dtype)
    n = self.dtype.itemsize * 8
    super().__init__(Bits(z3.ZeroExt(W - n, z3.Extract(n - 1, 0, bv(b))))
                     for b in items)

  @property
  def shape(self):
    return (len(self),)

  def __setitem__(self, k, v):
    if not isinstance(k, int):
      raise Unsupported("assignment to several words")
    list.__setitem__(self, k, Words([v], self.dtype)[0])

  def tolist(self):
    return list(self)

  def __array__(self, *a, **k):
    raise Unsupported("symbolic words in an array")


class _IntMeta(type):
  def __instancecheck__(cls, x):
    return isinstance(x, (int, Bits))


class Int(metaclass=_IntMeta):
  def __new__(cls, x=0, *a):
    if isinstance(x, Hex):
      return x.bits
    return x if isinstance(x, Bits) else int(x, *a)
  from_bytes = int.from_bytes


class SymUUID:
  def __init__(self, hex=None, int=None, **kw):  # pylint: disable=redefined-builtin
    if kw or (hex is None) == (int is None):
      raise Unsupported("kind of UUID")
    if hex is not None:
      hex = NAMED.get(hex) if not isinstance(hex, Hex) else hex.bits
      if hex is None:
        raise Unsupported("UUID of a string")
    self.int = hex if hex is not None else int

  def __hash__(self):
    return hash(self.int)

  def __eq__(self, other):
    return isinstance(other, SymUUID) and self.int == other.int


class UUIDModule:
  UUID = SymUUID

  def __init__(self, new):
    self.uuid4 = new


class Numpy:
  """numpy which makes arrays of symbolic words"""

  def __init__(self, base):
    self._base = base

  def __getattr__(self, name):
    return getattr(self._base, name)

  def array(self, x, dtype=None, **kw):
    if isinstance(x, (list, tuple)) and any(isinstance(e, Bits) for e in x):
      return Words(x, dtype or np.uint64)
    return self._base.array(x, dtype=dtype, **kw)
  asarray = array

  def zeros(self, n, dtype=float):
    n, = n if isinstance(n, (tuple, list)) else (n,)
    return Words([0] * n, dtype)
  empty = zeros


@contextlib.contextmanager
def patched(module, new, sym):
  """The module works with the identifiers that `new` makes."""
  old = dict(vars(module))
  if sym:
    module.int = Int
    module.hex = lambda b: Hex(b) if isinstance(b, Bits) else hex(b)
    for k, v in old.items():
      if getattr(v, '__name__', None) == 'numpy' or type(v).__name__ == 'NPShim':
        setattr(module, k, Numpy(v))
  for k, v in old.items():
    if v is real_uuid:
      setattr(module, k, UUIDModule(new))
    elif v is real_uuid.uuid4:
      setattr(module, k, new)
    elif v is real_uuid.UUID and sym:
      setattr(module, k, SymUUID)
  if not sym:
    for k, v in old.items():
      if v is real_uuid:
        getattr(module, k).UUID = real_uuid.UUID
  try:
    yield
  finally:
    for k in set(vars(module)) - set(old):
      delattr(module, k)
    vars(module).update(old)


# -- seeds ---------------------------------------------------------------------

_Real = np.random.SeedSequence


class _SeedMeta(type):
  def __instancecheck__(cls, x):
    return isinstance(x, _Real) or type.__instancecheck__(cls, x)


class SeedSequence(metaclass=_SeedMeta):
  """numpy's SeedSequence; of symbolic entropy a record of its arguments"""

  def __new__(cls, entropy=None, *a, spawn_key=(), **kw):
    if not isinstance(entropy, Bits):
      return _Real(entropy, *a, spawn_key=spawn_key, **kw)
    if a or kw:
      raise Unsupported("SeedSequence options")
    o = object.__new__(cls)
    o.entropy, o.spawn_key, o.n = entropy, tuple(spawn_key), 0
    return o

  def spawn(self, n):
    out = [SeedSequence(self.entropy, spawn_key=self.spawn_key + (self.n + k,))
           for k in range(n)]
    self.n += n
    return out

  def generate_state(self, *a):
    raise Unsupported("generate_state of a symbolic seed")
