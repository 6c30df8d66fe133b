"""Scalar term layer: exact rationals / z3 terms with interned function atoms.

A scalar is one of: bool, int, fractions.Fraction, float('inf') (concrete) or a
z3 expression (symbolic).  Real arithmetic is exact (see DESIGN.md for what
this abstracts).  Non-polynomial operations become *atoms*: fresh z3 constants
interned on (function, canonical arguments), each with defining axioms that are
added to a query only when the atom occurs in it.  Uninterpreted functions are
handled the same way; functional consistency is enforced lazily: a model that
maps two applications with equal arguments to different values is refined away.
"""
import sys
import math
import time
from fractions import Fraction

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
  sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

INF = float('inf')


class Stats:
  def __init__(self):
    self.queries = 0
    self.unsat = 0
    self.sat = 0
    self.unknown = 0
    self.trivial = 0
    self.solver_s = 0.0
    self.feas_queries = 0


STATS = Stats()


class Atom:
  __slots__ = ('fn', 'args', 'const', 'axioms')

  def __init__(self, fn, args, const):
    self.fn, self.args, self.const, self.axioms = fn, args, const, []


class Table:
  """Interned atoms and inputs of one verification run."""

  def __init__(self):
    self.atoms = {}       # key -> Atom
    self.by_id = {}       # const ast id -> Atom
    self.keep = []        # keep asts alive
    self.inputs = {}      # name -> z3 const
    self.input_id = {}    # ast id -> name
    self.nan_count = 0
    self.simp = {}
    self.has_exp = False

  def input(self, name, sort):
    if name not in self.inputs:
      c = {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[sort](name)
      self.inputs[name] = c
      self.input_id[c.get_id()] = name
    return self.inputs[name]


T = Table()


def reset():
  _SIDE.clear(), _CS.clear()
  T.__init__()


def is_sym(x):
  return isinstance(x, z3.ExprRef)


def from_float(x, single=True):
  """Exact rational reading of a floating-point literal."""
  x = float(x)
  if math.isinf(x) or math.isnan(x):
    return x
  if x == int(x) and abs(x) < 2 ** 53:
    return Fraction(int(x))
  tol = 2e-7 if single else 1e-12
  f = Fraction(x).limit_denominator(10 ** 5 if single else 10 ** 8)
  if abs(float(f) - x) <= tol * abs(x):
    return f
  return Fraction(x)


def toz(x, real=None):
  if is_sym(x):
    if real and z3.is_int(x):
      return z3.ToReal(x)
    if real and z3.is_bool(x):
      return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return x
  if isinstance(x, bool):
    return z3.BoolVal(x)
  if isinstance(x, Fraction) or real:
    if isinstance(x, float):
      if math.isnan(x):
        return nan()
      if math.isinf(x):
        c = z3.Real('!INF')
        return c if x > 0 else -c
      x = from_float(x, False)
    f = Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")
  if isinstance(x, int):
    return z3.IntVal(x)
  if isinstance(x, float):
    return toz(x, real=True)
  raise TypeError(f"not a scalar: {type(x)} {x!r}")


def as_py(e):
  """z3 numeral/bool -> python, others unchanged."""
  if not is_sym(e):
    return e
  if z3.is_int_value(e):
    return e.as_long()
  if z3.is_rational_value(e):
    return Fraction(e.numerator_as_long(), e.denominator_as_long())
  if z3.is_true(e):
    return True
  if z3.is_false(e):
    return False
  return e


def canon(e):
  if not is_sym(e):
    return e
  i = e.get_id()
  r = T.simp.get(i)
  if r is None:
    r = z3.simplify(e, som=True, flat=True, som_blowup=1000000, sort_sums=True)
    T.simp[i] = r
    T.keep.append(e)
  return as_py(r)


def light(e):
  return as_py(z3.simplify(e))


def nan():
  T.nan_count += 1
  return z3.Real(f"!nan{T.nan_count}")


def is_real(x):
  return isinstance(x, (Fraction, float)) or (is_sym(x) and z3.is_real(x))


def _isf(x):
  return isinstance(x, float)


def num(x):
  """bool -> int for arithmetic"""
  if isinstance(x, bool):
    return int(x)
  if is_sym(x) and z3.is_bool(x):
    return z3.If(x, z3.IntVal(1), z3.IntVal(0))
  return x


def add(a, b):
  a, b = num(a), num(b)
  if not is_sym(a) and not is_sym(b):
    return a + b
  if _isf(a) or _isf(b):
    return a if _isf(a) else b
  if not is_sym(a) and a == 0:
    return z3.ToReal(b) if isinstance(a, Fraction) and z3.is_int(b) else b
  if not is_sym(b) and b == 0:
    return z3.ToReal(a) if isinstance(b, Fraction) and z3.is_int(a) else a
  return toz(a) + toz(b)


def mul(a, b):
  a, b = num(a), num(b)
  if not is_sym(a) and not is_sym(b):
    if (_isf(a) or _isf(b)) and (a == 0 or b == 0):
      return nan()
    return a * b
  if _isf(a) or _isf(b):
    return nan()
  if not is_sym(a):
    a, b = b, a
  if not is_sym(b):
    if b == 0:
      return Fraction(0) if is_real(a) or is_real(b) else 0
    if b == 1:
      return z3.ToReal(a) if isinstance(b, Fraction) and z3.is_int(a) else a
  return toz(a) * toz(b)


def neg(a):
  a = num(a)
  return -a


def sub(a, b):
  return add(a, neg(b))


def atom(fn, args, sort='real'):
  cargs = tuple(canon(a) for a in args)
  if sort == 'real' and fn != 'exp':
    cargs = tuple(merge_exp(a) for a in cargs)
  key = (fn,) + tuple(('z', a.get_id()) if is_sym(a)
                      else (type(a).__name__, a) for a in cargs)
  at = T.atoms.get(key)
  if at is None:
    name = f"@{fn}#{len(T.atoms)}"
    c = {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[sort](name)
    at = Atom(fn, cargs, c)
    T.atoms[key] = at
    T.by_id[c.get_id()] = at
    T.keep.append(cargs)
  return at


# -- sum-of-monomials view ---------------------------------------------------

def to_poly(e):
  """z3 real/int term -> {monomial: coef}; monomial = sorted ((id, pow), ...)."""
  e = canon(e)
  if not is_sym(e):
    return {(): Fraction(e)} if e != 0 else {}
  out = {}
  leaves = {}

  def mono(t):
    t_py = as_py(t)
    if not is_sym(t_py):
      return Fraction(t_py), {}
    if z3.is_mul(t):
      c, m = Fraction(1), {}
      for ch in t.children():
        cc, mm = mono(ch)
        c *= cc
        for k, v in mm.items():
          m[k] = m.get(k, 0) + v
      return c, m
    if z3.is_to_real(t):
      # push through: treat ToReal(x) of a leaf as leaf
      pass
    if t.decl().kind() == z3.Z3_OP_POWER:
      b, p = t.children()
      p = as_py(p)
      if not is_sym(p) and Fraction(p).denominator == 1 and p >= 0:
        c, m = mono(b)
        return c ** int(p), {k: v * int(p) for k, v in m.items()}
    if t.decl().kind() == z3.Z3_OP_UMINUS:
      c, m = mono(t.children()[0])
      return -c, m
    leaves[t.get_id()] = t
    return Fraction(1), {t.get_id(): 1}

  terms = e.children() if z3.is_add(e) else [e]
  for t in terms:
    c, m = mono(t)
    k = tuple(sorted(m.items()))
    out[k] = out.get(k, 0) + c
    if out[k] == 0:
      del out[k]
  T.keep.append(list(leaves.values()))
  for i, t in leaves.items():
    _LEAF[i] = t
  return out


_LEAF = {}


def from_poly(p):
  acc = Fraction(0)
  for m, c in sorted(p.items()):
    t = c
    for i, k in m:
      for _ in range(k):
        t = mul(t, _LEAF[i])
    acc = add(acc, t)
  return acc


def _exp_arg(i):
  """Argument of the exponential behind an atom (also 1/exp), or None."""
  at = T.by_id.get(i)
  if at is None:
    return None
  if at.fn == 'exp':
    return at.args[0]
  if at.fn == 'inv' and is_sym(at.args[0]):
    at = T.by_id.get(at.args[0].get_id())
    if at is not None and at.fn == 'exp':
      return neg(at.args[0])
  return None


def merge_mono(m):
  """exp(x)^k -> exp(kx), and products of exponentials of multiples of one x."""
  if not T.has_exp:
    return m
  ex = [(i, k) for i, k in m if _exp_arg(i) is not None]
  if not ex or (len(ex) == 1 and ex[0][1] == 1):
    return m
  args, changed = [], False          # polynomials, coefficient relative to the first
  for i, k in ex:
    q = {n: c * k for n, c in to_poly(_exp_arg(i)).items()}
    for g in args:
      if g.keys() == q.keys():
        r = {q[n] / g[n] for n in g}
        if len(r) == 1:
          r = r.pop()
          for n in g:
            g[n] *= 1 + r
          changed = True
          break
    else:
      args.append(q)
      changed |= k > 1
  if not changed:
    return m
  d = {i: k for i, k in m if _exp_arg(i) is None}
  for g in args:
    if any(g.values()):
      for n, c in to_poly(exp(from_poly(g))).items():
        for i, k in n:
          d[i] = d.get(i, 0) + k
  return tuple(sorted(d.items()))


def merge_poly(p):
  if not T.has_exp:
    return p
  out = {}
  for m, c in p.items():
    m = merge_mono(m)
    out[m] = out.get(m, 0) + c
    if out[m] == 0:
      del out[m]
  return out


def merge_exp(a):
  if not T.has_exp or not is_sym(a) or not z3.is_real(a):
    return a
  p = to_poly(a)
  q = merge_poly(p)
  return a if q == p else canon(from_poly(q))


def poly_mul(p, q):
  out = {}
  for m1, c1 in p.items():
    for m2, c2 in q.items():
      d = dict(m1)
      for k, v in m2:
        d[k] = d.get(k, 0) + v
      k = tuple(sorted(d.items()))
      out[k] = out.get(k, 0) + c1 * c2
      if out[k] == 0:
        del out[k]
  return out


def _inv_atom(t):
  if is_sym(t):
    at = T.by_id.get(t.get_id())
    if at is not None and at.fn == 'inv':
      return at.args[0]
  at = atom('inv', (t,))
  if not at.axioms:
    at.axioms.append(z3.Implies(toz(t, True) != 0, at.const * toz(t, True) == 1))
  return at.const


def inv(b):
  b = canon(num(b))
  if not is_sym(b):
    if _isf(b):
      return Fraction(0)
    if b == 0:
      return nan()
    return 1 / Fraction(b)
  if z3.is_int(b):
    b = canon(z3.ToReal(b))
  p = to_poly(b)
  if len(p) == 1:
    (m, c), = p.items()
    r = 1 / c
    for i, k in m:
      v = _inv_atom(_LEAF[i])
      for _ in range(k):
        r = mul(r, v)
    return r
  # normalise the scale (first monomial in canonical order has coefficient 1)
  lead = p[min(p)]
  q = {m: c / lead for m, c in p.items()}
  return mul(1 / lead, _inv_atom(canon(from_poly(q))))


def div(a, b):
  """Real division."""
  a, b = num(a), num(b)
  if not is_sym(a) and not is_sym(b):
    if _isf(a) or _isf(b):
      try:
        r = float(a) / float(b)
      except ZeroDivisionError:
        return nan()
      return nan() if math.isnan(r) else (Fraction(0) if r == 0 else r)
    if b == 0:
      return nan()
    return Fraction(a) / Fraction(b)
  if _isf(a):
    return nan()
  if not is_sym(b):
    if b == 0:
      return nan()
    return mul(a, inv(b))
  return mul(a, inv(b))


def _isqrt(n):
  r = math.isqrt(n)
  return r if r * r == n else None


def sqrt(a):
  a = merge_exp(canon(num(a)))
  if not is_sym(a):
    if _isf(a):
      return a if a > 0 else nan()
    f = Fraction(a)
    if f < 0:
      return nan()
    n, d = _isqrt(f.numerator), _isqrt(f.denominator)
    if n is not None and d is not None:
      return Fraction(n, d)
    # sqrt(n/d) = sqrt(n*d)/d with the square part pulled out
    k, r, sq = f.numerator * f.denominator, 1, 2
    if k < 10 ** 9:
      while sq * sq <= k:
        while k % (sq * sq) == 0:
          k //= sq * sq
          r *= sq
        sq += 1
    at = atom('sqrt', (Fraction(k),))
    if not at.axioms:
      at.axioms += [at.const > 0, at.const * at.const == toz(Fraction(k))]
    return mul(Fraction(r, f.denominator), at.const)
  if z3.is_int(a):
    a = canon(z3.ToReal(a))
  p = to_poly(a)
  if len(p) == 1:
    (m, c), = p.items()
    if c > 0 and c != 1:
      return mul(sqrt(c), sqrt(from_poly({m: Fraction(1)})))
    # sqrt(exp(x)) = exp(x/2)
    if c == 1 and len(m) == 1 and m[0][1] == 1:
      x = _exp_arg(m[0][0])
      if x is not None:
        return exp(mul(x, Fraction(1, 2)))
    # sqrt(inv(x)) = inv(sqrt(x))
    if len(m) == 1 and m[0][1] == 1:
      at = T.by_id.get(m[0][0])
      if c == 1 and at is not None and at.fn == 'inv':
        return inv(sqrt(at.args[0]))
  at = atom('sqrt', (a,))
  if not at.axioms:
    z = toz(a, True)
    at.axioms += [at.const >= 0,
                  z3.Implies(z >= 0, at.const * at.const == z)]
  return at.const


def exp(a):
  a = canon(num(a))
  if not is_sym(a):
    if _isf(a):
      return INF if a > 0 else Fraction(0)
    if a == 0:
      return Fraction(1)
  else:
    at = T.by_id.get(a.get_id())
    if at is not None and at.fn == 'log':
      return at.args[0]  # domain: argument positive
    p = to_poly(a)
    if len(p) == 1:
      (m, c), = p.items()
      if c < 0:
        return inv(exp(neg(a)))
    if len(p) > 1 and all(c < 0 for c in p.values()):
      return inv(exp(neg(a)))
  at = atom('exp', (a,))
  T.has_exp = True
  if not at.axioms:
    z = toz(a, True)
    at.axioms += [at.const > 0, z3.Implies(z >= 0, at.const >= 1),
                  z3.Implies(z <= 0, at.const <= 1)]
  return at.const


def log(a):
  a = canon(num(a))
  if not is_sym(a):
    if _isf(a):
      return a if a > 0 else nan()
    if a == 1:
      return Fraction(0)
    if a == 0:
      return -INF
    if a < 0:
      return nan()
  else:
    at = T.by_id.get(a.get_id())
    if at is not None and at.fn == 'exp':
      return at.args[0] if is_sym(at.args[0]) else Fraction(at.args[0])
    if at is not None and at.fn == 'inv':
      return neg(log(at.args[0]))
  at = atom('log', (a,))
  if not at.axioms:
    z = toz(a, True)
    at.axioms += [z3.Implies(z >= 1, at.const >= 0),
                  z3.Implies(z3.And(z > 0, z <= 1), at.const <= 0),
                  z3.Implies(z > 0, at.const <= z - 1)]
  return at.const


def ipow(a, n):
  if n < 0:
    return inv(ipow(a, -n))
  r = Fraction(1) if is_real(a) else 1
  for _ in range(n):
    r = mul(r, a)
  return r


def power(a, b):
  a, b = canon(num(a)), canon(num(b))
  if not is_sym(b) and not _isf(b):
    f = Fraction(b)
    if f.denominator == 1 and abs(f.numerator) <= 16:
      return ipow(a, f.numerator)
    if f.denominator == 2 and abs(f.numerator) <= 8:
      return ipow(sqrt(a), f.numerator)
    if f.denominator <= 4 and abs(f.numerator) <= 8 and is_real(a):
      r = atom('root', (a, f.denominator))
      if not r.axioms:
        z = toz(a, True)
        r.axioms += [z3.Implies(z >= 0, z3.And(
          r.const >= 0,
          z3.Product([r.const] * f.denominator) == z))]
      return ipow(r.const, f.numerator)
  if not is_sym(a) and a == 1:
    return Fraction(1)
  # canonical sign of the exponent
  if is_sym(b):
    p = to_poly(b)
    lead = p[min(p)]
    if lead < 0:
      return inv(power(a, neg(b)))
  elif b < 0:
    return inv(power(a, -b))
  at = atom('pow', (a, b))
  if not at.axioms:
    za, zb = toz(a, True), toz(b, True)
    at.axioms += [z3.Implies(za > 0, at.const > 0),
                  z3.Implies(z3.And(za > 0, zb == 0), at.const == 1),
                  z3.Implies(z3.And(za > 0, zb == 1), at.const == za),
                  z3.Implies(za == 1, at.const == 1)]
  return at.const


def uf(name, args, sort='real'):
  return atom('uf:' + name, args, sort).const


def _inf_split(x):
  """If(c, x, y) with an infinite branch -> (c, x, y), otherwise None"""
  if is_sym(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
    c, u, v = x.children()
    iu, iv = _is_inf(u), _is_inf(v)
    if iu or iv:
      return c, INF if iu else u, INF if iv else v
  return None


def _is_inf(x):
  return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
      x.decl().name() == '!INF'


def _split_inf(f, a, b):
  s = _inf_split(a)
  if s:
    return ite(s[0], f(s[1], b), f(s[2], b))
  s = _inf_split(b)
  if s:
    return ite(s[0], f(a, s[1]), f(a, s[2]))
  return None


def lt(a, b):
  a, b = num(a), num(b)
  s = _split_inf(lt, a, b)
  if s is not None:
    return s
  if not is_sym(a) and not is_sym(b):
    return bool(a < b)
  if _isf(a):
    return a < 0
  if _isf(b):
    return b > 0
  return light(toz(a) < toz(b))


def le(a, b):
  a, b = num(a), num(b)
  s = _split_inf(le, a, b)
  if s is not None:
    return s
  if not is_sym(a) and not is_sym(b):
    return bool(a <= b)
  if _isf(a):
    return a < 0
  if _isf(b):
    return b > 0
  return light(toz(a) <= toz(b))


def eq(a, b):
  if not is_sym(a) and not is_sym(b):
    return bool(a == b)
  if (isinstance(a, bool) or (is_sym(a) and z3.is_bool(a))) and (
      isinstance(b, bool) or (is_sym(b) and z3.is_bool(b))):
    return light(toz(a) == toz(b))
  a, b = num(a), num(b)
  if _isf(a) or _isf(b):
    return False
  return light(toz(a) == toz(b))


def not_(a):
  if isinstance(a, bool):
    return a
  return z3.Not(a)


def lnot(a):
  if not is_sym(a):
    return not a
  return light(z3.Not(a))


def land(a, b):
  if not is_sym(a):
    return b if a else False
  if not is_sym(b):
    return a if b else False
  return light(z3.And(a, b))


def lor(a, b):
  if not is_sym(a):
    return True if a else b
  if not is_sym(b):
    return True if b else a
  return light(z3.Or(a, b))


def implies(a, b):
  return lor(lnot(a), b)


def ite(c, a, b):
  if not is_sym(c):
    return a if c else b
  if a is b:
    return a
  if not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b:
    return a
  if isinstance(a, bool) and isinstance(b, bool):
    return c if a else lnot(c)
  ba = isinstance(a, bool) or (is_sym(a) and z3.is_bool(a))
  bb = isinstance(b, bool) or (is_sym(b) and z3.is_bool(b))
  if ba and bb:
    return light(z3.If(c, toz(a), toz(b)))
  a, b = num(a), num(b)
  real = is_real(a) or is_real(b)
  za, zb = toz(a, real), toz(b, real)
  if za.eq(zb):
    return a
  return z3.If(c, za, zb)


def minimum(a, b):
  if not is_sym(a) and not is_sym(b):
    return min(a, b)
  return ite(le(a, b), a, b)


def maximum(a, b):
  if not is_sym(a) and not is_sym(b):
    return max(a, b)
  return ite(le(b, a), a, b)


def floor_(a):
  """floor of a real, as an integer-valued real"""
  if not is_sym(a):
    return a if _isf(a) else Fraction(math.floor(a))
  return z3.ToReal(z3.ToInt(toz(a, True)))


def trunc_int(a):
  """C-style truncation real -> int"""
  a = num(a)
  if not is_sym(a):
    return 0 if _isf(a) else int(a)
  if z3.is_int(a):
    return a
  s = as_py(z3.simplify(a))
  if not is_sym(s):
    return int(s)
  if z3.is_to_real(s):
    return s.arg(0)
  return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def idiv(a, b):
  """C-style truncating integer division"""
  a, b = num(a), num(b)
  if not is_sym(a) and not is_sym(b):
    if b == 0:
      return -1
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q
  za, zb = toz(a), toz(b)
  q = z3.If(za >= 0, za, -za) / z3.If(zb >= 0, zb, -zb)
  return light(z3.If((za >= 0) == (zb >= 0), q, -q))


def irem(a, b):
  """C-style remainder (sign of the dividend)"""
  a, b = num(a), num(b)
  if not is_sym(a) and not is_sym(b):
    if isinstance(a, Fraction) or isinstance(b, Fraction):
      return a - b * int(a / b)
    return a - b * idiv(a, b) if b != 0 else a
  if is_real(a) or is_real(b):
    q = trunc_int(div(a, b))
    return sub(a, mul(b, q))
  za, zb = toz(a), toz(b)
  ab = z3.If(zb >= 0, zb, -zb)
  return light(z3.If(za >= 0, za % ab, -((-za) % ab)))


def to_real(a):
  a = num(a)
  if not is_sym(a):
    return a if isinstance(a, (float, Fraction)) else Fraction(a)
  return z3.ToReal(a) if z3.is_int(a) else a


# -- queries -----------------------------------------------------------------

def _consts(exprs):
  seen, out, todo = set(), {}, list(exprs)
  while todo:
    e = todo.pop()
    i = e.get_id()
    if i in seen:
      continue
    seen.add(i)
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
      out[i] = e
    todo.extend(e.children())
  return out


def size(e, limit=200):
  """Number of nodes of the term (as a DAG), at most limit"""
  seen, todo = set(), [e]
  while todo and len(seen) < limit:
    x = todo.pop()
    if x.get_id() not in seen:
      seen.add(x.get_id())
      todo.extend(x.children())
  return len(seen)


def closure(exprs):
  """Atoms occurring (transitively) in exprs."""
  found, order, todo = {}, [], list(exprs)
  while todo:
    cs = _consts(todo)
    todo = []
    for i in cs:
      at = T.by_id.get(i)
      if at is not None and i not in found:
        found[i] = at
        order.append(at)
        todo += [a for a in at.args if is_sym(a)]
        todo += at.axioms
  return order


def link_axioms(atoms):
  """exp/log monotonicity couplings between the atoms of a query."""
  logs = [a for a in atoms if a.fn == 'log']
  exps = [a for a in atoms if a.fn == 'exp']
  out = []
  for L in logs:
    u = toz(L.args[0], True)
    for E in exps:
      x = toz(E.args[0], True)
      out.append(z3.Implies(u > 0, z3.And((L.const < x) == (u < E.const),
                                          (L.const == x) == (u == E.const))))
  for grp in (logs, exps):
    for i, A in enumerate(grp):
      for B in grp[:i]:
        a, b = toz(A.args[0], True), toz(B.args[0], True)
        pos = z3.And(a > 0, b > 0) if grp is logs else z3.BoolVal(True)
        out.append(z3.Implies(pos, (a < b) == (A.const < B.const)))
        out.append(z3.Implies(a == b, A.const == B.const))
  pows = [a for a in atoms if a.fn == 'pow']
  for i, A in enumerate(pows):
    a, k = toz(A.args[0], True), toz(A.args[1], True)
    out.append(z3.Implies(z3.And(a > 0, k > 0), z3.And((a < 1) == (A.const < 1),
                                                       (a == 1) == (A.const == 1))))
    for B in pows[:i]:
      if not toz(B.args[1], True).eq(k):
        continue
      b = toz(B.args[0], True)
      out.append(z3.Implies(z3.And(a > 0, b > 0, k > 0), z3.And(
        (a < b) == (A.const < B.const), (a == b) == (A.const == B.const))))
  sq = [a for a in atoms if a.fn == 'sqrt']
  for i, A in enumerate(sq):
    for B in sq[:i]:
      a, b = toz(A.args[0], True), toz(B.args[0], True)
      out.append(z3.Implies(a == b, A.const == B.const))
  return out


_INFC = None


def _check(exprs, timeout_ms, tactics=('smt', 'nlsat')):
  """One satisfiability query, returns (result, model)."""
  res = z3.unknown
  for tac in tactics:
    t0 = time.time()
    if tac == 'nlsat':
      try:
        s = z3.Then('simplify', 'purify-arith', 'elim-term-ite', 'solve-eqs',
                    'tseitin-cnf', 'simplify', 'qfnra-nlsat').solver()
      except z3.Z3Exception:
        continue
    else:
      s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(*exprs)
    try:
      res = s.check()
    except z3.Z3Exception:
      res = z3.unknown
    STATS.solver_s += time.time() - t0
    if res != z3.unknown:
      return res, (s.model() if res == z3.sat else None)
  return res, None


def _val(m, e):
  v = m.eval(e, model_completion=True)
  return v


def solve(exprs, timeout_ms=10000, max_refine=30, tactics=('smt', 'nlsat')):
  """sat/unsat of a conjunction modulo axioms; lazily adds congruence."""
  exprs = [toz(e) for e in exprs]
  atoms = closure(exprs)
  base = list(exprs)
  for a in atoms:
    base += a.axioms
  if not _linear_only(atoms):
    base += link_axioms(atoms)
  # axioms may mention new atoms
  more = closure(base)
  if len(more) > len(atoms):
    have = {id(a) for a in atoms}
    for a in more:
      if id(a) not in have:
        base += a.axioms
    atoms = more
  groups = {}
  for a in atoms:
    if a.args:
      groups.setdefault((a.fn, len(a.args)), []).append(a)
  done = set()
  for _ in range(max_refine):
    res, m = _check(base, timeout_ms, tactics)
    if res != z3.sat:
      return res, m
    new = []
    for g in groups.values():
      if len(g) < 2:
        continue
      vals = {}
      for a in g:
        k = tuple(str(_val(m, toz(x))) if is_sym(x) else str(x)
                  for x in a.args)
        vals.setdefault(k, []).append(a)
      for same in vals.values():
        for i in range(1, len(same)):
          a, b = same[0], same[i]
          if (id(a), id(b)) in done:
            continue
          va, vb = _val(m, a.const), _val(m, b.const)
          if str(va) != str(vb):
            done.add((id(a), id(b)))
            prem = [toz(x) == toz(y) for x, y in zip(a.args, b.args)
                    if is_sym(x) or is_sym(y)]
            new.append(z3.Implies(z3.And(*prem) if prem else z3.BoolVal(True),
                                  a.const == b.const))
    if not new:
      return res, m
    base += new
  return z3.unknown, None


def _linear_only(atoms):
  return not any(a.fn in ('exp', 'log', 'sqrt', 'pow') for a in atoms)


REWRITES = []


def rewrite(a, b):
  """On this path a equals b: replace the leading monomial of a in proofs."""
  a, b = canon(a), canon(b)
  if not is_sym(a):
    return
  p = expand(to_poly(a))
  used = {m for m, _ in REWRITES}
  for m in sorted(p, key=lambda m: (-len(m), -sum(k for _, k in m), m)):
    if m and m not in used:
      rest = {k: -c / p[m] for k, c in p.items() if k != m}
      for k, c in expand(to_poly(b)).items():
        rest[k] = rest.get(k, 0) + c / p[m]
      REWRITES.append((m, {k: c for k, c in rest.items() if c != 0}))
      return


def expand(p):
  """Multiplies out sums which occur as factors."""
  for _ in range(200):
    hit = None
    for m in p:
      for i, k in m:
        e = _LEAF.get(i)
        if e is not None and (z3.is_add(e) or z3.is_mul(e)
                              or e.decl().kind() == z3.Z3_OP_POWER):
          hit = (m, i, k)
          break
      if hit:
        break
    if hit is None:
      return p
    m, i, k = hit
    p = dict(p)
    c = p.pop(m)
    q = {tuple(x for x in m if x[0] != i): c}
    f = to_poly(_LEAF[i])
    if f == {((i, 1),): 1}:
      return p | {m: c}
    for _ in range(k):
      q = poly_mul(q, f)
    for m2, c2 in q.items():
      p[m2] = p.get(m2, 0) + c2
      if p[m2] == 0:
        del p[m2]
  return p


def reduce_(p):
  """Applies the equations of the path (decompositions of matrices)."""
  for _ in range(300):
    hit = None
    for m in p:
      d = dict(m)
      for lead, rep in REWRITES:
        if all(d.get(i, 0) >= k for i, k in lead):
          hit = (m, lead, rep)
          break
      if hit:
        break
    if hit is None:
      return p
    m, lead, rep = hit
    p = dict(p)
    c = p.pop(m)
    d = dict(m)
    for i, k in lead:
      d[i] -= k
      if not d[i]:
        del d[i]
    for m2, c2 in poly_mul({tuple(sorted(d.items())): c}, rep).items():
      p[m2] = p.get(m2, 0) + c2
      if p[m2] == 0:
        del p[m2]
  return p


def _clear(p):
  """Clear inverses and squares of roots in a polynomial.

  Returns (poly, [terms that must be non-zero/non-negative]).
  """
  side = []
  for _ in range(40):
    target = None
    for m in p:
      for i, k in m:
        at = T.by_id.get(i)
        if at is None:
          continue
        if at.fn == 'inv':
          target = (i, at)
          break
        if at.fn == 'sqrt' and k >= 2:
          target = (i, at)
          break
      if target:
        break
    if target is None:
      return p, side
    i, at = target
    t = to_poly(at.args[0])
    if at.fn == 'inv':
      deg = max(dict(m).get(i, 0) for m in p)
      side.append(('nz', at.args[0]))
      tp = [{(): Fraction(1)}]
      for _ in range(deg):
        tp.append(poly_mul(tp[-1], t))
      out = {}
      for m, c in p.items():
        d = dict(m)
        k = d.pop(i, 0)
        for m2, c2 in poly_mul({tuple(sorted(d.items())): c},
                               tp[deg - k]).items():
          out[m2] = out.get(m2, 0) + c2
          if out[m2] == 0:
            del out[m2]
      p = out
    else:
      side.append(('ge', at.args[0]))
      out = {}
      for m, c in p.items():
        d = dict(m)
        k = d.pop(i, 0)
        q = {tuple(sorted(d.items())): c}
        for _ in range(k // 2):
          q = poly_mul(q, t)
        if k % 2:
          q = poly_mul(q, {((i, 1),): Fraction(1)})
        for m2, c2 in q.items():
          out[m2] = out.get(m2, 0) + c2
          if out[m2] == 0:
            del out[m2]
      p = out
  return p, side


def merge_roots(p):
  """sqrt(a) sqrt(b) = sqrt(a b) for non-negative a and b."""
  side, out = [], {}
  for m, c in p.items():
    roots = [i for i, k in m if k == 1 and i in T.by_id and T.by_id[i].fn == 'sqrt']
    if len(roots) < 2:
      q = {m: c}
    else:
      arg = {(): Fraction(1)}
      for i in roots:
        a = T.by_id[i].args[0]
        side.append(('ge', a))
        arg = poly_mul(arg, to_poly(a))
      q = poly_mul({tuple(x for x in m if x[0] not in roots): c},
                   to_poly(sqrt(from_poly(arg))))
    for n, v in q.items():
      out[n] = out.get(n, 0) + v
      if out[n] == 0:
        del out[n]
  return out, side


def _ite_conds(e):
  seen, todo, out = set(), [e], []
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(x):
      out.append(x.arg(0))
    todo.extend(x.children())
  return out


_SIDE = {}


def relevant(goal, assumptions):
  """Assumptions connected to the goal through shared constants."""
  def cs(e):
    k = _CS.get(e.get_id())
    if k is None or not k[0].eq(e):
      ids = set(_consts([e]))
      ids |= {i for a in closure([e]) for x in a.args if is_sym(x)
              for i in _consts([x])}
      k = _CS[e.get_id()] = (e, ids)
    return k[1]
  ass = [toz(a) for a in assumptions if is_sym(a)]
  have = set(cs(goal))
  picked, rest = [], ass
  while True:
    new = [a for a in rest if cs(a) & have]
    if not new:
      return picked
    rest = [a for a in rest if not cs(a) & have]
    for a in new:
      have |= cs(a)
    picked += new


_CS = {}


def _side(c, assumptions, timeout_ms):
  """Side condition c holds under the assumptions (cached)."""
  ass = relevant(c, assumptions)
  key = (c.get_id(), tuple(sorted(a.get_id() for a in ass)))
  if key in _SIDE:
    return _SIDE[key][1]
  STATS.feas_queries += 1
  small = [a for a in ass if len(_consts([a])) <= 2]
  r = z3.unknown
  for sub, ms, tac in ((small, 1000, ('nlsat',)), (ass, 1000, ('nlsat',)),
                       (small, 2000, ('smt',)), (ass, timeout_ms, ('smt', 'nlsat'))):
    r, _ = solve(sub + [z3.Not(c)], ms, tactics=tac)
    if r == z3.unsat:
      break
  _SIDE[key] = (c, r == z3.unsat, ass)
  return r == z3.unsat


def prove(goal, assumptions, timeout_ms=20000, _depth=0):
  """Decide validity of goal under assumptions.

  Returns ('proved'|'refuted'|'unknown', model).
  """
  if _depth == 0:
    STATS.queries += 1
  goal = canon(goal)
  if not is_sym(goal):
    if goal:
      if _depth == 0:
        STATS.trivial += 1
        STATS.unsat += 1
      return 'proved', None
  # algebraic preprocessing of real equalities
  if is_sym(goal) and z3.is_eq(goal) and z3.is_real(goal.arg(0)):
    diff = canon(goal.arg(0) - goal.arg(1))
    if not is_sym(diff):
      if diff == 0:
        if _depth == 0:
          STATS.trivial += 1
          STATS.unsat += 1
        return 'proved', None
    else:
      conds = _ite_conds(diff)
      if conds and _depth < 8:
        c = conds[0]
        verdict = 'proved'
        for val, cc in ((True, c), (False, z3.Not(c))):
          ass = list(assumptions) + [cc]
          r, _ = solve(ass, 3000)
          STATS.feas_queries += 1
          if r == z3.unsat:
            continue
          d2 = z3.substitute(diff, (c, z3.BoolVal(val)))
          r, m = prove(z3.simplify(d2, som=True, som_blowup=1000000, sort_sums=True) == 0, ass, timeout_ms, _depth + 1)
          if r == 'refuted':
            if _depth == 0:
              STATS.sat += 1
            return r, m
          if r == 'unknown':
            verdict = 'unknown'
        if verdict == 'proved' and _depth == 0:
          STATS.unsat += 1
        elif _depth == 0:
          STATS.unknown += 1
        if verdict == 'proved':
          return verdict, None
      p, side = _clear(merge_poly(to_poly(diff)))
      if p and T.has_exp:
        p = merge_poly(expand(p))
      if p:
        q, more = merge_roots(expand(p))
        if more:
          p, more2 = _clear(merge_poly(q))
          side += more + more2
      if p and REWRITES:
        p = expand(p)
        for _ in range(3):
          p, more = _clear(reduce_(p))
          side += more
      if not p and side:
        ok = True
        seen = set()
        for kind, t in side:
          z = toz(t, True)
          if (kind, z.get_id()) in seen:
            continue
          seen.add((kind, z.get_id()))
          c = z != 0 if kind == 'nz' else z >= 0
          if not _side(c, assumptions, timeout_ms):
            ok = False
            break
        if ok:
          if _depth == 0:
            STATS.unsat += 1
          return 'proved', None
  r, m = solve(list(assumptions) + [z3.Not(toz(goal))], timeout_ms)
  if r == z3.unsat:
    if _depth == 0:
      STATS.unsat += 1
    return 'proved', None
  if r == z3.sat:
    if _depth == 0:
      STATS.sat += 1
    return 'refuted', m
  if _depth == 0:
    STATS.unknown += 1
  return 'unknown', None


def model_value(m, e):
  """python number of a z3 term in a model"""
  v = m.eval(toz(e), model_completion=True)
  p = as_py(v)
  if not is_sym(p):
    return p
  if z3.is_algebraic_value(v):
    a = v.approx(20)
    return Fraction(a.numerator_as_long(), a.denominator_as_long())
  return None
