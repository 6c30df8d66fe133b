"""Path exploration: forking on symbolic decisions by re-execution."""
from . import terms as t
from .terms import z3


class PathAbort(BaseException):
  """The current path is infeasible or was cut."""


class Budget(Exception):
  """Exploration bound exceeded (the run is then incomplete)."""


class Unsupported(Exception):
  """The code under analysis used an operation that cannot be encoded."""


class Engine:
  def __init__(self, max_paths=4000):
    self.max_paths = max_paths
    self.pc = []
    self.prefix = []
    self.trail = []
    self.stack = []
    self.paths = 0
    self.decisions = 0
    self.assumed = []
    self.forked = {}

  # -- queries used by the executing code ---------------------------------
  def assume(self, c):
    c = t.canon(c)
    if not t.is_sym(c):
      if not c:
        raise PathAbort()
      return
    self.pc.append(c)

  def feasible(self, c):
    t.STATS.feas_queries += 1
    lin = [x for x in self.pc] + [t.toz(c)]
    r, _ = t.solve(lin, 2000, tactics=('smt',))
    return r != z3.unsat

  def possible(self, c):
    """-> whether c and whether its negation can hold on this path.

    The path is feasible, so that one of them is.  Cheap sufficient tests go first.
    """
    n = z3.Not(c)
    ids = {x.get_id() for x in self.pc}
    if c.get_id() in ids:
      return True, False
    if n.get_id() in ids or (z3.is_not(c) and c.arg(0).get_id() in ids):
      return False, True
    small = [x for x in self.pc if t.size(x) <= 60]
    if t.size(c) <= 60 and len(small) < len(self.pc):
      near = t.relevant(c, small)
      for x, res in ((n, (True, False)), (c, (False, True))):
        t.STATS.feas_queries += 1
        r, _ = t.solve(near + [x], 1000, tactics=('smt',))
        if r == z3.unsat:
          return res
    can_t = self.feasible(c)
    return can_t, self.feasible(n) if can_t else True

  def decide(self, c):
    """Truth value of c on the current path (forks when both are possible)."""
    c = t.canon(c)
    if not t.is_sym(c):
      return bool(c)
    if not z3.is_bool(c):
      c = c != 0
    k = len(self.trail)
    if k < len(self.prefix):
      v = self.prefix[k]
    else:
      can_t, can_f = self.possible(c)
      if can_t and can_f:
        self.stack.append(self.prefix[:0] + self.trail + [False])
        v = True
        self.decisions += 1
      else:
        v = can_t
    self.trail.append(v)
    self.pc.append(c if v else z3.Not(c))
    return v

  def fork(self, var, n):
    """Value of a fresh variable of the range 0..n-1 (explores all, no query needed)."""
    key = var.get_id()
    if key in self.forked:
      return self.forked[key]
    k = len(self.trail)
    if k < len(self.prefix):
      v = self.prefix[k]
    else:
      v = 0
      for other in range(n - 1, 0, -1):
        self.stack.append(self.trail + [other])
      self.decisions += n - 1
    self.forked[key] = v
    self.trail.append(v)
    self.pc.append(var == v)
    return v

  def concretize(self, e):
    """A concrete integer for e on this path (forks over all values)."""
    e = t.canon(e)
    if not t.is_sym(e):
      return e
    if z3.is_bool(e):
      return self.decide(e)
    for _ in range(200):
      # the candidate order must be deterministic for re-execution
      k = len(self.trail)
      r, m = t.solve(self.pc, 5000, tactics=('smt',))
      if r == z3.unsat:
        raise PathAbort()
      if m is None:
        small = [x for x in self.pc if t.size(x) <= 60]
        r, m = t.solve(t.relevant(e, small), 5000, tactics=('smt',))
      if m is None:
        raise Unsupported(f"cannot enumerate values of {e}")
      v = self._least(e, m)
      if self.decide(t.eq(e, v)):
        return v
    raise Budget("too many values while concretising an index")

  def _least(self, e, m):
    v = t.model_value(m, e)
    # walk down to the least feasible value, so that re-execution is stable
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*[t.toz(x) for x in self.pc])
    for _ in range(200):
      s.push()
      s.add(e < t.toz(v))
      r = s.check()
      if r == z3.sat:
        nv = t.as_py(s.model().eval(e, model_completion=True))
        s.pop()
        v = nv
      else:
        s.pop()
        break
    return v

  # -- driver --------------------------------------------------------------
  def explore(self, fn):
    """Runs fn() once per feasible path."""
    self.stack = [[]]
    while self.stack:
      self.prefix = self.stack.pop()
      self.trail = []
      self.pc = []
      self.forked = {}
      del t.REWRITES[:]
      self.paths += 1
      if self.paths > self.max_paths:
        raise Budget(f"more than {self.max_paths} paths")
      try:
        fn()
      except PathAbort:
        continue
