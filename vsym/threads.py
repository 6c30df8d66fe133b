"""Host callbacks that run in several threads, preempted at every line.

The schedule is a solver choice: before every line of jax_sgmc that a thread executes,
the scheduler may switch to another thread (a bounded number of times). Locks created
by jax_sgmc are replaced by locks which the scheduler knows.
"""
import contextlib
import os
import sys
import threading

from jax._src import callback as jcallback

from . import trace, stubs
from .engine import Unsupported

REAL = threading
LOCKS = (type(threading.Lock()), type(threading.RLock()))


class Stop(BaseException):
  """Ends a thread which is no longer needed."""


class Captured(Exception):
  def __init__(self, fn, args):
    super().__init__('captured host callback')
    self.fn, self.args = fn, args


# -- interception of host callbacks ------------------------------------------

_IMPL = jcallback.io_callback_p.impl


def _impl(*args, callback, **params):
  hook = trace.CALLBACK_HOOK[0]
  if hook is None:
    return _IMPL(*args, callback=callback, **params)
  return hook(callback, args)


jcallback.io_callback_p.def_impl(_impl)


@contextlib.contextmanager
def callbacks(hook):
  old, trace.CALLBACK_HOOK[0] = trace.CALLBACK_HOOK[0], hook
  try:
    yield
  finally:
    trace.CALLBACK_HOOK[0] = old


class Program:
  """A program whose host callbacks are executed by others, one after the other."""

  def __init__(self, f):
    self.f, self.known, self.result = f, [], None
    self.advance()

  def advance(self):
    left = list(self.known)
    got = []

    def hook(fn, args):
      if left:
        return left.pop(0)
      got.append((fn, args))
      raise Captured(fn, args)
    self.pending = None
    with callbacks(hook):
      try:
        self.result = self.f()
      except Exception:  # pylint: disable=broad-except
        if not got:
          raise
        self.pending = got[0]

  def job(self):
    return self.pending[0](*self.pending[1])

  def give(self, result):
    self.known.append(result)
    self.advance()

  def proceed(self):
    if self.pending:
      self.give(self.job())


# -- scheduler ---------------------------------------------------------------

class Scheduler:
  def __init__(self, h, repo, preemptions):
    self.h, self.repo, self.left = h, os.path.abspath(repo), preemptions
    self.main = REAL.Semaphore(0)
    self.threads, self.current, self.stopping = [], None, False

  # locks as seen by jax_sgmc
  def lock_class(outer):  # pylint: disable=no-self-argument
    class Lock:
      def __init__(self):
        self.owner, self.count = None, 0
      reentrant = False

      def acquire(self, blocking=True, timeout=-1):
        me = outer.current or 'main'
        while self.owner is not None and not (self.reentrant and self.owner is me):
          if not blocking:
            return False
          if outer.current is None:
            raise RuntimeError('deadlock: lock is held by a finished thread')
          me.blocked = self
          outer.switch()
        me_blocked = outer.current
        if me_blocked is not None:
          me_blocked.blocked = None
        self.owner, self.count = me, self.count + 1
        return True

      def release(self):
        if self.owner is None:
          raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
          self.owner = None

      def locked(self):
        return self.owner is not None

      def __enter__(self):
        return self.acquire()

      def __exit__(self, *a):
        self.release()
    return Lock

  def switch(self):
    """Called by a thread: hands control to the scheduler."""
    me = self.current
    self.main.release()
    me.sem.acquire()
    if self.stopping:
      raise Stop()

  def on_main(self, f):
    """Called by a thread: lets the main thread run f at once."""
    me = self.current
    if me is None:
      return f()
    me.request = f
    self.switch()
    ok, res = me.answer
    if not ok:
      raise res
    return res

  def tracer(self, frame, event, arg):
    # the functions of util work on values of the caller only
    name = frame.f_code.co_filename
    if not name.startswith(self.repo) or name.startswith(self.repo + '/util/'):
      return None

    def local(frame, event, arg):
      if event == 'line':
        self.switch()
      return local
    return local

  def body(self, t, f):
    t.sem.acquire()
    try:
      if not self.stopping:
        sys.settrace(self.tracer)
        t.result = f()
    except Stop:
      pass
    except BaseException as e:  # pylint: disable=broad-except
      t.error = e
    finally:
      sys.settrace(None)
      t.done = True
      self.main.release()

  def run(self, jobs):
    """Runs the jobs concurrently; returns their results and errors."""
    h = self.h

    class T:
      pass
    for f in jobs:
      t = T()
      t.sem, t.done, t.blocked, t.request = REAL.Semaphore(0), False, None, None
      t.result = t.error = None
      t.thread = REAL.Thread(target=self.body, args=(t, f), daemon=True)
      self.threads.append(t)
      t.thread.start()
    cur, step, new = None, 0, list(self.threads)
    try:
      while not all(t.done for t in self.threads):
        ready = [t for t in self.threads if not t.done and (
          t.blocked is None or t.blocked.owner is None)]
        if not ready:
          return 'deadlock'
        # threads which did not start are alike
        options = [t for t in ready if t not in new] + [t for t in ready if t in new][:1]
        if cur in ready:
          others = [t for t in options if t is not cur]
          if self.left > 0 and others and cur.request is None:
            k = h.pick(f"switch{step}", list(range(len(others) + 1)))
            if k:
              cur = others[k - 1]
              self.left -= 1
        else:
          cur = options[h.pick(f"next{step}", list(range(len(options))))] \
              if len(options) > 1 else options[0]
        step += 1
        if step > 2000:
          raise Unsupported('threads do not end')
        if cur in new:
          new.remove(cur)
        if cur.request is not None:
          f, cur.request = cur.request, None
          self.current = None
          try:
            cur.answer = True, f()
          except Exception as e:  # pylint: disable=broad-except
            cur.answer = False, e
        self.current = cur
        cur.sem.release()
        if not self.main.acquire(timeout=20):
          raise Unsupported('a thread hangs (unknown lock)')
        self.current = None
      return [(t.result, t.error) for t in self.threads]
    finally:
      self.current = None
      self.stopping = True
      for t in self.threads:
        t.sem.release()
      for t in self.threads:
        t.thread.join(1)
      self.threads, self.stopping = [], False


@contextlib.contextmanager
def locks(sched, *modules):
  """Replaces the locks of the modules, and of objects they hold."""
  plain = sched.lock_class()

  class RLock(plain):
    reentrant = True

  class NS:
    def __getattr__(self, name):
      return getattr(REAL, name)
  ns = NS()
  ns.Lock, ns.RLock = plain, RLock
  saved = []

  def put(obj, name, new):
    saved.append((obj, name, getattr(obj, name)))
    setattr(obj, name, new)

  def replace(obj, name, v):
    if v is REAL:
      put(obj, name, ns)
    elif v is REAL.Lock or v is REAL.RLock:
      put(obj, name, plain if v is REAL.Lock else RLock)
    elif isinstance(v, LOCKS):
      put(obj, name, (plain if isinstance(v, LOCKS[0]) else RLock)())
  try:
    for m in modules:
      for name, v in list(vars(m).items()):
        replace(m, name, v)
        if getattr(type(v), '__module__', '').startswith('jax_sgmc') and hasattr(
            v, '__dict__'):
          for k, w in list(vars(v).items()):
            replace(v, k, w)
    yield
  finally:
    for obj, name, v in reversed(saved):
      setattr(obj, name, v)
