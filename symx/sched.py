"""A cooperative scheduler behind threading/queue/concurrent.futures/time.

The real grain code runs on real OS threads, but only the thread that holds
the baton runs, and the baton changes hands only at the operations of these
primitives (optionally also at every source line of chosen files).  Which
thread continues at each of these points is a symbolic input `s<n>` of the
harness, so the exploration covers every schedule with at most `preempt`
preemptions (switches away from a thread that could have gone on); switches
that are forced because a thread blocks are free.  The primitives below are
models of the standard library's (atomic operations, no spurious wake-ups).
"""

import collections
import contextlib
import gc
import queue as _queue
import sys
import threading as _threading
import types

from symx import core

Empty, Full = _queue.Empty, _queue.Full


class Kill(BaseException):
  """Unwinds the remaining threads when the run is over."""


class CancelledError(Exception):
  pass


class BrokenSchedule(Exception):
  """Deadlock, or a thread that never stops."""


_S = None  # the installed scheduler

_hook = sys.unraisablehook
sys.unraisablehook = lambda a: None if a.exc_type is Kill else _hook(a)


class _T:

  def __init__(self, name):
    self.name = name
    self.sem = _threading.Semaphore(0)
    self.pred = None
    self.deadline = None
    self.timed_out = False
    self.done = False
    self.thread = None


class Sched:

  def __init__(self, ctx, preempt=0, free=True, lines=(), max_points=30000):
    self.ctx = ctx
    self.left = preempt
    self.free = free  # explore forced switches too
    self.lines = tuple(lines)
    self.main = _T("main")
    self.main.thread = _threading.current_thread()
    self.cur = self.main
    self.threads = [self.main]
    self.n = 0
    self.points = 0
    self.max_points = max_points
    self.now = 1000.0
    self.dead = False
    self.fatal = None
    self.uncaught = []
    self.log = []

  # -- choices
  def _ready(self, t):
    return not t.done and (t.pred is None or bool(t.pred()))

  def _choose(self, k):
    v = self.ctx.cint(f"s{self.n}", 0, k - 1)
    self.n += 1
    return v

  def ctx_over(self):
    return getattr(self.ctx, "failed", None) is not None

  def _check_dead(self):
    """True if operations must not block any more."""
    if not self.dead:
      return False
    me = _threading.current_thread()
    if any(t.thread is me for t in self.threads if t is not self.main):
      raise Kill()
    return True

  def point(self):
    """A place where another thread may take over."""
    if self._check_dead():
      return
    self._foreign()
    self.points += 1
    if self.points > self.max_points:
      raise BrokenSchedule("no progress: too many scheduling points")
    if self.left <= 0:
      return
    others = [t for t in self.threads if t is not self.cur and self._ready(t)]
    if not others:
      return
    k = self._choose(len(others) + 1)
    if k:
      self.left -= 1
      self._switch(others[k - 1])

  def _foreign(self):
    if self.cur.thread is not _threading.current_thread():
      raise RuntimeError("operation on a modelled primitive from an unknown thread")

  def wait(self, pred, timeout=None):
    """Blocks the current thread until pred(); False if it timed out."""
    if self._check_dead():
      return True
    self.point()
    me = self.cur
    if pred():
      return True
    if timeout is not None and timeout <= 0:
      return False
    me.pred, me.deadline, me.timed_out = pred, (None if timeout is None else self.now + float(timeout)), False
    while True:
      self.points += 1
      if self.points > self.max_points:
        me.pred = None
        raise BrokenSchedule("no progress: too many scheduling points")
      ready = [t for t in self.threads if self._ready(t)]
      nxt = None
      if ready:
        k = 0
        extra = 1 if (timeout is not None and self.left > 0 and me not in ready) else 0
        if len(ready) + extra > 1 and (self.free or extra):
          k = self._choose(len(ready) + extra)
        if k == len(ready):
          self.left -= 1
          self.now = max(self.now, me.deadline)
          me.timed_out = True
          nxt = me
        else:
          nxt = ready[k]
      else:
        timed = [t for t in self.threads if not t.done and t.deadline is not None and t.pred is not None]
        if not timed:
          me.pred = None
          raise BrokenSchedule("deadlock: " + ", ".join(f"{t.name} waits" for t in self.threads if not t.done))
        nxt = min(timed, key=lambda t: t.deadline)
        self.now = max(self.now, nxt.deadline)
        nxt.timed_out = True
      if nxt is not me:
        self._switch(nxt)
      if pred():
        me.pred = me.deadline = None
        return True
      if me.timed_out:
        me.pred = me.deadline = None
        return False

  def _switch(self, t):
    me = self.cur
    self.cur = t
    self.log.append(t.name)
    t.sem.release()
    me.sem.acquire()
    if self.dead and me is not self.main:
      raise Kill()
    if me is self.main and self.fatal is not None:
      f, self.fatal = self.fatal, None
      raise f
    self.cur = me

  # -- threads
  def spawn(self, fn, name):
    t = _T(name)

    def body():
      t.sem.acquire()
      if self.dead:
        t.done = True
        return
      self._trace_here()
      try:
        fn()
      except Kill:
        t.done = True
        return
      except (core.PathEnd, core.ConcreteFailure, BrokenSchedule) as e:
        self.fatal = e
      except BaseException as e:  # like threading.excepthook
        self.uncaught.append(e)
      finally:
        sys.settrace(None)
      t.done = True
      if self.dead:
        return
      self._finish(t)

    t.thread = _threading.Thread(target=body, daemon=True)
    self.threads.append(t)
    t.thread.start()
    return t

  def _finish(self, me):
    if self.fatal is not None:
      self.cur = self.main
      self.main.sem.release()
      return
    try:
      ready = [t for t in self.threads if self._ready(t)]
      if ready:
        k = self._choose(len(ready)) if self.free and len(ready) > 1 else 0
        nxt = ready[k]
      else:
        timed = [t for t in self.threads if not t.done and t.deadline is not None]
        if not timed:
          self.fatal = BrokenSchedule("deadlock: " + ", ".join(f"{t.name} waits" for t in self.threads if not t.done))
          nxt = self.main
        else:
          nxt = min(timed, key=lambda t: t.deadline)
          self.now = max(self.now, nxt.deadline)
          nxt.timed_out = True
    except BaseException as e:
      self.fatal = e
      nxt = self.main
    self.cur = nxt
    self.log.append(nxt.name)
    nxt.sem.release()

  def finish(self):
    self.dead = True
    for t in self.threads:
      if t is not self.main:
        t.sem.release()
    for t in self.threads:
      if t is not self.main and t.thread.is_alive():
        t.thread.join(5)

  def alive(self):
    return [t for t in self.threads if t is not self.main and not t.done]

  def run_others(self):
    """Lets every other thread run until it blocks or ends."""
    for _ in range(2000):
      others = [t for t in self.threads if t is not self.cur and self._ready(t)]
      if not others:
        return
      me = self.cur
      flag = [False]
      me.pred = lambda: flag[0] or not any(self._ready(t) for t in self.threads if t is not me)
      self._switch_and_wait(me, others[0])
      me.pred = None
    raise BrokenSchedule("a thread never blocks nor ends")

  def _switch_and_wait(self, me, t):
    self._switch(t)

  # -- line level switching
  def _trace_here(self):
    if self.lines:
      sys.settrace(self._tracer)

  def _tracer(self, frame, event, arg):
    f = frame.f_code.co_filename
    if any(f.endswith(x) for x in self.lines):
      return self._line
    return None

  def _line(self, frame, event, arg):
    if event == "line" and not self.dead and self.left > 0:
      sys.settrace(None)
      try:
        self.point()
      finally:
        sys.settrace(self._tracer)
    return self._line


# --------------------------------------------------------------------------
# threading
# --------------------------------------------------------------------------


class Thread:
  _n = 0

  def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
    self._s = _S
    Thread._n += 1
    self._target, self._args, self._kwargs = target, args, kwargs or {}
    self.name = name or f"Thread-{Thread._n}"
    self.daemon = bool(daemon)
    self._t = None

  def run(self):
    if self._target:
      self._target(*self._args, **self._kwargs)

  def start(self):
    if self._t is not None:
      raise RuntimeError("threads can only be started once")
    self._t = self._s.spawn(self.run, self.name)
    self._s.point()

  def is_alive(self):
    self._s.point()
    return self._t is not None and not self._t.done

  def join(self, timeout=None):
    if self._t is None:
      raise RuntimeError("cannot join thread before it is started")
    self._s.wait(lambda: self._t.done, timeout)

  @property
  def ident(self):
    return id(self._t) if self._t else None


class Lock:

  def __init__(self):
    self._s = _S
    self._held = False

  def acquire(self, blocking=True, timeout=-1):
    if not blocking:
      self._s.point()
      if self._held:
        return False
    elif not self._s.wait(lambda: not self._held, None if timeout is None or timeout < 0 else timeout):
      return False
    self._held = True
    return True

  def release(self):
    if not self._held and not self._s.dead and not self._s.ctx_over():
      raise RuntimeError("release unlocked lock")
    self._held = False
    self._s.point()

  def locked(self):
    return self._held

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *a):
    self.release()


class RLock:

  def __init__(self):
    self._s = _S
    self._owner, self._count = None, 0

  def acquire(self, blocking=True, timeout=-1):
    me = self._s.cur
    ok = lambda: self._owner is None or self._owner is me
    if not blocking:
      self._s.point()
      if not ok():
        return False
    elif not self._s.wait(ok, None if timeout is None or timeout < 0 else timeout):
      return False
    self._owner = me
    self._count += 1
    return True

  def release(self):
    if self._owner is not self._s.cur and not self._s.dead and not self._s.ctx_over():
      raise RuntimeError("cannot release un-acquired lock")
    self._count -= 1
    if self._count <= 0:
      self._owner, self._count = None, 0
    self._s.point()

  __enter__ = Lock.__enter__
  __exit__ = Lock.__exit__


class Condition:

  def __init__(self, lock=None):
    self._s = _S
    self._lock = lock or RLock()
    self.acquire, self.release = self._lock.acquire, self._lock.release
    self._waiters = []

  def __enter__(self):
    return self._lock.__enter__()

  def __exit__(self, *a):
    return self._lock.__exit__(*a)

  def wait(self, timeout=None):
    tk = [False]
    self._waiters.append(tk)
    saved = getattr(self._lock, "_count", None)
    if saved is not None:
      self._lock._count = 1
    self._lock.release()
    try:
      ok = self._s.wait(lambda: tk[0], timeout)
    except BaseException:  # the run is over: unwind as if the lock were held
      self._lock._held, self._lock._owner, self._lock._count = True, self._s.cur, saved or 1
      raise
    if tk in self._waiters:
      self._waiters.remove(tk)
    self._lock.acquire()
    if saved is not None:
      self._lock._count = saved
    return ok

  def wait_for(self, predicate, timeout=None):
    r = predicate()
    while not r:
      if not self.wait(timeout):
        return predicate()
      r = predicate()
    return r

  def notify(self, n=1):
    for tk in self._waiters[:n]:
      tk[0] = True
      self._waiters.remove(tk)

  def notify_all(self):
    self.notify(len(self._waiters))


class Event:

  def __init__(self):
    self._s = _S
    self._f = False

  def is_set(self):
    self._s.point()
    return self._f

  def set(self):
    self._s.point()
    self._f = True

  def clear(self):
    self._s.point()
    self._f = False

  def wait(self, timeout=None):
    self._s.wait(lambda: self._f, timeout)
    return self._f


class Semaphore:

  def __init__(self, value=1):
    self._s = _S
    self._value = value

  def acquire(self, blocking=True, timeout=None, block=None):
    if block is not None:
      blocking = block
    if not blocking:
      self._s.point()
      if self._value <= 0:
        return False
    elif not self._s.wait(lambda: self._value > 0, timeout):
      return False
    self._value -= 1
    return True

  def release(self, n=1):
    self._s.point()
    self._value += n

  def __enter__(self):
    return self.acquire()

  def __exit__(self, *a):
    self.release()


# --------------------------------------------------------------------------
# queue
# --------------------------------------------------------------------------


class Queue:

  def __init__(self, maxsize=0, **kw):
    self._s = _S
    self.maxsize = maxsize
    self.queue = collections.deque()
    self.unfinished_tasks = 0
    self._high = 0

  def qsize(self):
    self._s.point()
    return len(self.queue)

  def empty(self):
    return self.qsize() == 0

  def full(self):
    return 0 < self.maxsize <= self.qsize()

  def put(self, item, block=True, timeout=None):
    room = lambda: self.maxsize <= 0 or len(self.queue) < self.maxsize
    if not block:
      self._s.point()
      if not room():
        raise Full
    elif not self._s.wait(room, timeout):
      raise Full
    self.queue.append(item)
    self.unfinished_tasks += 1
    self._high = max(self._high, len(self.queue))

  def get(self, block=True, timeout=None):
    if not block:
      self._s.point()
    else:
      self._s.wait(lambda: bool(self.queue), timeout)
    if not self.queue:
      raise Empty
    return self.queue.popleft()

  def put_nowait(self, item):
    return self.put(item, block=False)

  def get_nowait(self):
    return self.get(block=False)

  def task_done(self):
    self.unfinished_tasks -= 1

  def join(self):
    self._s.wait(lambda: self.unfinished_tasks == 0)

  # multiprocessing.Queue interface
  def close(self):
    pass

  def cancel_join_thread(self):
    pass

  def join_thread(self):
    pass


# --------------------------------------------------------------------------
# futures
# --------------------------------------------------------------------------


class Future:

  def __init__(self):
    self._s = _S
    self._state = "pending"
    self._result = self._exc = None
    self._cbs = []
    self._seq = None

  def _over(self):
    return self._state in ("done", "cancelled")

  def done(self):
    self._s.point()
    return self._over()

  def running(self):
    return self._state == "running"

  def cancelled(self):
    return self._state == "cancelled"

  def cancel(self):
    self._s.point()
    if self._state in ("running", "done"):
      return False
    self._state = "cancelled"
    return True

  def _set(self, result, exc):
    self._result, self._exc, self._state = result, exc, "done"
    self._s.done_seq = getattr(_S, "done_seq", 0) + 1
    self._seq = self._s.done_seq
    for cb in self._cbs:
      cb(self)

  set_result = lambda self, r: self._set(r, None)
  set_exception = lambda self, e: self._set(None, e)

  def add_done_callback(self, cb):
    if self._over():
      cb(self)
    else:
      self._cbs.append(cb)

  def result(self, timeout=None):
    if not self._s.wait(self._over, timeout):
      raise TimeoutError()
    if self._state == "cancelled":
      raise CancelledError()
    if self._exc is not None:
      raise self._exc
    return self._result

  def exception(self, timeout=None):
    if not self._s.wait(self._over, timeout):
      raise TimeoutError()
    if self._state == "cancelled":
      raise CancelledError()
    return self._exc


class ThreadPoolExecutor:

  def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
    self._s = _S
    if max_workers is not None and max_workers <= 0:
      raise ValueError("max_workers must be greater than 0")
    self._max_workers = max_workers or 4
    self._work = collections.deque()
    self._shutdown = False
    self._threads = []
    self._idle = 0
    self._prefix = thread_name_prefix or "pool"

  def submit(self, fn, /, *a, **kw):
    self._s.point()
    if self._shutdown:
      raise RuntimeError("cannot schedule new futures after shutdown")
    f = Future()
    self._work.append((f, fn, a, kw))
    if self._idle < len(self._work) and len(self._threads) < self._max_workers:
      self._threads.append(self._s.spawn(self._worker, f"{self._prefix}-{len(self._threads)}"))
    return f

  def _worker(self):
    while True:
      self._idle += 1
      self._s.wait(lambda: self._work or self._shutdown)
      self._idle -= 1
      if not self._work:
        return
      f, fn, a, kw = self._work.popleft()
      if f._state == "cancelled":
        continue
      f._state = "running"
      try:
        r = fn(*a, **kw)
      except Exception as e:  # noqa
        f._set(None, e)
        del e
      else:
        f._set(r, None)
      del f, fn, a, kw

  def map(self, fn, *its, timeout=None, chunksize=1):
    fs = [self.submit(fn, *a) for a in zip(*its)]
    return iter([f.result() for f in fs])

  def shutdown(self, wait=True, *, cancel_futures=False):
    self._s.point()
    self._shutdown = True
    if cancel_futures:
      for w in self._work:
        w[0].cancel()
      self._work.clear()
    if wait:
      for t in self._threads:
        self._s.wait(lambda t=t: t.done)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.shutdown(wait=True)
    return False


def as_completed(fs, timeout=None):
  left = list(fs)
  while left:
    left[0]._s.wait(lambda: any(f._over() for f in left))
    over = sorted((f for f in left if f._over()), key=lambda f: f._seq or 0)
    f = over[0]
    left.remove(f)
    yield f


def futures_wait(fs, timeout=None, return_when="ALL_COMPLETED"):
  fs = list(fs)

  def ok():
    if return_when == "FIRST_COMPLETED":
      return any(f._over() for f in fs)
    if return_when == "FIRST_EXCEPTION" and any(f._state == "done" and f._exc for f in fs):
      return True
    return all(f._over() for f in fs)

  if fs:
    fs[0]._s.wait(ok, timeout)
  return collections.namedtuple("DoneAndNotDoneFutures", "done not_done")(
      {f for f in fs if f._over()}, {f for f in fs if not f._over()})


# --------------------------------------------------------------------------
# installation
# --------------------------------------------------------------------------


class _Mod(types.ModuleType):
  """A module that overrides some names of a real one."""

  def __init__(self, real, **over):
    super().__init__(real.__name__)
    self.__dict__.update(over)
    self.__dict__["_real"] = real

  def __getattr__(self, k):
    return getattr(self.__dict__["_real"], k)


def fakes():
  import concurrent.futures as cf
  import concurrent
  import time as _time
  import queue as q

  th = _Mod(_threading, Thread=Thread, Lock=Lock, RLock=RLock, Condition=Condition, Event=Event, Semaphore=Semaphore, BoundedSemaphore=Semaphore)
  qq = _Mod(q, Queue=Queue, SimpleQueue=Queue)
  fut = _Mod(cf, ThreadPoolExecutor=ThreadPoolExecutor, Future=Future, as_completed=as_completed, wait=futures_wait, CancelledError=CancelledError)
  con = _Mod(concurrent, futures=fut)

  def sleep(s):
    _S.wait(lambda: False, s)

  tm = _Mod(_time, sleep=sleep, time=lambda: _S.now, monotonic=lambda: _S.now)
  return {
      id(_threading): th, id(q): qq, id(cf): fut, id(concurrent): con, id(_time): tm,
      id(_threading.Thread): Thread, id(_threading.Lock): Lock, id(_threading.Event): Event, id(_threading.Condition): Condition,
      id(cf.ThreadPoolExecutor): ThreadPoolExecutor, id(q.Queue): Queue, id(_time.sleep): sleep,
  }


_SKIP = ("grain._src.python.dataset.stats", "grain._src.core.monitoring", "grain._src.core.profiler",
         "grain._src.python.dataset.stats_utils")


_found = {}


def _places():
  """Every name in a grain module that refers to a primitive."""
  n = len(sys.modules)
  if _found.get("n") != n:
    sub = fakes()
    out = []
    for name, m in list(sys.modules.items()):
      if not name.startswith("grain._src") or name.startswith(_SKIP) or m is None:
        continue
      for k, v in list(m.__dict__.items()):
        r = sub.get(id(v))
        if r is not None:
          out.append((m.__dict__, k, v, r))
    _found.update(n=n, places=out)
  return _found["places"]


@contextlib.contextmanager
def installed(ctx, preempt=0, free=True, lines=(), extra=None, **kw):
  """Replaces the primitives in every grain module while it is active."""
  global _S
  s = Sched(ctx, preempt, free, lines, **kw)
  undo = []
  for d, k, v, r in _places():
    if d.get(k) is v:
      undo.append((d, k, v))
      d[k] = r
  for d, k, r in extra or ():
    undo.append((d, k, d[k]))
    d[k] = r
  _S = s
  gc.disable()
  old = sys.gettrace()
  s._trace_here()
  try:
    yield s
  finally:
    if s.lines:
      sys.settrace(old)
    s.finish()
    for d, k, v in reversed(undo):
      d[k] = v
    gc.enable()


def load_copy(modname, names=None, shadow=False, **attrs):
  """A private copy of a module, executed on the modelled primitives.

  For classes that inherit from a primitive (their base is fixed at import) and
  for parts of the standard library that are written in Python.  `names` are
  further modules that its imports find replaced, `attrs` names set afterwards.
  """
  import importlib.util

  real = importlib.import_module(modname)
  f = fakes()
  names = {"threading": f[id(_threading)], "queue": f[id(_queue)], **(names or {})}
  saved = {k: sys.modules[k] for k in names}
  inpkg = []
  for k, m in names.items():
    pkg, _, leaf = k.rpartition(".")
    if pkg:
      inpkg.append((sys.modules[pkg], leaf, getattr(sys.modules[pkg], leaf), m))
  spec = importlib.util.spec_from_file_location(modname + "__symx", real.__file__)
  m = importlib.util.module_from_spec(spec)
  sys.modules.update(names)
  sys.modules[spec.name] = m
  for o, k, _, r in inpkg:
    setattr(o, k, r)
  try:
    spec.loader.exec_module(m)
  finally:
    sys.modules.update(saved)
    for o, k, v, _ in inpkg:
      setattr(o, k, v)
  if shadow:
    for k, v in core.SHADOW.items():
      m.__dict__.setdefault(k, v)
  m.__dict__.update(attrs)
  return m


# --------------------------------------------------------------------------
# multiprocessing: the queue class of the standard library on a modelled pipe,
# locks and shared values; a "process" is a thread with its own unpickled copy
# --------------------------------------------------------------------------


class Value:
  """A shared number; every access is a place where others may take over."""

  def __init__(self, typecode, value, lock=True):
    self._s = _S
    self._v = value
    self._lock = RLock() if lock else None

  @property
  def value(self):
    self._s.point()
    return self._v

  @value.setter
  def value(self, v):
    self._s.point()
    self._v = v

  def get_lock(self):
    return self._lock


class _Pipe:

  def __init__(self):
    self._s = _S
    self.data = collections.deque()

  def send_bytes(self, b):
    self._s.point()
    self.data.append(bytes(b))

  def recv_bytes(self):
    self._s.wait(lambda: bool(self.data))
    return self.data.popleft()

  def poll(self, timeout=0.0):
    if timeout is not None and timeout <= 0:
      self._s.point()
    else:
      self._s.wait(lambda: bool(self.data), timeout)
    return bool(self.data)

  def close(self):
    pass


class _Finalize:

  def __init__(self, obj, callback, args=(), kwargs=None, exitpriority=None):
    self._c = (callback, args, kwargs or {})

  def __call__(self):
    if self._c:
      c, self._c = self._c, None
      return c[0](*c[1], **c[2])

  def cancel(self):
    self._c = None


_mp = {}


def mp_modules():
  """(copy of queue, copy of multiprocessing.queues) on the modelled primitives."""
  if not _mp:
    import multiprocessing.connection
    import multiprocessing.context
    import multiprocessing.queues
    import time as _time

    f = fakes()
    _mp["queue"] = load_copy("queue", Full=Full, Empty=Empty, time=f[id(_time)].monotonic)
    _mp["context"] = _Mod(multiprocessing.context, assert_spawning=lambda o: None)

    def pipe(duplex=True):
      p = _Pipe()
      return p, p

    _mp["queues"] = load_copy(
        "multiprocessing.queues",
        time=f[id(_time)], context=_mp["context"], Finalize=_Finalize, register_after_fork=lambda *a: None,
        connection=_Mod(multiprocessing.connection, Pipe=pipe))
  return types.SimpleNamespace(**_mp)


class MpContext:
  """What multiprocessing.get_context() offers, for `processes` that are threads."""

  Lock, RLock, Semaphore, BoundedSemaphore, Event, Value = Lock, RLock, Semaphore, Semaphore, Event, Value


class MpQueue(Queue):
  """multiprocessing.Queue without its feeder thread: elements are pickled when put."""

  def __init__(self, maxsize=0):
    super().__init__(maxsize)
    self.lost = []

  def put(self, item, block=True, timeout=None):
    import pickle

    try:
      data = pickle.dumps(item)
    except core.PathEnd:
      raise
    except Exception as e:  # what the feeder thread does
      self._s.point()
      self._on_queue_feeder_error(e, item)
      return
    super().put(data, block, timeout)

  def _on_queue_feeder_error(self, e, item):
    self.lost.append((e, item))

  def get(self, block=True, timeout=None):
    import pickle

    return pickle.loads(super().get(block, timeout))


class Process:
  """A thread that runs the target with its own copy of the target's module globals."""

  all = []
  _n = 0

  def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
    g = dict(target.__globals__)
    f = types.FunctionType(target.__code__, g, target.__name__, target.__defaults__, target.__closure__)
    f.__kwdefaults__ = target.__kwdefaults__
    self._exit = None
    self.globals = g

    def run():
      code = 1
      try:
        f(*args, **(kwargs or {}))
        code = 0
      except SystemExit as e:
        code = e.code or 0
      except Kill:
        raise
      except (core.PathEnd, core.ConcreteFailure, BrokenSchedule):
        raise
      except BaseException as e:
        self._error = e
      finally:
        self._exit = code

    self._error = None
    Process._n += 1
    self._th = Thread(target=run, name=name or f"Process-{Process._n}")
    self.pid = Process._n
    Process.all.append(self)

  def start(self):
    self._th.start()

  def is_alive(self):
    return self._th.is_alive()

  @property
  def exitcode(self):
    self._th.is_alive()
    return self._exit if self._th._t is not None and self._th._t.done else None

  def join(self, timeout=None):
    # The time out is long: it only elapses when the process cannot go on.
    left, _S.left = _S.left, 0
    self._th.join(timeout)
    _S.left = left

  def kill(self):
    """The process ends where it is."""
    t = self._th._t
    if t is not None and not t.done:
      t.done = True
      self._exit = -9

  terminate = kill


MpContext.Queue = MpQueue
MpContext.Process = Process
