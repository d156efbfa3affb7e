"""Reading in worker processes (P27)."""

import contextlib
import functools
import types

from harness.common import *  # noqa
from harness.h_thread import Boom, outcomes
from symx import core, sched
from symx.registry import harness

S_PROC = ("a worker process is a thread that runs the real worker function with its own copy of the module's globals and unpickled copies of everything handed over; "
          "multiprocessing queues, events, locks and values are models with atomic operations (queue items are really pickled), the schedule is a symbolic input; "
          "shared memory is replaced by a ledger that counts blocks")


class _Block:
  """What stands for an array in shared memory on its way."""

  def __init__(self, no, value):
    self.no, self.value = no, value


class Ledger:
  """Stands for shared_memory_array: every copied leaf is a block that has to be opened or released once."""

  def __init__(self):
    self.made, self.opened, self.released = [], [], []
    self.SharedMemoryArray = types.SimpleNamespace(enable_async_del=lambda *a: None)

  def copy_to_shm(self, struct, min_size=0):
    def put(x):
      b = _Block(len(self.made), x)
      self.made.append(b.no)
      return b

    return self._map(put, struct)

  @staticmethod
  def _map(f, s):
    if isinstance(s, dict):
      return {k: Ledger._map(f, v) for k, v in s.items()}
    if isinstance(s, (list, tuple)):
      return type(s)(Ledger._map(f, v) for v in s)
    return f(s)

  def open_from_shm(self, struct):
    def get(b):
      if not isinstance(b, _Block):
        return b
      self.opened.append(b.no)
      return b.value

    return self._map(get, struct)

  def unlink_shm(self, struct):
    def drop(b):
      if isinstance(b, _Block):
        self.released.append(b.no)
      return b

    self._map(drop, struct)

  def check(self, ctx):
    done = sorted(self.opened + self.released)
    ctx.check(len(set(done)) == len(done), f"shared memory released twice: opened {self.opened}, released {self.released}")
    ctx.check(done == self.made, f"shared memory never released: made {self.made}, opened {self.opened}, released {self.released}")


class _Pickled:
  """What cloudpickle makes of an object: a copy, taken now and at every load."""

  def __init__(self, obj):
    self.obj = copy.deepcopy(obj)


class _CloudPickle:

  @staticmethod
  def dumps(obj, *a):
    return _Pickled(obj)

  @staticmethod
  def loads(p):
    return copy.deepcopy(p.obj)


sched_pickle_safe = _Pickled


@contextlib.contextmanager
def processes(ctx, preempt=1, lines=(), **kw):
  M = mods()
  pp = M.pp
  led = Ledger()
  mp = types.SimpleNamespace(get_context=lambda *a: sched.MpContext())
  d = pp.__dict__
  extra = [(d, "mp", mp), (d, "cloudpickle", _CloudPickle), (d, "shared_memory_array", led), (d, "_parse_debug_flags", _no_flags),
           (d, "util", types.SimpleNamespace(Finalize=sched._Finalize))]
  sched.Process.all = []
  with sched.installed(ctx, preempt=preempt, lines=lines, extra=extra, **kw) as s:
    s.ledger = led
    yield s


def _no_flags(flags):
  pass


class Fails:
  """Raises at the chosen elements (a transformation)."""

  def __init__(self, bad):
    self.bad = bad

  def __call__(self, x):
    if x in self.bad:
      raise Boom(str(x))
    return x


def stream(n, bad=()):
  return src_iter(n).map(Fails(set(bad)))


def prefetched(ds, b, init=None):
  return mods().pp.ProcessPrefetchIterDataset(ds, buffer_size=b, worker_init_fn=init)


def ref_outcomes(n, bad, k):
  """Elements up to the first error, the error, then only the end."""
  out = outcomes(stream(n, bad).__iter__(), n + 1)
  cut = next((q for q, o in enumerate(out) if o[0] != "elem"), len(out) - 1)
  return out[:cut + 1] + [("end",)] * max(0, k - cut - 1)


def finish(ctx, s, it):
  it.close()
  ctx.check(not s.alive(), "a worker process runs after close")
  ctx.check(not s.uncaught, f"a worker died: {s.uncaught}")
  ctx.check(all(p._error is None for p in sched.Process.all), f"a worker died: {[p._error for p in sched.Process.all]}")
  s.ledger.check(ctx)


@harness("P27", "stream", "streams of 0..3 elements, at most one failing, buffer 1..2, early start or not, schedules with at most 1 preemption (thorough 2); elements, error, end and twice past the end, or closed after 0..3 reads; all shared memory opened or released exactly once",
         quick_s=150, thorough_s=500, stubs=(S_PROC,), must_reach=("closed early",))
def p27_stream(ctx, tier="quick"):
  n = ctx.cint("n", 0, 3)
  b = ctx.cint("buffer", 1, 2)
  bad = {ctx.cint("bad", 0, n)} - {n}
  total = n + 2
  ref = ref_outcomes(n, bad, total)
  stop = ctx.cint("stop", 0, 3) if ctx.cbool("close_early") else total
  with processes(ctx, preempt=1 if tier == "quick" else 2) as s:
    it = prefetched(stream(n, bad), b).__iter__()
    if ctx.cbool("start"):
      it.start_prefetch()
    stop = min(stop, total)
    ctx.eq(outcomes(it, stop), ref[:stop], "prefetched stream differs")
    if stop < total:
      ctx.reach("closed early")
    finish(ctx, s, it)


def _ops(ctx, n, b, bad, preempt, nops, keep=False, lines=()):
  ref = ref_outcomes(n, bad, n + 3)
  states = []
  it0 = stream(n, bad).__iter__()
  states.append(it0.get_state())
  for _ in range(n):
    if outcomes(it0, 1)[0][0] != "elem":
      break
    states.append(it0.get_state())
  with processes(ctx, preempt=preempt, lines=lines) as s:
    it = prefetched(stream(n, bad), b).__iter__()
    if keep:
      it.set_keep_workers_after_stop_iteration(True)
    pos = 0  # outcomes delivered
    last = 0  # position after the last delivered element
    saved = []
    for q in range(nops):
      op = ctx.choice(f"op{q}", ["read", "save", "restore", "jump", "index", "start"])
      if op == "read":
        got = outcomes(it, 1)
        ctx.eq(got, ref[pos:pos + 1] if pos < len(ref) else [("end",)], "element differs")
        pos += 1
        if got[0][0] == "elem":
          last = pos
      elif op == "save":
        st = it.get_state()
        ctx.eq(st, states[last], "state differs from the state of the stream itself")
        saved.append((last, st, copy.deepcopy(st)))
      elif op == "restore":
        p, st, _ = saved[-1] if saved else (n // 2, copy.deepcopy(states[min(n // 2, len(states) - 1)]), None)
        if not saved:
          p = min(p, len(states) - 1)
        it.set_state(st)
        pos = last = p
      elif op == "jump":
        pos = last = ctx.cint(f"to{q}", 0, n - 1)
        mods().dataset.set_next_index(it, pos)
      elif op == "index":
        ctx.eq(mods().dataset.get_next_index(it), last, "next index differs")
      else:
        it.start_prefetch()
    ctx.eq(it.get_state(), states[last] if last < len(states) else None, "state differs from the state of the stream itself")
    rest = outcomes(it, max(len(ref) - pos, 1))
    want = ref[pos:] if pos < len(ref) else [("end",)]
    if pos > min(bad, default=n):
      want = _after(n, bad, pos, len(rest))
    ctx.eq(rest, want, "stream after the operations differs")
    for p, st, kept in saved:
      ctx.eq(st, kept, "a state changed after it was taken")
    finish(ctx, s, it)


def _after(n, bad, pos, k):
  """What follows when the stream was positioned behind its failing element or has ended."""
  return [("end",)] * k


@harness("P27", "operations", "streams of 2..3 elements, the last one failing or none, buffer 1..2; 3 operations (thorough 4) out of read, save, restore, jump to an index, ask for the index, early start, then the rest; schedules forced by blocking only (thorough: 1 preemption)",
         quick_s=150, thorough_s=800, stubs=(S_PROC,))
def p27_ops(ctx, tier="quick"):
  n = ctx.cint("n", 2, 3)
  b = ctx.cint("buffer", 1, 2)
  bad = {n - 1} if ctx.cbool("bad") else set()
  deep = tier != "quick"
  _ops(ctx, n, b, bad, 1 if deep else 0, 4 if deep else 3)


@harness("P27", "operations_preempted", "stream of 2 elements, buffer 1; 2 operations out of read, save, restore, jump to an index, ask for the index, early start, then the rest; at most 1 preemption (thorough 2)",
         quick_s=150, thorough_s=600, stubs=(S_PROC,))
def p27_ops_preempted(ctx, tier="quick"):
  _ops(ctx, 2, 1, set(), 1 if tier == "quick" else 2, 2)


@harness("P27", "keep_workers", "stream of 1..2 elements, buffer 1, workers kept after the end (as repeating a stream does); 2 operations, then the rest; at most 1 preemption",
         quick_s=150, thorough_s=600, stubs=(S_PROC,))
def p27_keep(ctx, tier="quick"):
  n = ctx.cint("n", 1, 2)
  _ops(ctx, n, 1, set(), 1, 2 if tier == "quick" else 3, keep=True)


@harness("P27", "repeated", "stream of 0..2 elements in a worker process, repeated 2 times or for ever, buffer 1..2; read, saved at any position and restored in a new iterator; at most 1 preemption",
         quick_s=100, thorough_s=300, stubs=(S_PROC,))
def p27_repeated(ctx, tier="quick"):
  n = ctx.cint("n", 1, 2)
  b = ctx.cint("buffer", 1, 2)
  times = ctx.choice("times", [2, None])
  ref = outcomes(mods().repeat.RepeatIterDataset(stream(n), times).__iter__(), 2 * n + 1)
  k = ctx.cint("k", 0, 2 * n)
  with processes(ctx, preempt=1 if tier == "quick" else 2) as s:
    it = mods().repeat.RepeatIterDataset(prefetched(stream(n), b), times).__iter__()
    ctx.eq(outcomes(it, k), ref[:k], "repeated stream differs")
    st = it.get_state()
    it.close()
    it2 = mods().repeat.RepeatIterDataset(prefetched(stream(n), b), times).__iter__()
    it2.set_state(copy.deepcopy(st))
    ctx.eq(outcomes(it2, 2 * n + 1 - k), ref[k:], "restored stream differs")
    it2.close()
    ctx.check(not s.alive(), "a worker process runs after close")


# ------------------------------------------------------------------ failures


class _BadInit:

  def __call__(self):
    raise Boom("init")


class _BadIter:
  """A dataset whose iterator cannot be created in the worker."""


def _bad_iter(n):
  M = mods()

  class BadIter(M.dataset.IterDataset):

    def __iter__(self):
      raise Boom("iter")

  return BadIter(stream(n))


def _picky(n):
  """Refuses every state but those with an even position."""
  M = mods()

  class It(M.dataset.DatasetIterator):

    def __next__(self):
      return next(self._parent)

    def get_state(self):
      return self._parent.get_state()

    def set_state(self, st):
      if st.get("bad"):
        raise Boom("state")
      self._parent.set_state(st)

  class Picky(M.dataset.IterDataset):

    def __iter__(self):
      return It(self._parent.__iter__())

  return Picky(stream(n))


@harness("P27", "worker_failure", "streams of 1..3 elements, buffer 1..2; the worker's initialisation, the creation of its iterator, or restoring a state fails, or it is killed after 0..2 elements; a state set before or not; at most 1 preemption: the failure is raised after at most the elements that were already there, never waited for in vain; afterwards a good state restores the stream",
         quick_s=120, thorough_s=300, stubs=(S_PROC,), must_reach=("init", "iter", "state", "kill"))
def p27_failure(ctx, tier="quick"):
  n = ctx.cint("n", 1, 3)
  b = ctx.cint("buffer", 1, 2)
  kind = ctx.choice("kind", ["init", "iter", "state", "kill"])
  with processes(ctx, preempt=1 if tier == "quick" else 2, max_points=4000) as s:
    ds = {"init": lambda: stream(n), "kill": lambda: stream(n), "iter": lambda: _bad_iter(n), "state": lambda: _picky(n)}[kind]()
    it = prefetched(ds, b, _BadInit() if kind == "init" else None).__iter__()
    good = stream(n).__iter__()
    take(good, 1)
    good = good.get_state()
    first = 0
    if kind == "state":
      first = ctx.cint("first", 0, min(1, n - 1))
      ctx.eq(outcomes(it, first), [("elem", q) for q in range(first)], "element differs")
      it.set_state(dict(good, bad=1))
      if ctx.cbool("and_good"):
        # Both requests may be pending when the worker fails.
        it.set_state(good)
    elif ctx.cbool("restored"):
      it.set_state(good)
      first = 1
    got = []
    if kind == "kill":
      k = ctx.cint("k", 0, min(2, n - first))
      for _ in range(k):
        got.append(next(it))
      it.start_prefetch()
      s.run_others() if ctx.cbool("full") else None
      sched.Process.all[-1].kill()
    err = None
    try:
      for _ in range(n + 1):
        got.append(next(it))
    except StopIteration:
      err = "end"
    except (Boom, RuntimeError) as e:
      err = e
    ctx.reach(kind)
    if kind == "state" and err == "end":
      # Allowed only when the bad state was replaced before the worker saw it.
      ctx.eq(got, list(range(1, n)), "stream after the state differs")
    elif kind == "kill" and err == "end":
      ctx.eq(got, list(range(first, n)), "the stream ends early when the worker is killed")
    else:
      ctx.check(err is not None and err != "end", "the failure of the worker is lost")
      ctx.check(isinstance(err, Boom) == (kind != "kill"), f"another error: {err!r}")
      lo = 1 if kind == "state" else first
      ctx.check(got == list(range(lo, lo + len(got))) and (kind == "kill" or not got), f"elements before the failure differ: {got}")
    if kind in ("state", "kill"):
      it.set_state(good)
      ctx.eq(outcomes(it, n), [("elem", q) for q in range(1, n)] + [("end",)], "the stream cannot be restored after the failure")
    it.close()
    ctx.check(not s.alive(), "a worker process runs after close")


class _NoPickle:

  def __reduce__(self):
    raise TypeError("cannot pickle this")

  def __deepcopy__(self, memo):
    return self


class OddError(Exception):
  """Pickles, but cannot be unpickled: the constructor takes two arguments."""

  def __init__(self, a, b):
    super().__init__(f"{a} {b}")


class StuckError(Exception):
  """Cannot be pickled."""

  def __init__(self, a):
    super().__init__(a)
    self.lock = _NoPickle()


class _Odd:

  def __init__(self, at, what):
    self.at, self.what = at, what

  def __call__(self, x):
    if x != self.at:
      return x
    if self.what == "element":
      return _NoPickle()
    if self.what == "odd error":
      raise OddError("odd", x)
    raise StuckError("stuck")


@harness("P27", "unpicklable", "streams of 1..3 elements, buffer 1..2; one element cannot be pickled, or fails with an error that cannot be pickled or unpickled; at most 1 preemption: an error is raised at its position that names the cause, no element is left out, then the end",
         quick_s=60, thorough_s=200, stubs=(S_PROC,), must_reach=("element", "odd error", "stuck error"))
def p27_unpicklable(ctx, tier="quick"):
  n = ctx.cint("n", 1, 3)
  b = ctx.cint("buffer", 1, 2)
  at = ctx.cint("at", 0, n - 1)
  what = ctx.choice("what", ["element", "odd error", "stuck error"])
  with processes(ctx, preempt=1 if tier == "quick" else 2, max_points=4000) as s:
    it = prefetched(src_iter(n).map(_Odd(at, what)), b).__iter__()
    got, err = [], None
    try:
      for _ in range(n + 1):
        got.append(next(it))
    except StopIteration:
      pass
    except Exception as e:  # noqa
      if isinstance(e, (core.PathEnd, core.ConcreteFailure, sched.BrokenSchedule)):
        raise
      err = e
    ctx.reach(what)
    ctx.eq(got, list(range(at)), "elements before the failure differ")
    ctx.check(err is not None, "the failure is lost")
    word = {"element": "pickle", "odd error": "odd", "stuck error": "stuck"}[what]
    ctx.check(word in str(err), f"the error does not tell the cause: {err!r}")
    ctx.eq(outcomes(it, 1), [("end",)], "the stream goes on after the failure")
    it.close()
    ctx.check(not s.alive(), "a worker process runs after close")
