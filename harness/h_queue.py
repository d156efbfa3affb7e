"""The queues of adjustable size (P28)."""

import multiprocessing.queues  # noqa: F401  (imported before copies are made)
import queue

from harness.common import *  # noqa
from symx import sched
from symx.registry import harness

S_Q = "threading, time: models with atomic operations, the schedule is a symbolic input; queue.Queue is the standard library's own code on these"
S_MP = ("processes are threads with their own unpickled copy of the queue; multiprocessing.queues.Queue is the standard library's own code (feeder thread included) "
        "on a modelled pipe (unbounded), semaphores, locks and shared values, the schedule is a symbolic input")

_copy = {}


def _vsq(ctx):
  """The thread queue and the process queue, on the modelled primitives."""
  if "m" not in _copy:
    m = sched.mp_modules()
    _copy["m"] = sched.load_copy(
        "grain._src.python.ipc.variable_size_queue",
        {"queue": m.queue, "multiprocessing.queues": m.queues, "multiprocessing.context": m.context},
        time=sched.fakes()[id(__import__("time"))])
  return _copy["m"]


class Ledger:
  """What is known from outside: calls begun and finished, limits that may be in force."""

  def __init__(self, ctx, limit):
    self.ctx = ctx
    self.limit = {limit}
    self.begun = self.put = self.get_begun = self.got = 0
    self.open = []  # [least limit, greatest limit, least fill] since a put began
    self.order = []

  def _all(self):
    for o in self.open:
      o[0] = min([o[0], *self.limit])
      o[1] = max([o[1], *self.limit])

  def resize(self, q, v):
    self.limit.add(v)
    self._all()
    q.set_max_size(v)
    self.limit = {v}  # one resizer only

  def do_put(self, q, x, **kw):
    self.begun += 1
    o = [min(self.limit), max(self.limit)]
    got0 = self.got
    self.open.append(o)
    try:
      q.put(x, **kw)
    except queue.Full:
      self.begun -= 1
      # At some time since the call began the elements that were being put or
      # had been put filled the least limit there was.
      self.ctx.check(self.begun - got0 >= o[0], f"full although there is room: {self.begun - got0} elements, limit {o[0]}")
      return False
    finally:
      self.open = [x for x in self.open if x is not o]
    self.put += 1
    self.ctx.check(self.put - self.get_begun <= max(o[1], 0), f"more elements than the limit: {self.put - self.get_begun} > {o[1]}")
    return True

  def do_get(self, q, **kw):
    self.get_begun += 1
    try:
      x = q.get(**kw)
    except queue.Empty:
      self.get_begun -= 1
      return None
    self.got += 1
    self.order.append(x)
    return x


def _sequence(ctx, led, want):
  led.ctx.check(sorted(led.order) == sorted(want), f"elements lost or repeated: {led.order} of {want}")
  for p in {x[0] for x in want}:
    led.ctx.check([x for x in led.order if x[0] == p] == sorted(x for x in want if x[0] == p), "elements of one producer out of order")


def _race(ctx, mk, view, limits, sizes, nput, preempt, lines=(), resizes=1, producers=2, modes=("block", "timeout", "try")):
  """Producers, a resizer and the consumer at the same time."""
  with sched.installed(ctx, preempt=preempt, lines=lines) as s:
    lim = ctx.choice("limit", limits)
    q = mk(lim)
    led = Ledger(ctx, lim)
    accepted = []
    mode = ctx.choice("mode", list(modes))
    kw = {"block": {}, "timeout": {"timeout": 1.0}, "try": {"block": False}}[mode]
    total = producers * nput

    def produce(p):
      mine = view(q)
      for k in range(nput):
        while True:
          if led.do_put(mine, (p, k), **kw):
            accepted.append((p, k))
            break
          if mode == "try" or (mode == "timeout" and s.now > 1100):
            return

    ths = [sched.Thread(target=produce, args=(p,), name=f"producer{p}") for p in range(producers)]
    news = [ctx.choice(f"new{k}", sizes) for k in range(resizes)]
    if news and mode != "try" and news[-1] < 1:
      news.append(1)  # else they may wait for ever

    def resize():
      mine = view(q)
      for v in news:
        led.resize(mine, v)

    ths.append(sched.Thread(target=resize, name="resizer"))
    for t in ths:
      t.start()
    here = view(q)
    if mode == "try":
      for t in ths:
        t.join()
      s.run_others()
      while led.got < len(accepted):
        led.do_get(here)
    else:
      while led.got < total:
        led.do_get(here, **({"timeout": 2.0} if mode == "timeout" else {}))
      for t in ths:
        t.join()
    ctx.check(not s.uncaught, f"a thread died: {s.uncaught}")
    ctx.check(len(accepted) == total or mode == "try", "a blocking put gave up")
    _sequence(ctx, led, accepted)
    s.run_others()
    ctx.check(led.do_get(here, block=False) is None, "an element too many")
    # The final limit is exactly the number of elements that fit.
    n = 0
    while n < 5 and led.do_put(here, (9, n), block=False):
      n += 1
    last = (news or [lim])[-1]
    ctx.check(n == min(max(last, 0), 5), f"{n} elements fit after the race, the limit is {last}")
    ctx.check(not s.uncaught, f"a thread died: {s.uncaught}")


def _thread_queue(ctx):
  m = _vsq(ctx)
  return m.VariableSizeQueue


def _process_queue(ctx):
  m = _vsq(ctx)

  def view(q):
    c = m.VariableSizeMultiprocessingQueue.__new__(m.VariableSizeMultiprocessingQueue)
    c.__setstate__(q.__getstate__())
    return c

  return lambda n: m.VariableSizeMultiprocessingQueue(n, sched.MpContext()), view


@harness("P28", "threads", "2 producers with one put each or one with two (thorough: 2 x 2) (blocking, with timeout, or tried once), 1 consumer, 1 resize; limit 1, new limit 0 or 2 (thorough: limit 1..2, new 0..3) (then 1 so that blocked calls can go on); at most 1 (thorough 2) preemptions at synchronisation points",
         quick_s=100, thorough_s=300, stubs=(S_Q,))
def p28_threads(ctx, tier="quick"):
  deep = tier == "thorough"
  producers, puts = (2, 2) if deep else ctx.choice("puts", [(2, 1), (1, 2)])
  _race(ctx, _thread_queue(ctx), lambda q: q, [1, 2] if deep else [1], [0, 1, 2, 3] if deep else [0, 2], puts, 2 if deep else 1, producers=producers)


@harness("P28", "thread_lines", "2 producers with one put each, or one and a resize (thorough: both), one preemption at any source line of variable_size_queue.py (thorough: and of the standard queue.py)", quick_s=100, thorough_s=300, stubs=(S_Q,))
def p28_lines(ctx, tier="quick"):
  deep = tier == "thorough"
  producers, resizes = (2, 1) if deep else ctx.choice("config", [(1, 1), (2, 0)])
  _race(ctx, _thread_queue(ctx), lambda q: q, [1], [0, 2] if deep else [0], 1, 1, lines=("ipc/variable_size_queue.py",) + (("/queue.py",) if deep else ()), resizes=resizes, producers=producers, modes=("block", "timeout", "try") if deep else ("block", "timeout"))


@harness("P28", "processes", "a producer process with 1..2 puts, a resizing process and the consumer, limit 2, new limit 1 or 3, at most 1 preemption (thorough: 2 producers, limit 1..2, two resizes, 2 preemptions)", quick_s=120, thorough_s=400, stubs=(S_MP,))
def p28_processes(ctx, tier="quick"):
  mk, view = _process_queue(ctx)
  if tier == "thorough":
    _race(ctx, mk, view, [1, 2], [1, 3], 1, 2, resizes=2)
  else:
    _race(ctx, mk, view, [2], [1, 3], *ctx.choice("puts", [(1, 1), (2, 1)]), producers=ctx.cint("producers", 1, 1))


def _sequential(ctx, q, put, sizes, ops, settle):
  """One thread: the queue against a list with a limit."""
  lim, model, k = sizes[0], [], 0
  for i in range(ops):
    op = ctx.choice(f"op{i}", ["put", "get", "size"])
    if op == "put":
      ok = put(q, k)
      settle()
      ctx.check(ok == (len(model) < lim) if not is_sym(lim) else (lim > len(model) if ok else lim <= len(model)),
                f"put {'accepted' if ok else 'refused'} with {len(model)} elements")
      if ok:
        model.append(k)
      k += 1
    elif op == "get":
      try:
        x = q.get(block=False)
      except queue.Empty:
        ctx.check(not model, "empty although elements are in the queue")
      else:
        ctx.check(bool(model) and x == model.pop(0), "wrong element")
    else:
      lim = sizes[1](i)
      q.set_max_size(lim)
  while model:
    ctx.check(q.get(block=False) == model.pop(0), "wrong element")


def _try_put(q, x):
  try:
    q.put(x, block=False)
    return True
  except queue.Full:
    return False


@harness("P28", "thread_sizes", "5 (thorough 7) operations out of put, get and resize on one thread, every limit an unbounded symbolic integer: accepted exactly while below the limit", quick_s=60, thorough_s=200, stubs=(S_Q,))
def p28_sizes(ctx, tier="quick"):
  with sched.installed(ctx, preempt=0):
    lim = ctx.int("limit", -BIG, BIG)
    _sequential(ctx, _thread_queue(ctx)(lim), _try_put, (lim, lambda i: ctx.int(f"size{i}", -BIG, BIG)), 5 if tier == "quick" else 7, lambda: None)


@harness("P28", "process_sizes", "4 (thorough 6) operations out of put, get and resize by one process at a time, limits 0..3, each put delivered before the next operation: accepted exactly while below the limit", quick_s=90, thorough_s=300, stubs=(S_MP,))
def p28_psizes(ctx, tier="quick"):
  mk, view = _process_queue(ctx)
  with sched.installed(ctx, preempt=0, free=False) as s:
    lim = ctx.cint("limit", 0, 3)
    q = mk(lim)
    other = view(q)
    put = lambda q_, x: _try_put(other, x)
    _sequential(ctx, q, put, (lim, lambda i: ctx.cint(f"size{i}", 0, 3)), 4 if tier == "quick" else 6, s.run_others)


def _room(ctx, mk, view, preempt, top):
  """Nobody takes or gives anything else: what fits goes in, what is there comes out."""
  with sched.installed(ctx, preempt=preempt) as s:
    lim = ctx.cint("limit", 0, top)
    q = mk(lim)
    done, got = [], []
    kind = ctx.choice("waiting", ["producers", "consumers"])
    n = ctx.cint("threads", 1, 3)

    def put(k):
      view(q).put(k)
      done.append(k)

    def get(k):
      del k
      got.append(view(q).get())

    ths = [sched.Thread(target=put if kind == "producers" else get, args=(k,), name=f"{kind}{k}") for k in range(n)]
    for t in ths:
      t.start()
    most = last = lim
    for k in range(ctx.cint("resizes", 0, 1)):
      new = ctx.cint(f"new{k}", 0, 3)
      q.set_max_size(new)
      most, last = max(most, new), new
    s.run_others()
    if kind == "producers":
      # A lower limit does not undo what a higher one let in before.
      ctx.check(len(done) >= min(n, last), f"only {len(done)} of {n} waiting producers go on, limit {last}")
      ctx.check(len(done) <= most, f"{len(done)} producers go on, limit {most}")
    else:
      put = 0
      while put < n and _try_put(q, put):
        put += 1
      s.run_others()
      ctx.check(len(got) == put, f"{put} elements, {len(got)} of {n} waiting consumers go on")
    ctx.check(not s.uncaught, f"a thread died: {s.uncaught}")


@harness("P28", "thread_waiters", "1..3 producers or consumers wait, limit 0..2, at most one resize to 0..3: exactly as many go on as there is room or elements, without any other call; at most 1 (thorough 2) preemptions", quick_s=60, thorough_s=200, stubs=(S_Q,))
def p28_room(ctx, tier="quick"):
  _room(ctx, _thread_queue(ctx), lambda q: q, 1 if tier == "quick" else 2, 2)


@harness("P28", "process_waiters", "1..3 producer or consumer processes wait, limit 0..1 (thorough 2), at most one resize to 0..3: as thread_waiters; no preemption (thorough 1)", quick_s=60, thorough_s=200, stubs=(S_MP,))
def p28_proom(ctx, tier="quick"):
  mk, view = _process_queue(ctx)
  _room(ctx, mk, view, 0 if tier == "quick" else 1, 1 if tier == "quick" else 2)
