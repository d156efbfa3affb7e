"""Threads: prefetching, queues, pools; schedules are symbolic inputs."""

from harness.common import *  # noqa
from harness.h_map import _tag
from symx import sched
from symx.registry import harness

S_SCHED = "threading, queue, concurrent.futures and time are models whose operations are atomic; the schedule is a symbolic input"


class Boom(Exception):
  pass


def outcomes(it, k):
  """The next k outcomes: elements, errors, the end."""
  out = []
  for _ in range(k):
    try:
      out.append(("elem", norm(next(it))))
    except StopIteration:
      out.append(("end",))
    except Boom as e:
      out.append(("error", str(e)))
  return out


def failing(n, bad):
  """0..n-1 as a stream; the elements in `bad` raise."""

  def f(x):
    if x in bad:
      raise Boom(str(x))
    return x

  return src_iter(n).map(f)


# ------------------------------------------------------------------ P26


def _thread_prefetch(ds, b):
  return mods().prefetch.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=b)


@harness("P26", "stream", "streams of 0..3 elements, at most one failing, buffer 0..2, early start or not, schedules with at most 2 preemptions at synchronisation points; elements, error, end and twice past the end",
         quick_s=120, stubs=(S_SCHED,))
def p26_stream(ctx):
  n = ctx.cint("n", 0, 3)
  b = ctx.cint("buffer", 0, 2)
  bad = {ctx.cint("bad", 0, n)} - {n}
  total = n + 2
  ref = outcomes(failing(n, bad).__iter__(), total)
  with sched.installed(ctx, preempt=2) as s:
    it = _thread_prefetch(failing(n, bad), b).__iter__()
    if ctx.cbool("start"):
      it.start_prefetch()
    ctx.eq(outcomes(it, total), ref, "prefetched stream differs")
    it.close()
    ctx.check(not s.alive(), "the producer runs after close")
    ctx.check(not s.uncaught, f"a thread died: {s.uncaught}")


def _p26_ops(ctx, n, b, bad, preempt, lines=(), nops=3):
  ref = outcomes(failing(n, bad).__iter__(), n + 3)
  with sched.installed(ctx, preempt=preempt, lines=lines) as s:
    it = _thread_prefetch(failing(n, bad), b).__iter__()
    pos = 0  # outcomes delivered
    saved = []  # (position after the last delivered element, state)
    last = 0
    for q in range(nops):
      op = ctx.choice(f"op{q}", ["read", "save", "restore", "start", "close"])
      if op == "read":
        got = outcomes(it, 1)
        ctx.eq(got, ref[pos:pos + 1] if pos < len(ref) else [("end",)], "element differs")
        if got[0][0] == "elem":
          last = pos + 1
          pos += 1
        elif got[0][0] == "error":
          pos += 1
      elif op == "save":
        st = it.get_state()
        saved.append((last, st, copy.deepcopy(st)))
      elif op == "restore":
        if not saved:
          ctx.assume(False)
        p, st, _ = saved[-1]
        it.set_state(st)
        pos = last = p
      elif op == "start":
        it.start_prefetch()
      else:
        it.close()
        ctx.check(not s.alive(), "the producer runs after close")
        if b:
          # With a buffer, a closed iterator refuses to go on.
          try:
            next(it)
            ctx.check(False, "element after close")
          except (ValueError, StopIteration):
            pass
        return saved, ref, s
    st = it.get_state()
    saved.append((last, st, copy.deepcopy(st)))
    rest = outcomes(it, len(ref) - pos)
    ctx.eq(rest, ref[pos:], "stream after the operations differs")
    it.close()
    ctx.check(not s.alive(), "the producer runs after close")
    for p, st, keep in saved:
      ctx.eq(st, keep, "a state changed after it was taken")
    p, st, _ = saved[-1]
    it2 = _thread_prefetch(failing(n, bad), b).__iter__()
    it2.set_state(st)
    ctx.eq(outcomes(it2, len(ref) - p), ref[p:], "stream restored in a new iterator differs")
    it2.close()
    ctx.check(not s.alive(), "the producer runs after close")
    ctx.check(not s.uncaught, f"a thread died: {s.uncaught}")


@harness("P26", "operations", "streams of 2..3 elements, at most one failing, buffer 1..2; 3 operations out of read, save, restore, start, close, then the rest, then a restore in a new iterator; at most 1 preemption at synchronisation points",
         quick_s=200, thorough_s=600, stubs=(S_SCHED,))
def p26_ops(ctx, tier="quick"):
  n = ctx.cint("n", 2, 3)
  b = ctx.cint("buffer", 1, 2)
  bad = {ctx.cint("bad", 0, n)} - {n}
  _p26_ops(ctx, n, b, bad, 1 if tier == "quick" else 2, nops=3 if tier == "quick" else 4)


@harness("P26", "lines", "stream of 2 elements, buffer 1; 2 operations, then the rest, then a restore; one preemption at any source line of prefetch.py",
         quick_s=200, thorough_s=600, stubs=(S_SCHED,))
def p26_lines(ctx, tier="quick"):
  _p26_ops(ctx, 2, 1, set(), 1, lines=("transformations/prefetch.py",), nops=2 if tier == "quick" else 3)


@harness("P26", "position", "streams of 1..3 (quick: 2) elements, buffer 0..2; the next index read and set at any point",
         quick_s=140, stubs=(S_SCHED,))
def p26_pos(ctx):
  g = grain()
  M = mods()
  n = ctx.cint("n", 1, 2 if ctx.tier == "quick" else 3)
  b = ctx.cint("buffer", 0, 2)
  with sched.installed(ctx, preempt=1) as s:
    it = _thread_prefetch(src_iter(n), b).__iter__()
    k = ctx.cint("k", 0, n)
    ctx.eq(take(it, k), list(range(k)), "prefix")
    if ctx.cbool("restored"):
      it.set_state(it.get_state())
    ctx.eq(M.dataset.get_next_index(it), k, "next index")
    j = ctx.cint("j", 0, n)
    if ctx.cbool("move"):
      M.dataset.set_next_index(it, j)
    else:
      j = k
    ctx.eq(M.dataset.get_next_index(it), j, "next index after moving")
    st = it.get_state()
    m = ctx.cint("m", 0, 1)
    ctx.eq(take(it, m), list(range(n))[j:j + m], "elements after moving")
    ctx.eq(M.dataset.get_next_index(it), min(n, j + m), "next index after reading")
    it2 = _thread_prefetch(src_iter(n), b).__iter__()
    it2.set_state(st)
    ctx.eq(take(it2, n + 1), list(range(n))[j:], "restored after moving")
    it.close()
    it2.close()
    ctx.check(not s.alive(), "the producer runs after close")


# ------------------------------------------------------------------ P25


class _FailMap:
  """Random access elements: value, missing, or failing."""

  def __init__(self, kinds):
    self.kinds = kinds

  def __len__(self):
    return len(self.kinds)

  def __getitem__(self, i):
    if self.kinds[i] == "fail":
      raise Boom(str(i))
    return i


def _p25_ds(kinds, ro, allow):
  g = grain()
  ds = g.MapDataset.source(_FailMap(kinds)).filter(lambda x: kinds[x] != "none")
  return ds.to_iter_dataset(ro, allow_nones=allow)


def _p25_ref(kinds, allow, start=0):
  """(position after it, outcome) of every delivered element or error."""
  out = []
  for i in range(start, len(kinds)):
    if kinds[i] == "fail":
      out.append((i + 1, ("error", str(i))))
    elif kinds[i] == "none":
      if allow:
        out.append((i + 1, ("elem", None)))
    else:
      out.append((i + 1, ("elem", i)))
  return out


@harness("P25", "stream", "0..3 (thorough 4) elements each present, missing or failing, 0..2 threads, buffer 0..3, missing kept or skipped, schedules with at most 1 preemption (quick: 3 elements without)",
         quick_s=150, thorough_s=400, stubs=(S_SCHED,))
def p25_stream(ctx, tier="quick"):
  n = ctx.cint("n", 0, 3 if tier == "quick" else 4)
  kinds = [ctx.choice(f"kind{q}", ["ok", "none", "fail"]) for q in range(n)]
  allow = ctx.cbool("allow_nones")
  deep = tier == "thorough"
  with sched.installed(ctx, preempt=1 if deep or n < 3 else 0) as s:
    ro = grain().ReadOptions(num_threads=ctx.cint("threads", 0, 2), prefetch_buffer_size=ctx.cint("buffer", 0, 3))
    it = iter(_p25_ds(kinds, ro, allow))
    _p25_follow(ctx, it, kinds, allow, 0)
    it.close()
    s.run_others()
    ctx.check(not s.alive(), "threads run after close")


def _p25_follow(ctx, it, kinds, allow, pos, limit=99):
  """Reads on from position pos; every outcome has to be the one of its index.

  After a failure the iterator may stand at or behind the failing element, but
  it has to say which, and go on from there.
  """
  retried = False
  while limit:
    limit -= 1
    ref = _p25_ref(kinds, allow, pos)
    try:
      got = ("elem", norm(next(it)))
    except StopIteration:
      ctx.check(not ref, "ends although elements are left")
      return len(kinds)
    except Boom as e:
      got = ("error", str(e))
    ctx.check(bool(ref), "element after the end")
    ctx.eq(got, ref[0][1], "outcome differs")
    p = it.get_state()["next_index"]
    if got[0] == "error":
      at = ref[0][0] - 1
      # Missing elements in front of it may have been passed already.
      ctx.check(p in (at, at + 1), "position after a failing element")
      if p == at:
        if retried:
          # It stays there: skip it by hand.
          it.set_state({"next_index": at + 1})
          p = at + 1
          retried = False
        else:
          retried = True
      else:
        retried = False
    else:
      ctx.eq(p, ref[0][0], "position after an element")
      retried = False
    pos = p
  return pos


@harness("P25", "operations", "3 (thorough 2..4) elements, one of them missing or failing or none, (threads, buffer) in (0,0), (1,2), (2,1) (thorough 0..2 x 0..2); 3 (thorough 4) operations out of read, resize buffer (0, 2) or pool (0, 1), restore to the start or the last element (thorough: sizes 0..2, any position), start prefetch, then the rest; no preemption (thorough: every forced switch)",
         quick_s=200, thorough_s=700, stubs=(S_SCHED,))
def p25_ops(ctx, tier="quick"):
  deep = tier == "thorough"
  n = ctx.cint("n", 2, 4) if deep else 3
  kinds = ["ok"] * n
  if deep:
    x = ctx.cint("odd", 0, n)
    if x < n:
      kinds[x] = ctx.choice("kind", ["none", "fail"])
  else:
    x, k = ctx.choice("odd", [(0, "ok"), (0, "fail"), (1, "none"), (1, "fail")])
    kinds[x] = k
  with sched.installed(ctx, preempt=0, free=deep) as s:
    nt, bs = (ctx.cint("threads", 0, 2), ctx.cint("buffer", 0, 2)) if deep else ctx.choice("config", [(0, 0), (1, 2), (2, 1)])
    ro = grain().ReadOptions(num_threads=nt, prefetch_buffer_size=bs)
    it = iter(_p25_ds(kinds, ro, False))
    pos = 0
    for q in range(4 if deep else 3):
      op = ctx.choice(f"op{q}", ["read", "buffer", "threads", "restore"] + ["start"] * (deep or not q))
      if op == "read":
        pos = _p25_follow(ctx, it, kinds, False, pos, 1)
      elif op == "buffer":
        it._set_prefetch_buffer_size(ctx.cint(f"v{q}", 0, 2) if deep else ctx.choice(f"v{q}", [0, 2]))
      elif op == "threads":
        it._set_num_threads(ctx.cint(f"v{q}", 0, 2) if deep else ctx.cint(f"v{q}", 0, 1))
      elif op == "restore":
        pos = ctx.cint(f"v{q}", 0, n) if deep else ctx.choice(f"v{q}", [0, n - 1])
        it.set_state({"next_index": pos})
      else:
        it.start_prefetch()
      # get_state is exact at any time, up to missing elements passed over.
    _p25_follow(ctx, it, kinds, False, pos)
    it.close()
    s.run_others()
    ctx.check(not s.alive(), "threads run after close")


@harness("P25", "resize", "5 (thorough 3..5) elements, the last failing, missing or neither; (threads, buffer) in (0,0), (1,1), (1,2), (2,3); reads of 0..1, 1 and the rest, between them twice a resize of buffer or pool to 0 or up; no preemption",
         quick_s=100, thorough_s=400, stubs=(S_SCHED,))
def p25_resize(ctx, tier="quick"):
  """Sizes going down and up again while elements are buffered."""
  deep = tier == "thorough"
  n = ctx.cint("n", 3, 5) if deep else 5
  kinds = ["ok"] * (n - 1) + [ctx.choice("kind", ["ok", "none", "fail"])]
  with sched.installed(ctx, preempt=1 if deep else 0) as s:
    nt, bs = ctx.choice("config", [(0, 0), (1, 1), (1, 2), (2, 3)])
    it = iter(_p25_ds(kinds, grain().ReadOptions(num_threads=nt, prefetch_buffer_size=bs), False))
    pos = 0
    for q in range(3 if deep else 2):
      k = ctx.cint(f"read{q}", 0, 2) if deep else ctx.cint("read0", 0, 1) if not q else 1
      pos = _p25_follow(ctx, it, kinds, False, pos, k)
      if ctx.cbool(f"buffer{q}"):
        it._set_prefetch_buffer_size(ctx.choice(f"v{q}", [0, 1, 3]))
      else:
        it._set_num_threads(ctx.choice(f"v{q}", [0, 1, 2]))
      if deep and ctx.cbool(f"restore{q}"):
        it.set_state(it.get_state())
    _p25_follow(ctx, it, kinds, False, pos)
    it.close()
    s.run_others()
    ctx.check(not s.alive(), "threads run after close")


@harness("P25", "pipeline", "dataset of 3 symbolic payloads through map, batch of 2, repeat 2, shuffle-free: prefetched (1..2 threads, buffer 0..2, thorough 0..4) equals unprefetched; schedules with at most 1 preemption (thorough 2)",
         quick_s=80, thorough_s=200, stubs=(S_SCHED,))
def p25_pipe(ctx):
  g = grain()
  t = [ctx.token(f"t{q}") for q in range(3)]
  mk = lambda: src_map(3, t).map(_tag("m")).repeat(2).batch(2, batch_fn=list)
  ref = drain(iter(mk().to_iter_dataset(read0())))
  with sched.installed(ctx, preempt=1 if ctx.tier == "quick" else 2) as s:
    ro = g.ReadOptions(num_threads=ctx.cint("threads", 1, 2), prefetch_buffer_size=ctx.cint("buffer", 0, 2 if ctx.tier == "quick" else 4))
    it = iter(mk().to_iter_dataset(ro))
    ctx.eq(norm(drain(it)), norm(ref), "prefetched pipeline differs")
    it.close()


@harness("P26", "device_put", "streams of 0..2 (thorough 3) elements, at most one failing, moved to a device through both buffers (sizes 1..2 and 1..2), at most 1 (thorough 2) preemptions at synchronisation points; read, state after any element restored in a new iterator: the elements in order, then the end or the error, and each moved once to the requested device",
         quick_s=100, thorough_s=400, stubs=(S_SCHED, "jax.device_put records the device and returns the element"))
def p26_device_put(ctx):
  import importlib
  import sys
  import types

  D = importlib.import_module("grain._src.python.experimental.device_put.device_put")
  deep = ctx.tier == "thorough"
  n = ctx.cint("n", 0, 3 if deep else 2)
  bad = {ctx.cint("bad", 0, n)} - {n}
  sizes = (ctx.cint("cpu_buffer", 1, 2), ctx.cint("device_buffer", 1, 2)) if deep else ctx.choice("buffers", [(2, 1), (1, 2)])
  k = ctx.cint("k", 0, n)
  dev = ("device", 0)

  def put(x, device=None, **_):
    ctx.check(device is dev, "another device")
    return ("moved", x)

  old = sys.modules.get("jax")
  sys.modules["jax"] = types.SimpleNamespace(device_put=put)
  try:
    def build():
      return D.device_put(failing(n, bad), dev, cpu_buffer_size=sizes[0], device_buffer_size=sizes[1])

    ref = [("elem", ["moved", o[1]]) if o[0] == "elem" else o for o in outcomes(failing(n, bad).__iter__(), n + 1)]
    stop = next((q for q, o in enumerate(ref) if o[0] != "elem"), len(ref)) + 1
    with sched.installed(ctx, preempt=2 if ctx.tier == "thorough" else 1) as s:
      it = build().__iter__()
      k = min(k, stop - 1)
      ctx.eq(outcomes(it, k), ref[:k], "elements on the device")
      st = it.get_state()
      ctx.eq(outcomes(it, stop - k), ref[k:stop], "elements on the device")
      it.close()
      it2 = build().__iter__()
      it2.set_state(st)
      ctx.eq(outcomes(it2, stop - k), ref[k:stop], "restored elements on the device")
      it2.close()
      ctx.check(not s.alive(), "a producer runs after close")
      ctx.check(not s.uncaught, f"a thread died: {s.uncaught}")
  finally:
    if old is None:
      sys.modules.pop("jax", None)
    else:
      sys.modules["jax"] = old
  if n > 1:
    ctx.reach("moved")
