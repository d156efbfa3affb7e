"""Interleaving: delivery order, checkpoints, regrouped shards."""

from harness.common import *  # noqa
from harness.h_thread import S_SCHED
from symx import sched
from symx.registry import harness

S_DET = S_SCHED + " (one deterministic schedule here; P26 varies it)"


def _parts(lens, kind):
  """Component datasets; element (c, i) is the i-th of component c."""
  out = []
  for c, n in enumerate(lens):
    t = [(c, i) for i in range(n)]
    if kind == "map":
      out.append(src_map(n, t))
    else:
      out.append(list_iter(t))
  return out


def _interleave(lens, cycle, kind, **kw):
  M = mods()
  return M.interleave.InterleaveIterDataset(_parts(lens, kind), cycle_length=cycle, **kw)


def _ref(lens, cycle):
  """Round robin over at most `cycle` open components.

  An exhausted component's slot is passed over for this turn and refilled with
  the next unopened one when its turn comes again.
  """
  cycle = min(cycle, len(lens))
  slots = [None] * cycle  # [component, position]
  nxt, cur, out = 0, 0, []
  if not cycle:
    return out
  while True:
    s = slots[cur]
    if s is None:
      if nxt < len(lens):
        slots[cur] = [nxt, 0]
        nxt += 1
        continue
      if all(x is None for x in slots):
        return out
      cur = (cur + 1) % cycle
      continue
    c, i = s
    if i < lens[c]:
      out.append((c, i))
      s[1] += 1
    else:
      slots[cur] = None
    cur = (cur + 1) % cycle


def _lens(ctx, lo, hi, top):
  return [ctx.cint(f"len{q}", 0, top) for q in range(ctx.cint("n", lo, hi))]


@harness("P21", "order", "0..4 components of 0..3 elements, cycle length 1..4, random-access or streaming components; exact round-robin order",
         quick_s=150, stubs=(S_DET,))
def p21_order(ctx, tier="quick"):
  lens = _lens(ctx, 0, 4, 2 if tier == "quick" else 3)
  cycle = ctx.cint("cycle", 1, 4)
  kind = ctx.choice("kind", ["map", "iter"])
  with sched.installed(ctx, free=False) as s:
    it = _interleave(lens, cycle, kind).__iter__()
    got = drain(it)
    ctx.eq(got, _ref(lens, cycle), "interleaved order differs")
    ctx.check(not take(it, 1), "continues after the end")
    it.close()
    s.run_others()
    ctx.check(not s.alive(), "threads run after close")


@harness("P21", "schedules", "2..3 components of 0..2 elements, cycle length 1..2, buffers 0..2 and 1..2 opening threads: the order does not depend on the schedule (at most 1 preemption)",
         quick_s=150, stubs=(S_SCHED,))
def p21_sched(ctx, tier="quick"):
  lens = _lens(ctx, 2, 3 if tier == "thorough" else 2, 2)
  cycle = ctx.cint("cycle", 1, 2)
  kind = ctx.choice("kind", ["map", "iter"])
  with sched.installed(ctx, preempt=1, free=tier == "thorough") as s:
    it = _interleave(lens, cycle, kind, num_make_iter_threads=ctx.cint("threads", 1, 2), make_iter_buffer_size=ctx.cint("make_buffer", 1, 2),
                     iter_buffer_size=ctx.cint("buffer", 0, 2)).__iter__()
    ctx.eq(drain(it), _ref(lens, cycle), "interleaved order depends on the schedule")
    it.close()
    s.run_others()
    ctx.check(not s.alive(), "threads run after close")


@harness("P21", "payloads", "2 components of 1..3 symbolic payloads under map and batch: payloads unchanged", quick_s=60, stubs=(S_DET,))
def p21_payload(ctx):
  M = mods()
  ns = [ctx.cint(f"n{q}", 1, 3) for q in range(2)]
  toks = [[ctx.token(f"t{c}_{q}") for q in range(n)] for c, n in enumerate(ns)]
  with sched.installed(ctx, free=False):
    ds = M.interleave.InterleaveIterDataset([src_map(n, t) for n, t in zip(ns, toks)], cycle_length=2)
    got = drain(ds.batch(2, batch_fn=list).__iter__())
    want = [toks[c][i] for c, i in _ref(ns, 2)]
    ctx.eq(norm(got), [want[q:q + 2] for q in range(0, len(want), 2)], "payloads differ")


@harness("P21", "multithread", "random-access pipeline of 0..5 elements split over 1..3 threads, sequential or strided slices: every element once, round-robin order",
         quick_s=90, stubs=(S_DET,))
def p21_mt(ctx):
  M = mods()
  n = ctx.cint("n", 0, 5)
  k = ctx.cint("threads", 0, 3)
  b = ctx.cint("buffer", 1, 2)
  with sched.installed(ctx, free=False):
    ds = M.prefetch.multithread_prefetch(src_iter(n), num_threads=k, buffer_size=b)
    got = drain(ds.__iter__())
    kk = max(k, 1)
    want = _ref([len(range(q, n, kk)) for q in range(kk)], kk)
    ctx.eq(got, [q + i * kk for q, i in want] if k else list(range(n)), "elements differ")


def _b_inter(kind, hi, top, cyc, wrap=None):
  def build(ctx):
    lens = _lens(ctx, 1, hi, top)
    cycle = ctx.cint("cycle", 1, cyc)

    def mk():
      ds = _interleave(lens, cycle, kind)
      return wrap(ds) if wrap else ds

    return mk

  return build


def _law14(name, bounds, build, quick_s=150, max_out=14, modes=("fresh", "same", "used")):
  @harness("P14", name, bounds + "; state after any number of elements or after the end, 0..2 read on, restored in a fresh, the same or another used iterator, directly or through JSON; second checkpoint",
           quick_s=quick_s, thorough_s=500, stubs=(S_DET,), must_reach=("mid-stream restore",))
  def h(ctx):
    with sched.installed(ctx, free=False):
      checkpoint_law(ctx, build(ctx), max_out, modes=modes)
  return h


_law14("map_components", "1..3 random-access components of 0..2 elements, cycle length 1..3", _b_inter("map", 3, 2, 3))
_law14("iter_components", "1..3 streaming components of 0..2 elements, cycle length 1..2", _b_inter("iter", 3, 2, 2))
_law14("staggered", "4 random-access components of 0..1 elements, cycle length 2", lambda ctx: _stag(ctx))


def _stag(ctx):
  lens = [ctx.cint(f"len{q}", 0, 1) for q in range(4)]
  return lambda: _interleave(lens, 2, "map")


_law14("repeat", "1..2 streaming components of 0..2 elements, cycle length 1..2, repeated twice",
       lambda ctx: _rep(ctx))


def _rep(ctx):
  M = mods()
  lens = _lens(ctx, 1, 2, 2)
  ctx.assume(sum(lens) > 0)
  cycle = ctx.cint("cycle", 1, 2)
  return lambda: M.repeat.RepeatIterDataset(_interleave(lens, cycle, "iter"), 2)


_law14("stateful_components", "2 components with a filter, batch or flat map inside, cycle length 1..2, under batch or nested in another interleave",
       lambda ctx: _nest14(ctx))


def _nest14(ctx):
  M = mods()
  from harness.h_ckpt import _flat
  cycle = ctx.cint("cycle", 1, 2)
  inner = ctx.choice("inner", ["filter", "batch", "flat"])
  outer = ctx.choice("outer", ["batch", "interleave"])
  n = ctx.cint("n", 0, 2)

  def comp(m):
    ds = src_iter(m)
    if inner == "filter":
      return ds.filter(lambda x: x != 1)
    if inner == "batch":
      return ds.batch(2, batch_fn=list)
    return M.flatmap.FlatMapIterDataset(ds, _flat([1, 2, 0]))

  def mk():
    ds = M.interleave.InterleaveIterDataset([comp(3), comp(n)], cycle_length=cycle)
    if outer == "batch":
      return ds.batch(2, batch_fn=list)
    return M.interleave.InterleaveIterDataset([ds, src_iter(1)], cycle_length=2)

  return mk
