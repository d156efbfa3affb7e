"""Reading and moving the position of iterators (get/set_next_index)."""

from harness.common import *  # noqa
from symx import sched
from symx.registry import harness


def _get(it):
  return mods().dataset.get_next_index(it)


def _set(it, j):
  mods().dataset.set_next_index(it, j)


# A pipeline is (dataset, length, element(j)) with symbolic lengths.


def _layer(ctx, q, kind, pipe):
  ds, n, el = pipe
  if kind == "map":
    return ds.map(lambda x: ("m", x)), n, lambda j: ("m", el(j))
  if kind == "index":
    return ds.map_with_index(lambda i, x: (i, x)), n, lambda j: (j, el(j))
  if kind == "batch":
    b = ctx.cint(f"b{q}", 1, 3)
    drop = ctx.cbool(f"drop{q}")
    m = n // b if drop else (n + b - 1) // b

    def rows(j):
      out = []
      for r in range(b):
        if j * b + r < n:
          out.append(el(j * b + r))
      return out

    return ds.batch(b, drop_remainder=drop, batch_fn=list), m, rows
  if kind == "limit":
    k = ctx.int(f"limit{q}", 1, BIG)
    return mods().limit.LimitIterDataset(ds, count=k), (k if k < n else n), el
  raise ValueError(kind)


def _lister(xs):
  return list(xs)


def _walk(ctx, it, pos, n, el, k):
  """k reads from the symbolic position pos."""
  for _ in range(k):
    try:
      x = next(it)
    except StopIteration:
      ctx.check(pos >= n, "the iterator ends early")
      return pos
    ctx.check(pos < n, "the iterator continues after its last element")
    ctx.eq(x, el(pos), "element at the position differs")
    pos = pos + 1
    # (With a remainder to drop the position past the end is not defined.)
    ctx.eq(_get(it), pos, "the position is not the number of elements produced")
  return pos


def _law(ctx, pipe, build2):
  """Positions are symbolic: anywhere in a pipeline of any length."""
  ds, n, el = pipe
  it = ds.__iter__()
  ctx.eq(_get(it), 0, "the position at the start is not 0")
  pos = _walk(ctx, it, 0, n, el, ctx.choice("before", [0, 2]))
  j = ctx.int("j", 0, BIG)
  ctx.assume(j < n)
  _set(it, j)
  ctx.eq(_get(it), j, "the position just set is not read back")
  how = ctx.choice("how", ["read", "state", "again"])
  if how == "state":
    # State and position are interchangeable.
    st = it.get_state()
    it2 = build2().__iter__()
    it2.set_state(jsonable(st))
    ctx.eq(_get(it2), j, "the restored position differs")
    _walk(ctx, it2, j, n, el, 2)
    it3 = build2().__iter__()
    _set(it3, j)
    ctx.eq(jsonable(it3.get_state()), jsonable(st), "the state depends on how the position was reached")
  elif how == "again":
    _walk(ctx, it, j, n, el, 1)
    p = ctx.int("p", 0, BIG)
    ctx.assume(p < n)
    _set(it, p)
    ctx.eq(_get(it), p, "the position just set is not read back")
    j = p
  _walk(ctx, it, j, n, el, 2)
  del pos


def _chain(kinds_per_layer):
  def run(ctx):
    kinds = [ctx.choice(f"layer{q}", ks) for q, ks in enumerate(kinds_per_layer)]
    n = ctx.int("n", 1, BIG)
    base = ctx.choice("base", ["plain", "slice", "repeat"]) if len(kinds) == 1 or ctx.tier == "thorough" else "plain"

    def build():
      src = raw_map(n)
      if base == "plain":
        pipe = (src.to_iter_dataset(read0()), n, lambda j: j)
      elif base == "slice":
        s = ctx.cint("step", 1, 3)
        pipe = (src[1::s].to_iter_dataset(read0()), (n - 1 + s - 1) // s, lambda j: 1 + j * s)
      else:
        r = 3
        pipe = (src.repeat(r, reseed_each_epoch=False).to_iter_dataset(read0()), n * r, lambda j: j % n)
      for q, k in enumerate(kinds):
        pipe = _layer(ctx, q, k, pipe)
      return pipe

    if base == "slice":
      ctx.assume(n > 1)
    pipe = build()
    ctx.assume(pipe[1] > 0)
    _law(ctx, pipe, lambda: build()[0])
  return run


K = ["map", "index", "batch", "limit"]

harness("P16", "one_layer", "source, slice or 3-fold repetition of any length up to 2^40 under one of map, map_with_index, batch 1..3, limit of any size; any position; 2 reads before and after, state round trip or second move",
        quick_s=100)(_chain([K]))
harness("P16", "two_layers", "every pair of map, map_with_index, batch and limit layers over sources of any length up to 2^40 (thorough: slice and repeat included), any position",
        quick_s=170, thorough_s=600)(_chain([["index", "batch", "limit"], ["map", "index", "batch", "limit"]]))


@harness("P16", "random_map", "random map over 1..5 elements, optionally batched, or 1..4 positions of which any may be missing (and the missing ones kept in the stream): moving gives the very elements of a fresh pass", quick_s=60)
def p16_random(ctx):
  kind = ctx.choice("kind", ["all", "missing"])
  n = ctx.cint("n", 1, 5 if kind == "all" else 4)
  b = ctx.cint("b", 0, 2) if kind == "all" else 0
  there = [kind == "all" or ctx.cbool(f"there{q}") for q in range(n)]

  def build():
    if kind == "all":
      ds = src_iter(n)
    else:
      ds = src_map(n).filter(lambda x: there[x]).to_iter_dataset(read0(), allow_nones=True)
    ds = ds.seed(7).random_map(lambda x, rng: (x, int(rng.integers(2**40))))
    return ds.batch(b, batch_fn=list) if b else ds

  _concrete_law(ctx, build)


def _concrete_law(ctx, build, states=True):
  ref = norm(drain(build().__iter__()))
  if not ref:
    return
  it = build().__iter__()
  k = ctx.cint("k", 0, len(ref))
  ctx.eq(_get(it), 0, "the position at the start is not 0")
  ctx.eq(norm(take(it, k)), ref[:k], "two passes differ")
  how = ctx.choice("how", ["read", "get", "state"])
  if how == "get":
    ctx.eq(_get(it), k, "the position is not the number of elements produced")
  j = ctx.cint("j", 0, len(ref) - 1)
  _set(it, j)
  if how == "get":
    ctx.eq(_get(it), j, "the position just set is not read back")
  m = ctx.cint("m", 0, 2)
  if states and how == "state":
    st = it.get_state()
    it2 = build().__iter__()
    it2.set_state(copy.deepcopy(st))
    ctx.eq(norm(take(it2, m)), ref[j:j + m], "stream restored from the state of a position differs")
    ctx.eq(_get(it2), min(j + m, len(ref)), "the restored position differs")
  ctx.eq(norm(take(it, m)), ref[j:j + m], "stream after moving differs")
  ctx.eq(_get(it), min(j + m, len(ref)), "the position after moving and reading differs")
  ctx.eq(norm(drain(it)), ref[j + m:], "stream after moving differs")


@harness("P16", "thread_prefetch", "thread prefetching (buffer 0..2, early start or not) of 1..4 elements, plain, mapped with index or batched; every position before and after; switches where a thread blocks (thorough: and one preemption)",
         quick_s=130, stubs=("threading and queue are models with atomic operations; the schedule is a symbolic input",))
def p16_thread(ctx):
  M = mods()
  n = ctx.cint("n", 1, 4 if ctx.tier == "thorough" else 3)
  b = ctx.cint("buffer", 0, 2)
  kind = ctx.choice("kind", ["plain", "index", "batch"])

  def build():
    ds = src_iter(n)
    if kind == "index":
      ds = ds.map_with_index(lambda i, x: (i, x))
    if kind == "batch":
      ds = ds.batch(2, batch_fn=list)
    return M.prefetch.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=b)

  with sched.installed(ctx, preempt=1 if ctx.tier == "thorough" else 0):
    _concrete_law(ctx, build)


@harness("P16", "buffered_source", "source of 1 or 3 (thorough 1..4) elements read by 1..2 pool threads with a buffer of 1..2: every position before and after", quick_s=80,
         stubs=("thread pools are models; the schedule is a symbolic input",))
def p16_pool(ctx):
  n = ctx.cint("n", 1, 4) if ctx.tier == "thorough" else ctx.choice("n", [1, 3])
  ro = grain().ReadOptions(num_threads=ctx.cint("threads", 1, 2), prefetch_buffer_size=ctx.cint("buffer", 1, 2))
  with sched.installed(ctx, preempt=0, free=ctx.tier == "thorough"):
    _concrete_law(ctx, lambda: src_map(n).map(lambda x: ("m", x)).to_iter_dataset(ro))


@harness("P16", "interleave_one", "interleaving a single component (source or stream) of 1..4 elements: every position, also after the end was reached", quick_s=80,
         stubs=("threading is a model, deterministic schedule",))
def p16_interleave(ctx):
  M = mods()
  n = ctx.cint("n", 1, 4)
  kind = ctx.choice("kind", ["map", "iter"])

  def build():
    d = src_map(n)
    if kind == "iter":
      d = src_iter(n)
    return M.interleave.InterleaveIterDataset([d], cycle_length=ctx.cint("cycle", 1, 2), num_make_iter_threads=0, make_iter_buffer_size=0, iter_buffer_size=1)

  with sched.installed(ctx, preempt=0, free=False):
    it = build().__iter__()
    if ctx.cbool("ended"):
      ctx.eq(drain(it), list(range(n)), "stream differs")
      ctx.eq(_get(it), n, "the position at the end is not the number of elements produced")
      j = ctx.cint("j", 0, n - 1)
      _set(it, j)
      ctx.eq(_get(it), j, "the position just set is not read back")
      ctx.eq(drain(it), list(range(j, n)), "stream after moving back from the end differs")
    else:
      _concrete_law(ctx, build)
