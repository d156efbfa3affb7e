"""Checkpointing: a state taken anywhere restores the exact remaining stream."""

from harness.common import *  # noqa
from harness.h_map import S_SHUF, _tag
from harness.h_map2 import U32, _preds
from symx.registry import harness

LAW = ("state after any number of elements (also after the end was seen), 0..2 elements read on, restored into a fresh, the same or another used "
       "iterator, directly or through JSON; second checkpoint after 0..2 more elements")


def _law(pid, name, bounds, build, *, max_out=12, quick_s=110, thorough_s=300, modes=("fresh", "same", "used"), stubs=(), n=(0, 4), must=True, **kw):
  @harness(pid, name, f"{bounds}; {LAW}", quick_s=quick_s, thorough_s=thorough_s, stubs=stubs,
           must_reach=("mid-stream restore",) if must else (), **kw)
  def h(ctx):
    mk = build(ctx)
    if mk is not None:
      checkpoint_law(ctx, mk, max_out, modes=modes)
  return h


def _toks(ctx, n):
  return [ctx.token(f"t{q}") for q in range(n)]


# ------------------------------------------------------------------ P12


def _b_source(ctx):
  n = ctx.cint("n", 0, 4)
  t = _toks(ctx, n)
  return lambda: list_iter(t)


_law("P12", "source", "0..4 symbolic payloads", _b_source)


def _b_filter(ctx):
  n = ctx.cint("n", 0, 4)
  keep = _preds(ctx, n)
  side = ctx.cbool("iter_side")
  p = lambda x: bool(keep[x])
  if side:
    return lambda: src_iter(n).filter(p)
  return lambda: src_map(n).filter(p).to_iter_dataset(read0())


_law("P12", "filter", "0..4 elements, arbitrary predicate, either side", _b_filter, quick_s=170)


def _b_batch(ctx):
  n = ctx.cint("n", 0, 5)
  b = ctx.cint("b", 1, 3)
  drop = ctx.cbool("drop")
  t = _toks(ctx, n)
  return lambda: list_iter(t).batch(b, drop_remainder=drop, batch_fn=list)


_law("P12", "batch", "0..5 symbolic payloads, batch 1..3, both remainder modes", _b_batch, quick_s=170)


def _b_filter_batch(ctx):
  n = ctx.cint("n", 1, 4)
  keep = _preds(ctx, n)
  p = lambda x: bool(keep[x])
  return lambda: src_iter(n).filter(p).batch(2, batch_fn=list).map(_tag("b"))


_law("P12", "filter_batch_map", "1..4 elements, arbitrary predicate, batches of 2, map", _b_filter_batch)


def _b_limit(ctx):
  M = mods()
  n = ctx.cint("n", 0, 4)
  c = ctx.cint("count", 1, 5)
  return lambda: M.limit.LimitIterDataset(src_iter(n).map(_tag("x")), c)


_law("P12", "limit", "0..4 elements, limit 1..5", _b_limit)


def _b_index(ctx):
  n = ctx.cint("n", 0, 4)
  off = ctx.cint("filter_even", 0, 1)

  def mk():
    ds = src_iter(n)
    if off:
      ds = ds.filter(lambda x: x % 2 == 0)
    return ds.map_with_index(lambda i, x: (i, x))

  return mk


_law("P12", "map_with_index", "0..4 elements, after an optional filter", _b_index)


def _b_zip(ctx):
  M = mods()
  n1, n2 = ctx.cint("n1", 0, 3), ctx.cint("n2", 0, 3)
  return lambda: M.zip.ZipIterDataset([src_iter(n1), src_iter(n2).map(_tag("z"))], strict=False)


_law("P12", "zip", "two iterators of length 0..3, not strict", _b_zip, modes=("fresh", "used"))


def _b_mix(ctx):
  M = mods()
  k = 2
  ns = [ctx.cint(f"n{q}", 0, 3) for q in range(k)]
  w = [ctx.cint(f"w{q}", 1, 2) for q in range(k)]
  named = ctx.cbool("named")

  def mk():
    src = [src_iter(n).map(_tag(q)) for q, n in enumerate(ns)]
    if named:
      return M.mix.MixedIterDataset(dict(zip("ab", src)), dict(zip("ab", w)))
    return M.mix.MixedIterDataset(src, w)

  return mk


_law("P12", "mix", "two iterators of length 0..3, weights 1..2, list or named", _b_mix, quick_s=170)


def _b_repeat(ctx):
  M = mods()
  n = ctx.cint("n", 1, 3)
  ep = ctx.cint("epochs", 1, 3)
  keep = _preds(ctx, n)
  p = lambda x: bool(keep[x])
  return lambda: M.repeat.RepeatIterDataset(src_iter(n).filter(p), ep)


_law("P12", "repeat", "1..3 elements, arbitrary predicate, 1..3 epochs", _b_repeat, quick_s=170)


def _b_repeat_batch(ctx):
  M = mods()
  n = ctx.cint("n", 1, 4)
  b = ctx.cint("b", 1, 3)
  ep = ctx.cint("epochs", 1, 2)
  order = ctx.cbool("batch_first")

  def mk():
    if order:
      return M.repeat.RepeatIterDataset(src_iter(n).batch(b, batch_fn=list), ep)
    return M.repeat.RepeatIterDataset(src_iter(n), ep).batch(b, batch_fn=list)

  return mk


_law("P12", "repeat_batch", "1..4 elements, batch 1..3 before or after repeating 1..2 times", _b_repeat_batch)


def _b_repeat_inf(ctx):
  M = mods()
  n = ctx.cint("n", 1, 3)
  side = ctx.cbool("map_side")
  if side:
    return lambda: raw_map(n).repeat().to_iter_dataset(read0())
  return lambda: M.repeat.RepeatIterDataset(src_iter(n))


_law("P12", "repeat_forever", "1..3 elements repeated without end, first 8 elements", _b_repeat_inf, max_out=8)


def _b_cache(ctx):
  M = mods()
  n = ctx.cint("n", 0, 3)
  ep = ctx.cint("epochs", 1, 2)
  t = _toks(ctx, n)
  if not n and ep > 1:
    return None

  def mk():
    ds = M.cache.CacheIterDataset(list_iter(t))
    return ds if ep == 1 else M.repeat.RepeatIterDataset(ds, ep)

  return mk


_law("P12", "cache", "0..3 symbolic payloads cached in memory, read once or twice", _b_cache, quick_s=150)


def _b_shuffle(ctx):
  n = ctx.cint("n", 1, 3)
  seed = ctx.int("seed", 0, U32 - 1)
  ep = ctx.cint("epochs", 1, 2)
  return lambda: raw_map(n).shuffle(seed=seed).repeat(ep).to_iter_dataset(read0())


_law("P12", "shuffle_repeat", "1..3 elements, any seed, 1..2 epochs", _b_shuffle, stubs=(S_SHUF,), max_out=8, quick_s=150)


def _b_nested(ctx):
  M = mods()
  n = ctx.cint("n", 2, 4)
  keep = _preds(ctx, 2)
  c = ctx.cint("count", 1, 3)

  def mk():
    a = src_iter(n).filter(lambda x: x > 1 or bool(keep[x]))
    b = M.limit.LimitIterDataset(src_iter(n), c).batch(1, batch_fn=tuple)
    z = M.zip.ZipIterDataset([a, b], strict=False)
    return M.mix.MixedIterDataset([z.map(_tag("z")), src_iter(2)], [2, 1])

  return mk


_law("P12", "nested", "mix of a zip of (filter) and (limit, batch) with a source of 2; 2..4 elements", _b_nested, modes=("fresh", "used"))


@harness("P12", "source_state_any_position", "sources of length symbolic up to 2^62, state with any integer position: resumes exactly there, refuses positions outside",
         quick_s=60, must_reach=("refused", "resumed"))
def source_any(ctx):
  n = ctx.int("n", 0, 2**62)
  p = ctx.int("p", -2**62, 2**63)
  it = iter(raw_map(n).to_iter_dataset(read0()))
  try:
    it.set_state({"next_index": p})
  except (IndexError, ValueError):
    ctx.reach("refused")
    ctx.check(disj([p < 0, p > n]), "valid position refused")
    return
  ctx.check(conj([p >= 0, p <= n]), "position outside the dataset accepted")
  ctx.eq(it.get_state(), {"next_index": p}, "position")
  try:
    x = next(it)
  except StopIteration:
    ctx.check(p == n, "ends although elements are left")
    return
  ctx.reach("resumed")
  ctx.check(conj([x == p, p < n]), "resumed at another element")
  ctx.eq(it.get_state(), {"next_index": p + 1}, "position after one element")


# ------------------------------------------------------------------ P13


def _b_rebatch(ctx):
  deep = ctx.tier == "thorough"
  n = ctx.cint("n", 0, 3)
  sizes = [ctx.cint(f"s{q}", 1, 3 if deep or n < 3 else 2) for q in range(n)]
  b = ctx.cint("b", 1, 4 if deep or n < 3 else 3)
  drop = ctx.cbool("drop")
  return _rebatch(ctx, sizes, b, drop)


def _rebatch(ctx, sizes, b, drop):
  M = mods()
  batches, q = [], 0
  for s in sizes:
    batches.append({"x": arr([ctx.token(f"t{q + w}") for w in range(s)])})
    q += s
  return lambda: M.rebatch.RebatchIterDataset(list_iter(batches), batch_size=b, drop_remainder=drop)


_law("P13", "rebatch", "0..3 batches of 1..3 (quick: three batches only of 1..2) symbolic payloads rebatched to 1..4 (1..3), both remainder modes", _b_rebatch, quick_s=240, thorough_s=500)


def _b_rebatch_repeat(ctx):
  M = mods()
  sizes = [ctx.cint(f"s{q}", 1, 2) for q in range(ctx.cint("n", 1, 2))]
  b = ctx.cint("b", 1, 3)
  mk = _rebatch(ctx, sizes, b, ctx.cbool("drop"))
  if ctx.cbool("repeat"):
    return lambda: M.repeat.RepeatIterDataset(mk(), 2)
  return lambda: M.limit.LimitIterDataset(mk(), 3)


_law("P13", "rebatch_repeat", "1..2 batches of 1..2 rebatched to 1..3, repeated twice or limited to 3", _b_rebatch_repeat, quick_s=170)


def _flat(fan):
  M = mods()

  class Split(M.transforms.FlatMap):
    max_fan_out = 10

    def flat_map(self, x):
      return [(x, q) for q in range(fan[x])]

  return Split()


def _b_flat(ctx):
  M = mods()
  n = ctx.cint("n", 0, 3)
  fan = [ctx.cint(f"fan{q}", 0, 2) for q in range(n)]
  return lambda: M.flatmap.FlatMapIterDataset(src_iter(n), _flat(fan))


_law("P13", "flat_map", "0..3 elements split into 0..2 pieces", _b_flat, quick_s=200)


def _b_flat_nest(ctx):
  M = mods()
  n = ctx.cint("n", 1, 2)
  fan = [ctx.cint(f"fan{q}", 0, 2) for q in range(n)]
  kind = ctx.choice("kind", ["repeat", "batch", "flat_of_filter", "twice"])

  def mk():
    f = M.flatmap.FlatMapIterDataset(src_iter(n), _flat(fan))
    if kind == "repeat":
      return M.repeat.RepeatIterDataset(f, 2)
    if kind == "batch":
      return f.batch(2, batch_fn=list)
    if kind == "twice":
      return M.flatmap.FlatMapIterDataset(f.map(lambda x: x[0]), _flat(fan))
    return M.flatmap.FlatMapIterDataset(src_iter(n).filter(lambda x: x == 1), _flat(fan))

  return mk


_law("P13", "flat_map_nested", "1..2 elements split into 0..2 pieces, under repeat, batch, filter or a second flat map", _b_flat_nest, quick_s=170)


def _b_window(ctx):
  M = mods()
  w = ctx.cint("w", 1, 3)
  n = ctx.cint("n", 0, 4 if w < 3 or ctx.tier == "thorough" else 3)
  seed = ctx.int("seed", 0, U32 - 1)
  return lambda: M.shuffle.WindowShuffleIterDataset(src_iter(n), window_size=w, seed=seed)


_law("P13", "window_shuffle", "0..4 elements (quick: 0..3 for window 3), window 1..3, any seed, every permutation of each window", _b_window, stubs=(S_SHUF,), quick_s=240, thorough_s=600)


def _b_window_nest(ctx):
  M = mods()
  n = ctx.cint("n", 1, 3)
  kind = ctx.choice("kind", ["repeat", "batch", "filter"])

  def mk():
    src = src_iter(n)
    if kind == "filter":
      src = src.filter(lambda x: x != 1)
    w = M.shuffle.WindowShuffleIterDataset(src, window_size=2, seed=5)
    if kind == "repeat":
      return M.repeat.RepeatIterDataset(w, 2)
    if kind == "batch":
      return w.batch(2, batch_fn=list)
    return w

  return mk


_law("P13", "window_shuffle_nested", "1..3 elements, window 2, under repeat or batch, over filter", _b_window_nest, stubs=(S_SHUF,), quick_s=170)
