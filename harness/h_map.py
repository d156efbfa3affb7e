"""Random-access (MapDataset) transformations."""

from harness.common import *  # noqa
from symx.registry import harness

S_SHUF = "index_shuffle is replaced by an arbitrary function obeying its contract (decided for the C++ itself by P01)"


def _epoch_index(ctx, length, name="i"):
  e = ctx.int(name + "_epoch", 0, BIG)
  j = ctx.cint(name, 0, length - 1)
  return e, j, e * length + j


# ---------------------------------------------------------------- P03 slicing


def _slice(ctx, nmax, steps):
  n = ctx.cint("n", 1, nmax)
  a = ctx.choice("start", [None] + list(range(-nmax - 1, nmax + 2)))
  b = ctx.choice("stop", [None] + list(range(-nmax - 1, nmax + 2)))
  st = ctx.choice("step", steps)
  sl = slice(a, b, st)
  exp = list(range(n))[sl]
  ds = raw_map(n).slice(sl)
  ctx.check(len(ds) == len(exp), "length of a slice")
  if not exp:
    return
  e, j, i = _epoch_index(ctx, len(exp))
  ctx.eq(ds[i], e * n + exp[j], "element of a slice")
  ctx.eq(ds._getitems([i])[0], e * n + exp[j], "batched read of a slice")
  ctx.reach("nonempty")


@harness("P03", "slice_pos", "parent length 1..4, start/stop None or -5..5, step None,1,2,3; element index unbounded up to 2^40 epochs",
         quick_s=100, must_reach=("nonempty",))
def slice_pos(ctx):
  _slice(ctx, 4, [None, 1, 2, 3])


@harness("P03", "slice_neg", "parent length 1..4, start/stop None or -5..5, step -1,-2,-3; element index unbounded up to 2^40 epochs",
         quick_s=100, must_reach=("nonempty",))
def slice_neg(ctx):
  _slice(ctx, 4, [-1, -2, -3])


@harness("P03", "slice_any", "parent of any length up to 2^40, any start and stop (negative and missing included), step -3..3; any element of the first 3 epochs",
         quick_s=100, must_reach=("nonempty",))
def slice_any(ctx):
  n = ctx.int("n", 1, BIG)
  a = ctx.choice("a", [None, "x"])
  b = ctx.choice("b", [None, "x"])
  st = ctx.choice("step", [None, 1, 2, 3, -1, -2, -3])
  a = a and ctx.int("start", -2**41, 2**41)
  b = b and ctx.int("stop", -2**41, 2**41)
  ds = raw_map(n)[a:b:st]
  L = core.s_len(ds)
  step = st or 1
  # The first selected position, and the last one admitted.
  if step > 0:
    first = 0 if a is None else (a if a >= 0 else (a + n if a + n >= 0 else 0))
    end = n if b is None else (b if b >= 0 else b + n)
    end = n if end > n else end
    ctx.check(conj([L >= 0, disj([L == 0, first + (L - 1) * step < end]), first + L * step >= end]), "length of a slice")
  else:
    first = n - 1 if a is None else (a if a >= 0 else a + n)
    first = n - 1 if first > n - 1 else first
    end = -1 if b is None else (b if b >= 0 else (b + n if b + n >= 0 else -1))
    ctx.check(conj([L >= 0, disj([L == 0, first + (L - 1) * step > end]), first + L * step <= end]), "length of a slice")
  if L > 0:
    j = ctx.int("j", 0, BIG)
    ctx.assume(j < L)
    e = ctx.cint("e", 0, 2)
    ctx.eq(ds[e * L + j], e * n + first + j * step, "element of a slice")
    ctx.reach("nonempty")


@harness("P03", "slice_of_slice", "parent length 1..4; two nested slices, starts 0..3, stops 1..4 or None, steps 1,2,-1; ds[::] syntax",
         quick_s=90, must_reach=("nonempty",))
def slice_of_slice(ctx):
  n = ctx.cint("n", 1, 4)
  s1 = slice(ctx.choice("a1", [None, 1, 2]), ctx.choice("b1", [None, 3, 4]), ctx.choice("c1", [1, 2, -1]))
  s2 = slice(ctx.choice("a2", [None, 1]), ctx.choice("b2", [None, 2, -1]), ctx.choice("c2", [1, 2, -1]))
  exp1 = list(range(n))[s1]
  exp = exp1[s2]
  ds = raw_map(n)[s1]
  ctx.check(len(ds) == len(exp1), "length of a slice")
  if not exp1:
    return
  ds = ds[s2]
  ctx.check(len(ds) == len(exp), "length of a nested slice")
  if not exp:
    return
  e, j, i = _epoch_index(ctx, len(exp))
  ctx.eq(ds[i], e * n + exp[j], "element of a nested slice")
  ctx.reach("nonempty")


@harness("P03", "shard_partition", "n 1..9 records, 1..5 shards by ds[i::k]; element index up to 2^40 epochs", quick_s=60,
         must_reach=("shard",))
def shard_partition(ctx):
  """Strided shards are disjoint, and together they are everything."""
  n = ctx.cint("n", 1, 9)
  k = ctx.cint("k", 1, 5)
  seen = []
  for s in range(k):
    ds = raw_map(n)[s::k]
    L = len(ds)
    for j in range(L):
      seen.append(ds[j])
    if L and s == ctx.cint("which", 0, k - 1):
      e, j, i = _epoch_index(ctx, L)
      ctx.eq(ds[i], e * n + s + j * k, "element of a strided shard")
      ctx.reach("shard")
  ctx.check(sorted(seen) == list(range(n)), "shards do not partition the data")


@harness("P03", "reindex", "parent length 1..5, 1..4 symbolic indices; element index up to 2^40 epochs", quick_s=60)
def reindex(ctx):
  M = mods()
  n = ctx.cint("n", 1, 5)
  L = ctx.cint("len", 1, 4)
  idx = [ctx.int(f"x{q}", 0, n - 1) for q in range(L)]
  ds = M.slice.ReindexMapDataset(raw_map(n), idx)
  ctx.check(len(ds) == L, "length")
  e, j, i = _epoch_index(ctx, L)
  ctx.eq(ds[i], e * n + idx[j], "element of a reindexed dataset")
  ctx.eq(ds._getitems([i])[0], e * n + idx[j], "batched read of a reindexed dataset")


@harness("P03", "range", "start/stop -4..4, step -3..3 (non-zero); element index up to 2^40 epochs", quick_s=60)
def range_ds(ctx):
  a = ctx.cint("start", -4, 4)
  b = ctx.choice("stop", [None] + list(range(-4, 5)))
  st = ctx.choice("step", [1, 2, 3, -1, -2, -3])
  if b is None and st != 1:
    return
  exp = list(range(a) if b is None else range(a, b, st))
  g = grain()
  ds = g.MapDataset.range(a) if b is None else g.MapDataset.range(a, b, st)
  ctx.check(len(ds) == len(exp), "length of a range")
  if exp:
    e, j, i = _epoch_index(ctx, len(exp))
    ctx.eq(ds[i], exp[j], "element of a range")
  if st >= 1:
    try:
      src = g.python.RangeDataSource(0 if b is None else a, a if b is None else b, st)
    except AssertionError:
      return  # the source insists on start < stop
    ctx.check(len(src) == len(exp), "length of a range source")
    if exp:
      ctx.eq(src[j], exp[j], "element of a range source")


@harness("P03", "range_big", "start, stop and step arbitrary integers up to 2^62 with 1 <= stop-start", quick_s=60, validate=True)
def range_big(ctx):
  """Range source arithmetic for big symbolic bounds."""
  g = grain()
  a = ctx.int("start", 0, 2**62)
  ln = ctx.int("span", 1, 2**62)
  st = ctx.choice("step", [1, 2, 3, 7, 64])
  src = g.python.RangeDataSource(a, a + ln, st)
  n = src.__len__()
  ctx.check(conj([(n - 1) * st < ln, n * st >= ln]), "length of a range source")
  j = ctx.int("j", 0, 2**62)
  ctx.assume(j < n)
  ctx.eq(src[j], a + j * st, "element of a range source")


# ----------------------------------------------------------- P05 repeat (map)


@harness("P05", "repeat_map", "parent length 1..5, 1..4 epochs or infinite, both reseeding modes; index unbounded up to 2^40 epochs",
         quick_s=60, must_reach=("noreseed", "infinite"))
def repeat_map(ctx):
  import sys

  n = ctx.cint("n", 1, 5)
  ep = ctx.choice("epochs", [None, 1, 2, 3, 4])
  rs = ctx.cbool("reseed")
  ds = raw_map(n).repeat(ep, reseed_each_epoch=rs)
  ctx.check(len(ds) == (sys.maxsize if ep is None else n * ep), "length of repeat")
  e, j, i = _epoch_index(ctx, n)
  exp = i if rs else j
  ctx.eq(ds[i], exp, "index passed on by repeat")
  ctx.eq(ds._getitems([i])[0], exp, "batched read of repeat")
  # Batched reads can ask for any positions in any order.
  e2, j2, i2 = _epoch_index(ctx, n, "i2")
  ctx.eq(list(ds._getitems([i, i2])), [exp, i2 if rs else j2], "batched read of repeat")
  ctx.reach("infinite" if ep is None else "finite")
  ctx.reach("reseed" if rs else "noreseed")


@harness("P05", "repeat_same_elements", "source of 1..4 elements; repeat 1..3 times, through iteration: every epoch is the parent's elements in order",
         quick_s=60)
def repeat_same(ctx):
  n = ctx.cint("n", 1, 4)
  toks = [ctx.token(f"t{q}") for q in range(n)]
  ep = ctx.cint("epochs", 1, 3)
  kind = ctx.choice("kind", ["map", "iter"])
  if kind == "map":
    out = drain(iter(src_map(n, toks).repeat(ep).to_iter_dataset(read0())))
  else:
    M = mods()
    ds = M.repeat.RepeatIterDataset(src_iter(n, toks), ep)
    it = iter(ds)
    out = drain(it)
    ctx.check(not take(it, 1), "repeat continues after its last epoch")
  ctx.eq(out, toks * ep, "repeated elements")


@harness("P05", "repeat_sparse", "source of 1..3 elements under a symbolic filter, repeated 1..3 times as an iterator and as a map dataset",
         quick_s=60)
def repeat_sparse(ctx):
  M = mods()
  n = ctx.cint("n", 1, 3)
  keep = [ctx.bool(f"keep{q}") for q in range(n)]
  ep = ctx.cint("epochs", 1, 3)
  pred = lambda x: bool(keep[x])
  if ctx.cbool("map"):
    out = drain(iter(src_map(n).filter(pred).repeat(ep).to_iter_dataset(read0())))
  else:
    out = drain(iter(M.repeat.RepeatIterDataset(src_iter(n).filter(pred), ep)))
  ctx.eq(out, [q for q in range(n) if keep[q]] * ep, "repeat after filter")


@harness("P05", "repeat_infinite_batch", "infinite repeat of 1..4 elements then batch of size 1..3: length and elements (index up to 2^40)",
         quick_s=60)
def repeat_infinite_batch(ctx):
  import sys

  n = ctx.cint("n", 1, 4)
  b = ctx.cint("b", 1, 3)
  dr = ctx.cbool("drop")
  ds = raw_map(n).repeat().batch(b, drop_remainder=dr, batch_fn=list)
  ctx.check(1 <= len(ds) <= sys.maxsize, "length of an infinite batched dataset")
  i = ctx.int("i", 0, BIG)
  ctx.eq(ds[i], [i * b + q for q in range(b)], "batch of an infinite dataset")


# ---------------------------------------------------------------- P07


@harness("P07", "concatenate", "1..3 datasets of length 0..4; index unbounded up to 2^40 epochs", quick_s=90, must_reach=("two",))
def concatenate(ctx):
  g = grain()
  k = ctx.cint("k", 1, 3)
  ns = [ctx.cint(f"n{q}", 0, 4) for q in range(k)]
  if not sum(ns):
    return
  ds = g.MapDataset.concatenate([raw_map(n).map(_tag(q)) for q, n in enumerate(ns)])
  exp = [(q, j, n) for q, n in enumerate(ns) for j in range(n)]
  ctx.check(len(ds) == len(exp), "length of a concatenation")
  e, j, i = _epoch_index(ctx, len(exp))
  q, w, n = exp[j]
  ctx.eq(ds[i], (q, e * n + w), "element of a concatenation")
  ctx.eq(ds._getitems([i])[0], (q, e * n + w), "batched read of a concatenation")
  if q and len(ns) > 1:
    ctx.reach("two")


class _Tag:

  def __init__(self, t):
    self.t = t

  def __call__(self, x):
    return (self.t, x)


def _tag(t):
  return _Tag(t)


@harness("P07", "zip", "2..3 datasets of length 1..4; index unbounded", quick_s=60)
def zip_map(ctx):
  M = mods()
  k = ctx.cint("k", 1, 3)
  n = ctx.cint("n", 1, 4)
  ds = M.zip.ZipMapDataset([raw_map(n).map(_tag(q)) for q in range(k)])
  ctx.check(len(ds) == n, "length")
  i = ctx.int("i", 0, BIG)
  ctx.eq(ds[i], tuple((q, i) for q in range(k)), "element of zip")
  ctx.eq(tuple(ds._getitems([i])[0]), tuple((q, i) for q in range(k)), "batched read of zip")


@harness("P07", "zip_iter", "2..3 iterators of length 0..3, strict and not, symbolic payloads", quick_s=60, must_reach=("mismatch", "equal"))
def zip_iter(ctx):
  M = mods()
  k = ctx.cint("k", 2, 3)
  ns = [ctx.cint(f"n{q}", 0, 3) for q in range(k)]
  toks = [[ctx.token(f"t{q}_{w}") for w in range(n)] for q, n in enumerate(ns)]
  strict = ctx.cbool("strict")
  it = iter(M.zip.ZipIterDataset([list_iter(t) for t in toks], strict=strict))
  exp = list(zip(*toks))
  if strict and len(set(ns)) > 1:
    ctx.reach("mismatch")
    got = take(it, len(exp))
    ctx.eq(got, exp, "elements before the mismatch")
    try:
      next(it)
    except ValueError:
      return
    except StopIteration:
      ctx.check(False, "strict zip ended silently although the lengths differ")
    ctx.check(False, "strict zip produced an element after the shortest input ended")
  ctx.reach("equal")
  ctx.eq(drain(it), exp, "zipped elements")


@harness("P07", "zip_map_lengths", "2..3 datasets with lengths 0..3: unequal lengths are rejected", quick_s=30)
def zip_lengths(ctx):
  M = mods()
  k = ctx.cint("k", 2, 3)
  ns = [ctx.cint(f"n{q}", 0, 3) for q in range(k)]
  try:
    ds = M.zip.ZipMapDataset([raw_map(n) for n in ns])
  except ValueError:
    ctx.check(len(set(ns)) > 1, "equal lengths rejected")
    return
  ctx.check(len(set(ns)) == 1, "unequal lengths accepted")
  ctx.check(len(ds) == ns[0], "length")


class _Sel:

  def __init__(self, pairs):
    self.pairs = pairs

  def __len__(self):
    return len(self.pairs)

  def __getitem__(self, i):
    return self.pairs[i.__index__() if is_sym(i) else i]


@harness("P07", "select_from_datasets", "2 datasets, selection map of 1..4 symbolic (dataset, index) pairs", quick_s=60)
def select(ctx):
  g = grain()
  L = ctx.cint("len", 1, 4)
  pairs = [(ctx.cint(f"d{q}", 0, 1), ctx.int(f"x{q}", 0, BIG)) for q in range(L)]
  ds = g.MapDataset.select_from_datasets([raw_map(3).map(_tag(0)), raw_map(5).map(_tag(1))], _Sel(pairs))
  ctx.check(len(ds) == L, "length")
  for j in range(L):
    ctx.eq(ds[j], pairs[j], "selected element")
  ctx.eq([tuple(x) for x in ds._getitems(list(range(L)))], pairs, "batched read of a selection")
