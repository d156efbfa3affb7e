"""Shuffles, sharding, mixtures, batches, batched reads, sparse transformations."""

from harness.common import *  # noqa
from harness.h_map import S_SHUF, _epoch_index, _tag
import contextlib
import sys
import types

from symx import core, dtmodel, env
from symx.registry import harness

U32 = 2**32


# ---------------------------------------------------------------- P01 (Python side)


@harness("P01", "shuffle_epoch_bijection", "dataset length unbounded up to 2^40, epoch up to 2^40, two distinct positions of one epoch; seed any 32-bit value",
         quick_s=60, stubs=(S_SHUF,))
def shuffle_bijection(ctx):
  n = ctx.cint("n", 1, 6)
  seed = ctx.int("seed", 0, U32 - 1)
  e = ctx.int("epoch", 0, BIG)
  i, j = ctx.int("i", 0, n - 1), ctx.int("j", 0, n - 1)
  ds = raw_map(n).shuffle(seed=seed)
  a, b = ds[e * n + i], ds[e * n + j]
  ctx.check(conj([a >= e * n, a < (e + 1) * n]), "a shuffled index leaves its epoch")
  ctx.check((a == b) == (i == j) if is_sym(i == j) else (a == b if i == j else a != b), "shuffle repeats or loses an element of the epoch")


@harness("P01", "shuffle_big", "dataset length symbolic up to 2^62, epoch 0 or 1, seed any 32-bit value", quick_s=60, stubs=(S_SHUF,))
def shuffle_big(ctx):
  n = ctx.int("n", 1, 2**62)
  seed = ctx.int("seed", 0, U32 - 1)
  e = ctx.cint("epoch", 0, 1)
  i, j = ctx.int("i", 0), ctx.int("j", 0)
  ctx.assume(conj([i < n, j < n]))
  ds = raw_map(n).shuffle(seed=seed)
  a, b = ds[e * n + i], ds[e * n + j]
  ctx.check(conj([a >= e * n, a < (e + 1) * n]), "a shuffled index leaves its epoch")
  ctx.check(disj([conj([a == b, i == j]), conj([a != b, i != j])]), "shuffle repeats or loses an element of the epoch")


@harness("P01", "shuffle_reproducible", "length 1..4, any seed: the order depends on the seed and the epoch only", quick_s=30, stubs=(S_SHUF,))
def shuffle_repro(ctx):
  n = ctx.cint("n", 1, 4)
  seed = ctx.int("seed", 0, U32 - 1)
  i = ctx.int("i", 0, BIG)
  a = raw_map(n).shuffle(seed=seed)[i]
  ds = raw_map(n).shuffle(seed=seed)
  _ = ds[0]
  ctx.eq(ds[i], a, "same seed and index give another element")
  ctx.eq(ds._getitems([0, i])[1], a, "batched read of a shuffle")
  ctx.eq(raw_map(n).seed(seed).shuffle(seed=seed)[i], a, "an explicit seed does not win over the default seed")


@harness("P01", "shuffle_seed_range", "seed any integer in [-2^33, 2^33]", quick_s=30, stubs=(S_SHUF,))
def shuffle_seed_range(ctx):
  seed = ctx.int("seed", -2**33, 2**33)
  try:
    ds = raw_map(3).shuffle(seed=seed)
  except ValueError:
    ctx.check(disj([seed < 0, seed >= U32]), "a valid 32-bit seed is rejected")
    return
  ctx.check(conj([seed >= 0, seed < U32]), "an invalid seed is accepted")
  ds[ctx.int("i", 0, BIG)]


@contextlib.contextmanager
def recorded_shuffles():
  """Records the arguments of every call of the compiled index_shuffle."""
  ext = sys.modules[env.EXT_MOD]
  real = ext.index_shuffle
  calls = []

  def index_shuffle(index, max_index, seed, rounds):
    calls.append((index, max_index, seed, rounds))
    return real(index, max_index=max_index, seed=seed, rounds=rounds)

  ext.index_shuffle = index_shuffle
  try:
    yield calls
  finally:
    ext.index_shuffle = real


@harness("P01", "shuffle_reshuffles", "length 2..4, any seed, symbolic epoch, 1..3 epochs later: the derived seed changes; with one explicit seed or the dataset's default seed",
         quick_s=30, stubs=(S_SHUF,))
def shuffle_reshuffles(ctx):
  n = ctx.cint("n", 2, 4)
  seed = ctx.int("seed", 0, U32 - 1)
  e = ctx.int("epoch", 0, BIG)
  d = ctx.cint("later", 1, 3)
  repeat = ctx.cbool("repeat")
  if ctx.cbool("default_seed"):
    ctx.assume(seed < 2**31)
    ds = raw_map(n).seed(ctx.cint("s", 0, 3)).shuffle()
  else:
    ds = raw_map(n).shuffle(seed=seed)
  if repeat:
    ds = ds.repeat()
  with recorded_shuffles() as calls:
    _ = ds[e * n], ds[(e + d) * n]
  ctx.check(len(calls) == 2 and calls[0][2] != calls[1][2], "a later epoch is shuffled with the seed of an earlier one")


# ---------------------------------------------------------------- P02


@harness("P02", "window_map_epoch", "length 1..6 (thorough 8), window 1..4 (5), any 32-bit seed, epoch up to 2^40, two positions of one epoch: windows restart with each epoch, the last one may be smaller",
         quick_s=90, thorough_s=600, stubs=(S_SHUF,), must_reach=("partial window",))
def window_map_epoch(ctx):
  M = mods()
  n = ctx.cint("n", 1, 8 if ctx.tier == "thorough" else 6)
  w = ctx.cint("w", 1, 5 if ctx.tier == "thorough" else 4)
  seed = ctx.int("seed", 0, U32 - 1)
  e = ctx.int("epoch", 0, BIG)
  i, j = ctx.cint("i", 0, n - 1), ctx.cint("j", 0, n - 1)
  ctx.assume(i <= j)
  ds = M.shuffle.WindowShuffleMapDataset(raw_map(n), window_size=w, seed=seed)
  ctx.check(len(ds) == n, "length")
  if ctx.cbool("batched"):
    a, b = ds._getitems([e * n + i, e * n + j])
  else:
    a, b = ds[e * n + i], ds[e * n + j]
  lo = i // w * w
  if min(lo + w, n) - lo < w:
    ctx.reach("partial window")
  ctx.check(conj([a >= e * n + lo, a < e * n + min(lo + w, n)]), "an element leaves its window")
  if i != j:
    ctx.check(a != b, "window shuffle repeats or loses an element")
  else:
    ctx.check(a == b, "window shuffle is not reproducible")


@harness("P02", "window_map", "window 1..5, 1..3 whole windows per epoch, any 32-bit seed, window number up to 2^40, two positions", quick_s=60, stubs=(S_SHUF,))
def window_map(ctx):
  M = mods()
  w = ctx.cint("w", 1, 5)
  seed = ctx.int("seed", 0, U32 - 1)
  k = ctx.int("window", 0, BIG)
  i, j = ctx.int("i", 0, w - 1), ctx.int("j", 0, w - 1)
  m = ctx.cint("windows", 1, 3)
  ds = M.shuffle.WindowShuffleMapDataset(raw_map(m * w), window_size=w, seed=seed)
  ctx.check(len(ds) == m * w, "length")
  a, b = ds[k * w + i], ds[k * w + j]
  ctx.check(conj([a >= k * w, a < (k + 1) * w]), "an element leaves its window")
  ctx.check(disj([conj([a == b, i == j]), conj([a != b, i != j])]), "window shuffle repeats or loses an element")
  ctx.eq(ds._getitems([k * w + i])[0], a, "batched read of window shuffle")


@harness("P02", "window_iter", "0..5 elements with symbolic payloads, window 1..3, any 32-bit seed, every permutation of each window",
         quick_s=110, thorough_s=400, stubs=(S_SHUF,), must_reach=("partial window",))
def window_iter(ctx):
  M = mods()
  n = ctx.cint("n", 0, 5)
  w = ctx.cint("w", 1, 3)
  seed = ctx.int("seed", 0, U32 - 1)
  toks = [("t", q) for q in range(n)]
  it = iter(M.shuffle.WindowShuffleIterDataset(list_iter(toks), window_size=w, seed=seed))
  out = drain(it)
  ctx.check(not take(it, 1), "window shuffle continues after the end")
  ctx.check(len(out) == n, "window shuffle loses or repeats elements")
  for s in range(0, n, w):
    ctx.check(sorted(out[s:s + w]) == toks[s:s + w], "an element leaves its window")
  if n % w:
    ctx.reach("partial window")


@harness("P02", "window_iter_big_seed", "1..4 elements, window 1..2: any non-negative seed below 2^32 works however many windows pass (symbolic window number up to 2^40)",
         quick_s=60, stubs=(S_SHUF,))
def window_big(ctx):
  M = mods()
  n = ctx.cint("n", 1, 4)
  w = ctx.cint("w", 1, 2)
  seed = ctx.int("seed", 0, U32 - 1)
  it = iter(M.shuffle.WindowShuffleIterDataset(src_iter(n), window_size=w, seed=seed))
  st = it.get_state()
  st["window_index"] = ctx.int("window", 0, BIG)
  it.set_state(st)
  out = drain(it)
  ctx.check(sorted(out) == list(range(n)), "window shuffle loses or repeats elements")


# ---------------------------------------------------------------- P04


@harness("P04", "even_split", "number of examples unbounded up to 2^62, 1..6 shards, both remainder modes", quick_s=60, must_reach=("drop", "keep"))
def even_split(ctx):
  M = mods()
  n = ctx.int("n", 0, 2**62)
  k = ctx.cint("k", 1, 6)
  drop = ctx.cbool("drop")
  iv = [M.sharding.even_split(n, M.sharding.ShardOptions(s, k, drop)) for s in range(k)]
  ctx.check(iv[0][0] == 0, "first shard does not start at 0")
  for (a, b), (c, d) in zip(iv, iv[1:]):
    ctx.check(b == c, "shards overlap or leave a gap")
    ctx.check(b - a >= d - c, "an earlier shard is smaller")
  for a, b in iv:
    ctx.check(conj([b - a >= n // k, b - a <= n // k + 1]), "shards differ by more than one")
    if drop:
      ctx.check(b - a == n // k, "with drop_remainder shards differ")
  if drop:
    ctx.check(n - iv[-1][1] < k, "more than the remainder is dropped")
    ctx.reach("drop")
  else:
    ctx.check(iv[-1][1] == n, "examples are dropped")
    ctx.reach("keep")


@harness("P04", "shard_options", "shard index and count any integers in [-4, 8]", quick_s=30)
def shard_options(ctx):
  M = mods()
  i, k = ctx.int("i", -4, 8), ctx.int("k", -4, 8)
  try:
    M.sharding.ShardOptions(i, k)
  except ValueError:
    ctx.check(disj([k <= 0, i < 0, i >= k]), "valid shard rejected")
    return
  ctx.check(conj([k > 0, i >= 0, i < k]), "invalid shard accepted")


@harness("P04", "index_sampler_epoch", "1..7 records, 1..4 shards, both remainder modes, shuffled or not (any seed), one epoch: the shards' strided indices visit each record exactly once",
         quick_s=110, stubs=(S_SHUF,), must_reach=("shuffled", "dropped"), conc_limit=80)
def index_sampler(ctx):
  M = mods()
  n = ctx.cint("n", 1, 7)
  k = ctx.cint("k", 1, 4)
  drop = ctx.cbool("drop")
  shuffle = ctx.cbool("shuffle")
  seed = ctx.int("seed", 0, U32 - 1) if shuffle else None
  if shuffle and n > 4:
    return
  if n < k:
    return
  keys = []
  per = n // k
  for s in range(k):
    sm = _sampler(M, n, M.sharding.ShardOptions(s, k, drop), shuffle, 1, seed)
    total = len(sm)
    ctx.check(total == (per * k if drop else n), "number of positions")
    mine = []
    for i in range(s, total, k):
      r = sm[i]
      ctx.check(r.index == i, "position is not the global index")
      mine.append(r.record_key)
    lo, hi = M.sharding.even_split(n, M.sharding.ShardOptions(s, k, drop))
    ctx.check(len(mine) == hi - lo, "a shard has too few or too many positions")
    for x in mine:
      ctx.check(conj([x >= lo, x < hi]), "a shard reads another shard's record")
    if not shuffle:
      ctx.eq(mine, list(range(lo, hi)), "order of a shard")
    keys += mine
  for a in range(len(keys)):
    for b in range(a):
      ctx.check(neg(keys[a] == keys[b]), "a record is visited twice in one epoch")
  if shuffle:
    ctx.reach("shuffled")
  if drop and n % k:
    ctx.reach("dropped")


def _sampler(M, n, so, shuffle, ep, seed):
  # The constructor of the random generator is outside this property.
  s = M.samplers.IndexSampler(num_records=n, shard_options=so, shuffle=shuffle, num_epochs=ep, seed=seed)
  s._seed = None
  return s


@harness("P04", "index_sampler_epochs", "1..3 records per shard, 1..2 (thorough 3) shards (divisible or remainder dropped), symbolic epoch up to 2^40, any seed",
         quick_s=110, stubs=(S_SHUF,), conc_limit=80)
def index_sampler_epochs(ctx):
  M = mods()
  k = ctx.cint("k", 1, 2 if ctx.tier == "quick" else 3)
  per = ctx.cint("per", 1, 3)
  extra = ctx.cint("extra", 0, k - 1)
  drop = True if extra else ctx.cbool("drop")
  n = per * k + extra
  shuffle = ctx.cbool("shuffle")
  seed = ctx.int("seed", 0, U32 - 1) if shuffle else None
  s = ctx.cint("shard", 0, k - 1)
  sm = _sampler(M, n, M.sharding.ShardOptions(s, k, drop), shuffle, None, seed)
  e = ctx.int("epoch", 0, BIG)
  mine = [sm[(e * per + q) * k + s].record_key for q in range(per)]
  for x in mine:
    ctx.check(conj([x >= per * s, x < per * (s + 1)]), "a shard reads another shard's record")
  for a in range(per):
    for b in range(a):
      ctx.check(neg(mine[a] == mine[b]), "a record is visited twice in one epoch")


@harness("P04", "index_sampler_bounds", "1..4 records, 1..3 shards, 1..3 epochs, any index in [-5, 60]", quick_s=60)
def index_sampler_bounds(ctx):
  M = mods()
  n, k, ep = ctx.cint("n", 1, 4), ctx.cint("k", 1, 3), ctx.cint("ep", 1, 3)
  drop = ctx.cbool("drop")
  if n < k:
    return
  sm = _sampler(M, n, M.sharding.ShardOptions(0, k, drop), False, ep, None)
  total = (n // k) * k * ep if drop else n * ep
  ctx.check(len(sm) == total, "number of positions")
  i = ctx.int("i", -5, 60)
  try:
    r = sm[i]
  except IndexError:
    ctx.check(disj([i < 0, i >= total]), "valid position rejected")
    return
  ctx.check(conj([i >= 0, i < total]), "position out of range accepted")
  ctx.check(conj([r.record_key >= 0, r.record_key < n]), "record key out of range")


@harness("P04", "sequential_sampler", "records unbounded up to 2^40, 1..5 shards, any index", quick_s=60)
def sequential(ctx):
  M = mods()
  n = ctx.int("n", 1, BIG)
  k = ctx.cint("k", 1, 5)
  drop = ctx.cbool("drop")
  sm = M.samplers.SequentialSampler(num_records=n, shard_options=M.sharding.ShardOptions(0, k, drop))
  total = sm.__len__()
  if drop:
    ctx.check(conj([total % k == 0, total <= n, n - total < k]), "number of positions")
  else:
    ctx.check(total == n, "number of positions")
  i = ctx.int("i", -BIG, 2 * BIG)
  try:
    r = sm[i]
  except IndexError:
    ctx.check(disj([i < 0, i >= total]), "valid position rejected")
    return
  ctx.check(conj([i >= 0, i < total]), "position out of range accepted")
  ctx.check(conj([r.index == i, r.record_key == i]), "record key")


@harness("P04", "slice_sources", "sources and ranges of length 1..7 sharded sequentially over 1..4 workers: disjoint consecutive pieces covering everything",
         quick_s=60)
def sequential_slice(ctx):
  g = grain()
  n = ctx.cint("n", 1, 7)
  k = ctx.cint("k", 1, 4)
  if n < k:
    return
  kind = ctx.choice("kind", ["source", "range", "range_step", "range_down"])
  seen = []
  for s in range(k):
    if kind == "source":
      ds = src_map(n)
    elif kind == "range":
      ds = g.MapDataset.range(n)
    elif kind == "range_step":
      ds = g.MapDataset.range(3, 3 + 2 * n, 2)
    else:
      ds = g.MapDataset.range(9, 9 - 2 * n, -2)
    ds.set_slice(slice(s, None, k), sequential_slice=True)
    L = len(ds)
    ctx.check(n // k <= L <= n // k + 1, "uneven shard")
    seen += [ds[j] for j in range(L)]
    e, j, i = _epoch_index(ctx, L, f"i{s}")
    ctx.eq(ds[i], seen[len(seen) - L + j], "an epoch differs from the first")
  exp = [3 + 2 * q for q in range(n)] if kind == "range_step" else [9 - 2 * q for q in range(n)] if kind == "range_down" else list(range(n))
  ctx.eq(seen, exp, "sequential shards do not partition the source in order")


# ---------------------------------------------------------------- P06


def _prop_check(ctx, picks, props, n_src):
  """Exact sequence per source, and counts within one of the proportion."""
  total = sum(props)
  counts = [0] * n_src
  for pos, (d, key) in enumerate(picks):
    ctx.check(key == counts[d], "a source's elements are skipped or repeated")
    counts[d] += 1
    for q in range(n_src):
      ctx.check(abs(counts[q] * total - (pos + 1) * props[q]) < total * n_src, "mixture strays from its proportions")


@harness("P06", "mix_selection", "2..3 sources, integer proportions 1..4, first 24 positions", quick_s=60)
def mix_selection(ctx):
  M = mods()
  k = ctx.cint("k", 1, 3)
  props = tuple(ctx.cint(f"p{q}", 1, 4) for q in range(k))
  picks = [M.mix._dataset_and_key_of_next_element(i, props) for i in range(24)]
  _prop_check(ctx, picks, props, k)


@harness("P06", "mix_selection_step", "2..3 sources, integer proportions 1..4 (thorough: 1..6 for three; enumerated by the solver), position symbolic and unbounded up to 2^40: one step advances exactly one source by one element",
         quick_s=110, thorough_s=300, must_reach=("step",))
def mix_step(ctx):
  """Inductive step: the key of position i is the number of earlier picks."""
  M = mods()
  k = ctx.cint("k", 2, 3)
  props = tuple(ctx.cint(f"p{q}", 1, 4 if k < 3 or ctx.tier == "quick" else 6) for q in range(k))
  # Every position is rounds * sum(props) + a position within a round.
  i = ctx.int("rounds", 0, BIG // sum(props)) * sum(props) + ctx.cint("i", 0, sum(props) - 1)
  d, key = M.mix._dataset_and_key_of_next_element(i, props)
  d2, key2 = M.mix._dataset_and_key_of_next_element(i + 1, props)
  if d == d2:
    ctx.check(key2 == key + 1, "a source's elements are skipped or repeated")
  total = sum(props)
  # Closeness to the proportion at any position.
  ctx.check(conj([key * total > (i + 1) * props[d] - total * k, key * total < (i + 1) * props[d] + total * k]),
            "mixture strays from its proportions")
  ctx.reach("step")


@harness("P06", "mix_map", "2..3 datasets of length 1..4, proportions from {1,2,3,0.5,0.25} or none: every element of the mixture, no repeats, order kept, batched reads",
         quick_s=110, must_reach=("mixed",))
def mix_map(ctx):
  g = grain()
  k = ctx.cint("k", 2, 3)
  ns = [ctx.cint(f"n{q}", 1, 4) for q in range(k)]
  if ctx.cbool("weights"):
    props = [ctx.choice(f"w{q}", [1, 2, 0.5] if k == 2 else [1, 3]) for q in range(k)]
  else:
    props = None
  ds = g.MapDataset.mix([raw_map(n).map(_tag(q)) for q, n in enumerate(ns)], props)
  L = len(ds)
  out = [ds[i] for i in range(L)]
  w = props or [1] * k
  counts = [0] * k
  for d, x in out:
    ctx.check(x == counts[d], "a source's elements are skipped or repeated")
    counts[d] += 1
  for q in range(k):
    ctx.check(counts[q] <= ns[q], "a source is read past its end within an epoch")
    ctx.check(abs(counts[q] - L * w[q] / sum(w)) <= k, "mixture strays from its proportions")
  # It stops because some source cannot provide much more.
  ctx.check(any((L + 2) * w[q] / sum(w) > ns[q] for q in range(k)), "mixture stops although every source has elements left")
  ctx.eq([tuple(x) for x in ds._getitems(list(range(L)))], out, "batched read of a mixture")
  if L > 2:
    ctx.reach("mixed")


@harness("P06", "mix_iter", "2..3 iterators of length 0..4, weights from {1,2,3}: same order as the weights dictate, ends when a chosen source ends and stays ended",
         quick_s=110, must_reach=("ended",))
def mix_iter(ctx):
  M = mods()
  g = grain()
  k = ctx.cint("k", 2, 3)
  ns = [ctx.cint(f"n{q}", 0, 3) for q in range(k)]
  props = [ctx.choice(f"w{q}", [1, 2, 3] if k == 2 else [1, 2]) for q in range(k)]
  named = ctx.cbool("named")
  src = [list_iter([(q, x) for x in range(n)]) for q, n in enumerate(ns)]
  if named:
    names = ["a", "b", "c"][:k]
    ds = M.mix.MixedIterDataset(dict(zip(names, src)), dict(zip(names, props)))
  else:
    ds = g.IterDataset.mix(src, props)
  it = iter(ds)
  out = drain(it)
  ctx.check(not take(it, 2), "mixture continues after it ended")
  counts = [0] * k
  for pos, (d, x) in enumerate(out):
    ctx.check(x == counts[d], "a source's elements are skipped or repeated")
    counts[d] += 1
    for q in range(k):
      ctx.check(abs(counts[q] - (pos + 1) * props[q] / sum(props)) < k, "mixture strays from its proportions")
  ctx.check(any(counts[q] == ns[q] for q in range(k)), "mixture stops although no source ended")
  ctx.reach("ended")


@harness("P06", "mix_map_iter_agree", "2 sources, weights from {1,2,3,5}, first 12 positions: random access and iteration choose alike", quick_s=60)
def mix_agree(ctx):
  g = grain()
  props = [ctx.choice(f"w{q}", [1, 2, 3, 5]) for q in range(2)]
  m = g.MapDataset.mix([raw_map(40).map(_tag(q)) for q in range(2)], props)
  it = iter(g.IterDataset.mix([list_iter([(q, x) for x in range(40)]) for q in range(2)], props))
  for i in range(12):
    ctx.eq(next(it), m[i], "random access and iteration choose differently")


@harness("P06", "mix_iter_retains_all_epochs", "2 datasets of length 1..3, weights {1,2}; position symbolic in later epochs: sources are asked for consecutive indices",
         quick_s=60)
def mix_epochs(ctx):
  g = grain()
  ns = [ctx.cint(f"n{q}", 1, 3) for q in range(2)]
  props = [ctx.choice(f"w{q}", [1, 2]) for q in range(2)]
  ds = g.MapDataset.mix([raw_map(n).map(_tag(q)) for q, n in enumerate(ns)], props)
  i = ctx.int("i", 0, BIG)
  d, x = ds[i]
  d2, x2 = ds[i + 1]
  if d == d2:
    ctx.check(x2 == x + 1, "a source's elements are skipped or repeated")


# ---------------------------------------------------------------- P08


@harness("P08", "batch_map", "0..7 elements, batch 1..4, both remainder modes; batch number in any epoch up to 2^40", quick_s=60, must_reach=("partial", "drop"))
def batch_map(ctx):
  n = ctx.cint("n", 0, 7)
  b = ctx.cint("b", 1, 4)
  drop = ctx.cbool("drop")
  ds = raw_map(n).batch(b, drop_remainder=drop, batch_fn=list)
  exp = [list(range(s, min(s + b, n))) for s in range(0, n, b)]
  if drop:
    exp = [x for x in exp if len(x) == b]
  ctx.check(len(ds) == len(exp), "number of batches")
  if not exp:
    return
  e, j, i = _epoch_index(ctx, len(exp))
  ctx.eq(ds[i], [e * n + x for x in exp[j]], "batch")
  ctx.eq(ds._getitems([i])[0], [e * n + x for x in exp[j]], "batched read of batches")
  if n % b and j == len(exp) - 1:
    ctx.reach("drop" if drop else "partial")


@harness("P08", "batch_map_big", "number of elements symbolic up to 2^62, batch 1..7: number of batches; a batch anywhere in the first epoch", quick_s=60)
def batch_big(ctx):
  n = ctx.int("n", 1, 2**62)
  b = ctx.cint("b", 1, 7)
  drop = ctx.cbool("drop")
  ds = raw_map(n).batch(b, drop_remainder=drop, batch_fn=list)
  L = ds.__len__()
  if drop:
    ctx.check(conj([L * b <= n, n - L * b < b]), "number of batches")
  else:
    ctx.check(conj([L * b >= n, L * b - n < b]), "number of batches")
  i = ctx.int("i", 0)
  ctx.assume(i < L)
  out = ds[i]
  for q, x in enumerate(out):
    ctx.check(x == i * b + q, "batch")
  ctx.check(disj([len(out) == b, i * b + len(out) == n]), "short batch that is not the last")
  ctx.check(len(out) >= 1, "empty batch")


@harness("P08", "batch_iter", "0..6 elements with symbolic payloads, batch 1..4, both remainder modes, custom and default batch function", quick_s=90,
         must_reach=("partial", "default"))
def batch_iter(ctx):
  n = ctx.cint("n", 0, 6)
  b = ctx.cint("b", 1, 4)
  drop = ctx.cbool("drop")
  default = ctx.cbool("default_fn")
  toks = [ctx.token(f"t{q}") for q in range(n)]
  exp = [toks[s:s + b] for s in range(0, n, b)]
  if drop:
    exp = [x for x in exp if len(x) == b]
  elif n % b:
    ctx.reach("partial")
  if default:
    ctx.reach("default")
    it = iter(list_iter([{"x": arr([t]), "y": (arr([t, t]),)} for t in toks]).batch(b, drop_remainder=drop))
    out = drain(it)
    got = [norm(o["x"]) for o in out]
    ctx.eq(got, [[[t] for t in x] for x in exp], "batches")
    ctx.eq([norm(o["y"][0]) for o in out], [[[t, t] for t in x] for x in exp], "batches of a nested leaf")
  else:
    it = iter(list_iter(toks).batch(b, drop_remainder=drop, batch_fn=list))
    out = drain(it)
    ctx.eq(out, exp, "batches")
  ctx.check(not take(it, 1), "batch continues after the end")


@harness("P08", "make_batch", "1..4 elements, three stacking functions (default, shared memory on object payloads, parallel)", quick_s=60)
def make_batch(ctx):
  M = mods()
  n = ctx.cint("n", 1, 4)
  toks = [[ctx.token(f"t{q}_{w}") for w in range(2)] for q in range(n)]
  vals = [{"a": arr(t), "b": {"c": arr(t[:1])}} for t in toks]
  kind = ctx.choice("kind", ["default", "shm", "parallel", "parallel_always"])
  if kind == "default":
    out = M.batch.make_batch(vals)
  elif kind == "shm":
    out = M.batch.make_batch(vals, output_to_shared_memory=True)
  else:
    f = M.batch._MakeBatchParallel()
    old = M.batch._PARALLEL_BATCHING_MIN_TOTAL_BYTES
    if kind == "parallel_always":
      M.batch._PARALLEL_BATCHING_MIN_TOTAL_BYTES = 0
    try:
      out = f(vals)
    finally:
      M.batch._PARALLEL_BATCHING_MIN_TOTAL_BYTES = old
  ctx.eq(norm(out["a"]), toks, "batched values")
  ctx.eq(norm(out["b"]["c"]), [t[:1] for t in toks], "batched nested values")


@harness("P08", "make_batch_shapes", "2..3 elements of two entries (thorough 4), each of 6 shapes, all stacking functions, padding included: batched exactly when the shapes agree, ValueError otherwise (never broadcast)",
         quick_s=60)
def make_batch_shapes(ctx):
  import numpy as np
  M = mods()
  deep = ctx.tier == "thorough"
  n = ctx.cint("n", 2, 4 if deep else 3)
  shapes = [(), (1,), (2,), (2, 1), (1, 2), (2, 2)]
  which = ctx.choice("entry", ["a", "c"])
  mine = [shapes[ctx.cint(f"shape{q}", 0, 5 if deep else 4)] for q in range(n)]
  toks = [[ctx.token(f"t{q}_{w}") for w in range(int(np.prod(s)))] for q, s in enumerate(mine)]

  def make(t, s):
    a = np.empty(len(t), dtype=object)
    a[:] = t
    return a.reshape(s)

  vals = []
  for t, s in zip(toks, mine):
    x, y = make(t, s), arr(t[:1])
    vals.append({"a": x, "b": {"c": y}} if which == "a" else {"a": y, "b": {"c": x}})
  kind = ctx.choice("kind", ["default", "shm", "parallel", "pad"])
  f = None
  if kind == "default":
    f = M.batch.make_batch
  elif kind == "shm":
    f = lambda v: M.batch.make_batch(v, output_to_shared_memory=True)
  elif kind == "pad":
    f = lambda v: M.batch.batch_and_pad(v, batch_size=n + ctx.cint("more", 0, 1))
  else:
    f = M.batch._MakeBatchParallel()
  old = M.batch._PARALLEL_BATCHING_MIN_TOTAL_BYTES
  M.batch._PARALLEL_BATCHING_MIN_TOTAL_BYTES = 0
  try:
    out = f(vals)
  except ValueError:
    ctx.check(len(set(mine)) > 1, "elements of one shape are rejected")
    return
  finally:
    M.batch._PARALLEL_BATCHING_MIN_TOTAL_BYTES = old
  ctx.check(len(set(mine)) == 1, "elements of different shapes are batched")
  got = out["a"] if which == "a" else out["b"]["c"]
  ctx.check(tuple(got.shape[1:]) == mine[0], "the batch has another shape")
  for q in range(n):
    ctx.eq(list(got[q].reshape(-1)) if mine[0] else [got[q]], toks[q], "batched values")


class _Inline:
  """An executor that runs the task at once (symbolic values stay in this thread)."""

  def submit(self, f, *a):
    f(*a)
    return types.SimpleNamespace(result=lambda: None)

  def shutdown(self, *a, **k):
    pass


_DTYPES = ["i1", "u1", "i4", "i8", "f4", "f8", "?", "U1", "U2"]


@harness("P08", "make_batch_types", "2..3 elements (thorough 4) of two entries, every element of one of 9 types (integers and floats of different sizes, bool, strings), values symbolic over the whole range of the type; batched normally, into shared memory, in parallel, and in parallel into shared memory: values and type are those of ordinary stacking",
         quick_s=120, thorough_s=400, must_reach=("mixed",),
         stubs=("numpy stacking and casting between types are a model (symx/dtmodel.py); floats take whole values; the replay uses numpy",))
def make_batch_types(ctx, tier="quick"):
  import numpy as np
  M = mods()
  n = ctx.cint("n", 2, 3 if tier == "quick" else 4)
  w = 1 if tier == "quick" else 2
  mode = ctx.choice("mode", ["shm", "parallel", "parallel_shm"])
  family = ctx.cbool("strings")
  dts = [np.dtype(ctx.choice(f"dt{q}", _DTYPES[7:] if family else _DTYPES[:7])) for q in range(n)]
  vals = []
  for q, d in enumerate(dts):
    if family:
      vals.append([ctx.choice(f"s{q}{j}", ["", "a", "bc"][: d.itemsize // 4 + 1]) for j in range(w)])
    else:
      vals.append([ctx.int(f"v{q}{j}", *dtmodel.irange(d)) for j in range(w)])
  want_dt = np.result_type(*dts)
  if len(set(dts)) > 1:
    ctx.reach("mixed")
  want = [[dtmodel.cast(v, d, want_dt) if core.active() else v for v in row] for d, row in zip(dts, vals)]
  sym = core.active()
  mk = (lambda d, row: dtmodel.Arr(d, (w,), row)) if sym else (lambda d, row: np.array(row, dtype=d))
  old = M.batch.np, M.batch.shared_memory_array, M.batch._PARALLEL_BATCHING_MIN_TOTAL_BYTES
  M.batch._PARALLEL_BATCHING_MIN_TOTAL_BYTES = 0
  if sym:
    M.batch.np = dtmodel.Np("np")
    M.batch.shared_memory_array = types.SimpleNamespace(SharedMemoryArray=lambda shape, dtype=float: dtmodel.empty(shape, dtype))
  try:
    els = [{"x": mk(d, row)} for d, row in zip(dts, vals)]
    if mode == "shm":
      out = M.batch.make_batch(els, output_to_shared_memory=True)["x"]
    else:
      f = M.batch._MakeBatchParallel()
      if sym:
        f._parallel_batch_executor.shutdown()
        f._parallel_batch_executor = _Inline()
      if mode == "parallel_shm":
        f.enable_shared_memory_output()
      out = f(els)["x"]
  finally:
    M.batch.np, M.batch.shared_memory_array, M.batch._PARALLEL_BATCHING_MIN_TOTAL_BYTES = old
  ctx.check(out.dtype == want_dt, "the batch has another type")
  ctx.check(tuple(out.shape) == (n, w), "the batch has another shape")
  if sym:
    got = [out.flat[q * w:(q + 1) * w] for q in range(n)]
  else:
    want = np.stack([np.array(row, dtype=d) for d, row in zip(dts, vals)]).tolist()
    got = out.tolist()
  ctx.eq(got, want, "batched values differ from ordinary stacking")


@harness("P08", "batch_and_pad", "1..4 elements padded to a batch of 1..5, symbolic payloads and pad value", quick_s=60)
def batch_and_pad(ctx):
  M = mods()
  n = ctx.cint("n", 1, 4)
  b = ctx.cint("b", 1, 5)
  pad = ctx.token("pad")
  toks = [ctx.token(f"t{q}") for q in range(n)]
  vals = [{"x": arr([t, t])} for t in toks]
  if n > b:
    try:
      M.batch.batch_and_pad(vals, batch_size=b, pad_value=pad)
    except ValueError:
      ctx.check(True, "")
      return
    ctx.check(False, "too many elements accepted")
  out = norm(M.batch.batch_and_pad(vals, batch_size=b, pad_value=pad)["x"])
  ctx.eq(out, [[t, t] for t in toks] + [[pad, pad]] * (b - n), "padded batch")


@harness("P08", "batch_bad_size", "batch size any integer in [-3, 3]", quick_s=30)
def batch_bad(ctx):
  b = ctx.cint("b", -3, 3)
  for mk in (lambda: raw_map(3).batch(b), lambda: src_iter(3).batch(b)):
    try:
      mk()
    except ValueError:
      ctx.check(b <= 0, "valid batch size rejected")
      continue
    ctx.check(b > 0, "batch size that is not positive accepted")


# ---------------------------------------------------------------- P09


def _pipelines():
  M = mods()
  g = grain()
  f = _tag("f")

  class Split:
    max_fan_out = 2

    def flat_map(self, x):
      return [x, x]

  return {
      "map": lambda ds: ds.map(f),
      "map_with_index": lambda ds: ds.map_with_index(lambda i, x: (i, x)),
      "filter": lambda ds: ds.filter(lambda x: bool(x % 2 == 0)),
      "filter_map": lambda ds: ds.filter(lambda x: bool(x % 3 == 0)).map(f),
      "slice": lambda ds: ds[1::2],
      "slice_rev": lambda ds: ds[::-1],
      "repeat": lambda ds: ds.repeat(3),
      "repeat_noreseed": lambda ds: ds.repeat(3, reseed_each_epoch=False),
      "zip": lambda ds: M.zip.ZipMapDataset([ds, ds.map(f)]),
      "mix": lambda ds: g.MapDataset.mix([ds.map(_tag(0)), ds.map(_tag(1))], [1, 2]),
      "concat": lambda ds: g.MapDataset.concatenate([ds.map(_tag(0)), ds.map(_tag(1))]),
      "batch": lambda ds: ds.batch(2, batch_fn=tuple),
      "shuffle": lambda ds: ds.shuffle(seed=7),
      "window": lambda ds: M.shuffle.WindowShuffleMapDataset(ds, window_size=2, seed=3),
      "reindex": lambda ds: M.slice.ReindexMapDataset(ds, [2, 0, 2]),
      "flatmap": lambda ds: M.flatmap.FlatMapMapDataset(ds, _flat()),
      "source": lambda ds: g.MapDataset.source(ds),
  }


def _flat():
  M = mods()

  class Split(M.transforms.FlatMap):
    max_fan_out = 2

    def flat_map(self, x):
      return [("s", x, 0), ("s", x, 1)]

  return Split()


_P09 = ["map", "map_with_index", "filter", "filter_map", "slice", "slice_rev", "repeat", "repeat_noreseed", "zip", "mix",
        "concat", "batch", "shuffle", "window", "reindex", "flatmap", "source"]


def _mk_p09(names, nm):
  @harness("P09", nm, "dataset of 3 elements under each transformation (and map on top); three positions symbolic in epochs up to 2^20, any order, repeats allowed: " + ", ".join(names),
           quick_s=110, thorough_s=300, stubs=(S_SHUF,), conc_limit=24)
  def h(ctx):
    P = _pipelines()
    name = ctx.choice("pipeline", names)
    ds = P[name](raw_map(3))
    if ctx.cbool("map_on_top"):
      ds = ds.map(_tag("top"))
    L = len(ds)
    k = ctx.cint("how_many", 0, 3)
    idx = [ctx.int(f"e{q}", 0, 2**20) * L + ctx.cint(f"j{q}", 0, min(L, 4) - 1) for q in range(k)]
    one = [ds[i] for i in idx]
    many = list(ds._getitems(idx))
    ctx.check(len(many) == k, "number of elements of a batched read")
    ctx.eq(norm(many), norm(one), f"batched read of {name} differs from single reads")
  return h


for _q in range(0, len(_P09), 3):
  _mk_p09(_P09[_q:_q + 3], f"getitems_{_q // 3}")


@harness("P09", "source_batched", "source with its own batched read of 1..5 elements, 0..3 positions in any epoch up to 2^20", quick_s=60, must_reach=("batched",))
def source_batched(ctx):
  g = grain()
  n = ctx.cint("n", 1, 5)
  seen = []

  class S(Src):

    def _getitems(self, idx):
      seen.append(list(idx))
      return [("e", i) for i in idx]

    def __getitem__(self, i):
      return ("e", i)

  ds = g.MapDataset.source(S(n))
  k = ctx.cint("how_many", 0, 3)
  idx = [ctx.int(f"e{q}", 0, 2**20) * n + ctx.cint(f"j{q}", 0, n - 1) for q in range(k)]
  one = [ds[i] for i in idx]
  many = list(ds._getitems(idx))
  ctx.eq(many, one, "batched read of a source differs from single reads")
  if seen:
    ctx.reach("batched")
    for i in seen[0]:
      ctx.check(conj([i >= 0, i < n]), "source read outside its range")


# ---------------------------------------------------------------- P10


def _preds(ctx, n, name="keep"):
  return [ctx.bool(f"{name}{q}") for q in range(n)]


@harness("P10", "filter_iter", "0..6 elements, arbitrary predicate (symbolic per element), filter on the map side, on the iterator side, or both",
         quick_s=90, must_reach=("some", "none"))
def filter_iter(ctx):
  n = ctx.cint("n", 0, 6)
  keep = _preds(ctx, n)
  p = lambda x: bool(keep[x])
  side = ctx.choice("side", ["map", "iter", "both"])
  ds = src_map(n)
  if side in ("map", "both"):
    ds = ds.filter(p)
    ctx.check(len(ds) == n, "filter changes the length of a map dataset")
  it = ds.to_iter_dataset(read0())
  if side == "iter":
    it = it.filter(p)
  elif side == "both":
    it = it.filter(lambda x: x % 2 == 0)
  i = iter(it)
  out = drain(i)
  ctx.check(not take(i, 1), "filter continues after the end")
  exp = [q for q in range(n) if keep[q] and (side != "both" or q % 2 == 0)]
  ctx.eq(out, exp, "filtered elements")
  ctx.reach("some" if exp else "none")


@harness("P10", "filter_map_access", "1..5 elements, arbitrary predicate, index in any epoch up to 2^40: kept element or None, transformations skip the gaps",
         quick_s=60)
def filter_access(ctx):
  n = ctx.cint("n", 1, 5)
  keep = _preds(ctx, n)
  calls = []
  ds = src_map(n).filter(lambda x: bool(keep[x]))
  ds2 = ds.map(lambda x: (calls.append(x), ("m", x))[1])
  ds3 = ds2.filter(lambda x: True)
  e, j, i = _epoch_index(ctx, n)
  ctx.eq(ds[i], j if keep[j] else None, "filtered element")
  ctx.eq(ds3[i], ("m", j) if keep[j] else None, "map over a gap")
  ctx.check(calls == ([j] if keep[j] else []), "a transformation saw a filtered element")


@harness("P10", "allow_nones", "0..4 elements, arbitrary predicate: with allow_nones gaps are delivered as None in place", quick_s=60)
def allow_nones(ctx):
  n = ctx.cint("n", 0, 4)
  keep = _preds(ctx, n)
  it = iter(src_map(n).filter(lambda x: bool(keep[x])).to_iter_dataset(read0(), allow_nones=True))
  ctx.eq(drain(it), [q if keep[q] else None for q in range(n)], "elements with gaps")


@harness("P10", "threshold", "interval length cut to 1..4 (the code's constant is patched), thresholds from {None, 0.5, 0.9, 1.0}, up to 2 intervals of symbolic verdicts",
         quick_s=90, must_reach=("raised", "quiet"))
def threshold(ctx):
  M = mods()
  old = M.filter._CHECK_FILTERED_INTERVAL
  iv = ctx.cint("interval", 1, 4)
  thr = ctx.choice("raise", [None, 0.5, 0.9, 1.0])
  M.filter._CHECK_FILTERED_INTERVAL = iv
  try:
    c = M.filter.FilterThresholdChecker("t", None, thr)
    v = [ctx.bool(f"v{q}") for q in range(2 * iv)]
    for q in range(2 * iv):
      win = v[q - q % iv: q + 1]
      end = (q + 1) % iv == 0
      skipped = sum(1 for x in win if not x)
      should = end and thr is not None and skipped / iv >= thr
      try:
        c.check(bool(v[q]))
      except ValueError:
        ctx.check(should, "the filter alarm is raised although the ratio is below the threshold")
        ctx.reach("raised")
        return
      ctx.check(not should, "the filter alarm is not raised although the ratio reached the threshold")
    ctx.reach("quiet")
  finally:
    M.filter._CHECK_FILTERED_INTERVAL = old


# ---------------------------------------------------------------- P11


def _fan(ctx, n, fmax):
  M = mods()
  fan = [ctx.cint(f"fan{q}", 0, fmax) for q in range(n)]

  class Split(M.transforms.FlatMap):
    max_fan_out = fmax

    def flat_map(self, x):
      return [(x, q) for q in range(fan[x])]

  class SplitGen(Split):

    def flat_map(self, x):
      return ((x, q) for q in range(fan[x]))

  return fan, Split, SplitGen


@harness("P11", "flatmap_iter", "0..4 elements, each split into 0..3 pieces: pieces in order, nothing lost", quick_s=90, must_reach=("empty split",))
def flatmap_iter(ctx):
  M = mods()
  n = ctx.cint("n", 0, 4)
  fan, Split, _ = _fan(ctx, n, 3 if n < 4 else 2)
  it = iter(M.flatmap.FlatMapIterDataset(src_iter(n), Split()))
  out = drain(it)
  ctx.check(not take(it, 1), "flat map continues after the end")
  ctx.eq(out, [(x, q) for x in range(n) for q in range(fan[x])], "flat mapped elements")
  if 0 in fan:
    ctx.reach("empty split")


@harness("P11", "flatmap_map", "1..3 elements, each split into 0..2 of at most 2 pieces, lists and generators; index in any epoch up to 2^20; iteration skips the gaps",
         quick_s=90)
def flatmap_map(ctx):
  M = mods()
  n = ctx.cint("n", 1, 3)
  fan, Split, SplitGen = _fan(ctx, n, 2)
  T = ctx.choice("kind", [Split, SplitGen])
  ds = M.flatmap.FlatMapMapDataset(src_map(n), T())
  ctx.check(len(ds) == 2 * n, "length of flat map")
  e = ctx.int("epoch", 0, 2**20)
  j = ctx.cint("j", 0, 2 * n - 1)
  x, q = divmod(j, 2)
  ctx.eq(ds[e * 2 * n + j], (x, q) if q < fan[x] else None, "piece")
  out = drain(iter(ds.to_iter_dataset(read0())))
  ctx.eq(out, [(x, q) for x in range(n) for q in range(fan[x])], "flat mapped elements")


@harness("P11", "flatmap_sparse_parent", "1..3 elements under an arbitrary filter, then split into 2 pieces", quick_s=60)
def flatmap_sparse(ctx):
  M = mods()
  n = ctx.cint("n", 1, 3)
  keep = _preds(ctx, n)
  fan, Split, _ = _fan(ctx, n, 2)
  ds = M.flatmap.FlatMapMapDataset(src_map(n).filter(lambda x: bool(keep[x])), Split())
  out = drain(iter(ds.to_iter_dataset(read0())))
  ctx.eq(out, [(x, q) for x in range(n) if keep[x] for q in range(fan[x])], "flat mapped elements")


@harness("P11", "flatmap_too_many", "1 element split into 0..5 pieces with a limit of 1..4: too many pieces are refused, never cut silently", quick_s=60)
def flatmap_many(ctx):
  M = mods()
  lim = ctx.cint("limit", 1, 4)
  got = ctx.cint("pieces", 0, 5)

  class Split(M.transforms.FlatMap):
    max_fan_out = lim

    def flat_map(self, x):
      return [(x, q) for q in range(got)]

  ds = M.flatmap.FlatMapMapDataset(src_map(1), Split())
  j = ctx.cint("j", 0, lim - 1)
  try:
    v = ds[j]
  except ValueError:
    ctx.check(got > lim, "allowed number of pieces refused")
    return
  ctx.check(got <= lim, "more pieces than allowed are cut silently")
  ctx.eq(v, (0, j) if j < got else None, "piece")


@harness("P11", "flatmap_len", "parent length symbolic up to 2^63-1, limit 1..8: the length is exact or saturates", quick_s=60)
def flatmap_len(ctx):
  import sys
  M = mods()
  n = ctx.int("n", 0, sys.maxsize)
  lim = ctx.choice("limit", [1, 2, 4, 8])

  class Split(M.transforms.FlatMap):
    max_fan_out = lim

    def flat_map(self, x):
      return [x]

  L = M.flatmap.FlatMapMapDataset(raw_map(n), Split()).__len__()
  ctx.check(disj([L == n * lim, conj([L == sys.maxsize, n * lim >= sys.maxsize - 1024 * lim])]), "length of flat map")
  ctx.check(L <= sys.maxsize, "length above the maximum")
