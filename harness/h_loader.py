"""The data loader (P24)."""

import json as _json
import sys

from harness.common import *  # noqa
from harness.h_workers import S_WORK, round_robin, workers
from symx.registry import harness


def dl_mod():
  import importlib
  return importlib.import_module("grain._src.python.data_loader")


def ops_mod():
  import importlib
  return importlib.import_module("grain._src.python.operations")


class Keys:
  """Sampler over given record keys; the random generator is a mark of the index."""

  def __init__(self, keys, name="Keys"):
    self.keys, self.name = keys, name

  def __len__(self):
    return len(self.keys)

  def __getitem__(self, i):
    if i < 0 or i >= len(self.keys):
      raise IndexError(i)
    return mods().record.RecordMetadata(index=i, record_key=self.keys[i], rng=("rng", i))

  def __repr__(self):
    return self.name


class NoLen:
  """The same without a length."""

  def __init__(self, n):
    self._n = n

  def __getitem__(self, i):
    if i < 0 or (self._n is not None and i >= self._n):
      raise IndexError(i)
    return mods().record.RecordMetadata(index=i, record_key=i, rng=("rng", i))

  def __repr__(self):
    return "NoLen"


class Echo:
  """Data source: the record is its own key."""

  def __init__(self, n=BIG, name="Echo"):
    self._n, self.name = n, name

  def __len__(self):
    return self._n

  def __getitem__(self, k):
    return k

  def __repr__(self):
    return self.name


def shard(idx, cnt, drop=False):
  return mods().sharding.ShardOptions(shard_index=idx, shard_count=cnt, drop_remainder=drop)


def local_indices(n, idx, cnt, drop):
  """Sampler positions that shard idx reads, in order."""
  m = n // cnt * cnt if drop else n
  return [g for g in range(m) if g % cnt == idx]


# --------------------------------------------------------------- operations


def make_op(kind):
  M = mods()
  T = M.transforms
  if kind == "map":

    class Op(T.Map):

      def map(self, x):
        return ("m", x)
  elif kind == "random_map":

    class Op(T.RandomMap):

      def random_map(self, x, rng):
        return ("r", x, rng)
  elif kind == "tf_random_map":

    class Op(T.TfRandomMap):

      def np_random_map(self, x, rng):
        return ("t", x, rng)
  elif kind == "filter":

    class Op(T.Filter):

      def filter(self, x):
        return keeps(x)
  elif kind == "flat":

    class Op(T.FlatMap):
      max_fan_out = 3

      def flat_map(self, x):
        return pieces(x)
  elif kind == "batch":
    return T.Batch(batch_size=2, drop_remainder=False, batch_fn=list)
  elif kind == "batch_drop":
    return T.Batch(batch_size=2, drop_remainder=True, batch_fn=list)
  elif kind == "batch_op":
    return ops_mod().BatchOperation(batch_size=2, drop_remainder=False, batch_fn=list)
  else:
    raise AssertionError(kind)
  return Op()


def leaf(x):
  while isinstance(x, (tuple, list)):
    x = x[1] if isinstance(x, tuple) else x[0]
  return x


def keeps(x):
  return bool(leaf(x) % 2 == 0)


def pieces(x):
  return [("p", x, q) for q in range(int(leaf(x) % 3))]


def ref_op(kind, recs):
  """recs: list of (data, rng)."""
  if kind == "map":
    return [(("m", x), r) for x, r in recs]
  if kind == "random_map":
    return [(("r", x, r), r) for x, r in recs]
  if kind == "tf_random_map":
    return [(("t", x, r), r) for x, r in recs]
  if kind == "filter":
    return [(x, r) for x, r in recs if keeps(x)]
  if kind == "flat":
    return [(y, None) for x, r in recs for y in pieces(x)]
  parts = [recs[q:q + 2] for q in range(0, len(recs), 2)]
  if kind == "batch_drop":
    parts = [p for p in parts if len(p) == 2]
  return [([x for x, _ in p], p[-1][1]) for p in parts]


KINDS = ["map", "random_map", "tf_random_map", "filter", "flat", "batch", "batch_drop", "batch_op"]


def reference(keys, ops, idx, cnt, drop, W):
  loc = local_indices(len(keys), idx, cnt, drop)
  streams = []
  for w in range(max(W, 1)):
    recs = [(keys[g], ("rng", g)) for g in loc[w::max(W, 1)]]
    for k in ops:
      recs = ref_op(k, recs)
    streams.append([x for x, _ in recs])
  return norm(round_robin(streams))


def loader(sampler, ops, idx, cnt, drop, W, source=None, **kw):
  return dl_mod().DataLoader(
      data_source=source or Echo(), sampler=sampler, operations=[make_op(k) for k in ops], worker_count=W,
      shard_options=shard(idx, cnt, drop), read_options=read0(), **kw)


def _config(ctx, tier, maxn, maxw, shards=2):
  n = ctx.cint("n", 0, maxn)
  cnt = ctx.cint("shards", 1, shards)
  idx = ctx.cint("shard", 0, cnt - 1)
  drop = ctx.cbool("drop") if cnt > 1 else False
  W = ctx.cint("workers", 0, maxw)
  return n, cnt, idx, drop, W


@harness("P24", "records", "samplers of 0..5 records with symbolic record keys, shard 0..1 of 1..2 with or without dropping the remainder, 0..3 workers, lists of up to 2 (thorough 3) operations out of map, random map, filter, flat map, batch (keeping or dropping the last) and legacy batch: "
         "exactly the sampled records of the shard, transformed, each with the generator of its own index, split over the workers round-robin",
         quick_s=200, thorough_s=600, stubs=(S_WORK,))
def p24_records(ctx, tier="quick"):
  deep = tier != "quick"
  n, cnt, idx, drop, W = _config(ctx, tier, 5 if deep else 4, 3 if deep else 2)
  if not deep:
    ctx.assume(n in (0, 3, 4))
  nops = ctx.cint("nops", 0, 2)
  ops = [ctx.choice(f"op{q}", KINDS) for q in range(nops)]
  if not deep and nops == 2:
    ctx.assume(KINDS.index(ops[1]) in ((KINDS.index(ops[0]) + 1) % 8, (KINDS.index(ops[0]) + 4) % 8))
    ctx.assume(n == 4 and not drop)
  keys = [ctx.int(f"key{q}", 0, 1000) for q in range(n)]
  with workers(ctx) as s:
    it = iter(loader(Keys(keys), ops, idx, cnt, drop, W))
    ctx.eq(norm(drain(it)), reference(keys, ops, idx, cnt, drop, W), "records differ from the sampled ones")
    ctx.check(not take(it, 1), "continues after the end")


class _Text:
  """The data loader as a dataset whose states are the decoded text."""

  def __init__(self, mk):
    self._mk = mk

  def __iter__(self):
    return _TextIt(iter(self._mk()))


class _TextIt:

  def __init__(self, it):
    self._it = it

  def __next__(self):
    return next(self._it)

  def get_state(self):
    st = self._it.get_state()
    assert isinstance(st, bytes)
    return st.decode()

  def set_state(self, st):
    self._it.set_state(st.encode())


def _ckpt(name, kinds, quick_s, bounds, maxn=4, pairs=()):
  @harness("P24", name, bounds + "; state (bytes) after any number of elements or the end, restored in a fresh, the same or another used iterator; second checkpoint; shard 0..1 of 1..2, 0..2 workers (thorough 3)",
           quick_s=quick_s, thorough_s=600, stubs=(S_WORK,), must_reach=("mid-stream restore",))
  def h(ctx, tier="quick"):
    deep = tier != "quick"
    n = ctx.cint("n", 0, maxn) if deep else ctx.choice("n", [0, 3, maxn])
    cnt = ctx.cint("shards", 1, 2)
    idx = cnt - 1
    W = ctx.cint("workers", 0, 3 if deep else 2)
    ops = ctx.choice("ops", [[k] for k in kinds] + [list(p) for p in pairs])
    keys = [100 + 7 * q for q in range(n * cnt)]
    with workers(ctx):
      checkpoint_law(ctx, lambda: _Text(lambda: loader(Keys(keys), ops, idx, cnt, False, W)), 12, modes=("fresh", "same", "used") if deep else ("fresh", "same"))
  return h


_ckpt("checkpoints", ["map", "filter", "batch", "batch_drop"], 200, "0..4 records per shard under no operation that keeps pieces: map, filter, batch, batch of filtered records", pairs=(("filter", "batch"), ("batch", "random_map")))
_ckpt("checkpoints_flat_map", ["flat"], 150, "0..3 records per shard split into 0..2 pieces, also batched or filtered afterwards", maxn=3, pairs=(("flat", "batch"), ("filter", "flat")))


@harness("P24", "sampler_checkpoints", "index sampler of 1..4 records, shuffled or not, 1..2 epochs or endless, sequential sampler; 0..2 workers, shard 1 of 2: the elements are the sampler's records at the shard's positions with the generators of seed and index; state after any number of elements restores in a fresh loader",
         quick_s=100, thorough_s=300, stubs=(S_WORK,))
def p24_samplers(ctx, tier="quick"):
  import numpy as np
  M = mods()
  n = ctx.cint("n", 1, 4)
  cnt = ctx.cint("shards", 1, 2)
  idx = ctx.cint("shard", 0, cnt - 1)
  W = ctx.cint("workers", 0, 2)
  kind = ctx.choice("kind", ["sequential", "index", "shuffled"])
  epochs = ctx.choice("epochs", [1, 2, None]) if kind != "sequential" else 1
  so = shard(idx, cnt, ctx.cbool("drop"))
  if n < cnt:
    ctx.assume(kind == "sequential")
  if so.drop_remainder:
    ctx.assume(n >= cnt)

  def sampler():
    if kind == "sequential":
      return M.samplers.SequentialSampler(num_records=n, shard_options=so, seed=5)
    return M.samplers.IndexSampler(num_records=n, shard_options=so, shuffle=kind == "shuffled", num_epochs=epochs, seed=5)

  s = sampler()
  size = len(s) if epochs else 7 * cnt
  loc = local_indices(size, idx, cnt, so.drop_remainder)
  want = [(s[g].record_key, int(np.random.Generator(np.random.Philox(key=5 + g)).integers(1000))) for g in loc]
  W1 = max(W, 1)
  want = round_robin([want[w::W1] for w in range(W1)])

  class Op(M.transforms.RandomMap):

    def random_map(self, x, rng):
      return (x, int(rng.integers(1000)))

  def mk():
    return dl_mod().DataLoader(data_source=Echo(), sampler=sampler(), operations=[Op()], worker_count=W, shard_options=so, read_options=read0())

  with workers(ctx):
    it = iter(mk())
    k = ctx.cint("k", 0, min(len(want), 3))
    ctx.eq(take(it, k), want[:k], "records differ from the sampled ones")
    st = it.get_state()
    it2 = iter(mk())
    it2.set_state(st)
    m = len(want) + (1 if epochs else 0) - k
    ctx.eq(take(it2, m), want[k:], "restored records differ")
    ctx.eq(take(it, m), want[k:], "records differ from the sampled ones")


@harness("P24", "positions", "conversion of dataset states to loader states and back: 0..4 workers, shard counts 1..8 (thorough 16) and any shard index, per-worker positions 0..2^40 all symbolic, any turn: "
         "the state names the sampler index that each worker read last, and restoring gives back every position and turn, also through JSON",
         quick_s=100, thorough_s=300)
def p24_positions(ctx, tier="quick"):
  M = mods()
  W = ctx.cint("workers", 0, 4)
  cnt = ctx.cint("shards", 1, 8 if tier == "quick" else 16)
  idx = ctx.int("shard", 0, cnt - 1)
  pos = [ctx.int(f"pos{q}", 0, BIG) for q in range(max(W, 1))]
  turn = ctx.cint("turn", 0, max(W, 1) - 1)
  got = []

  class Parent(M.dataset.DatasetIterator):

    def __next__(self):
      raise StopIteration

    def get_state(self):
      if W == 0:
        return {"next_index": pos[0]}
      return {"next_index_in_cycle": turn, "next_index_in_datasets": W, "iterators_in_use_indices": list(range(W)),
              "iterators_in_use_states": [{"next_index": p} for p in pos], "exhausted": [0] * W, "future_states": {}}

    def set_state(self, st):
      got.append(st)

  so = M.sharding.ShardOptions.__new__(M.sharding.ShardOptions)
  for k, v in (("shard_index", idx), ("shard_count", cnt), ("drop_remainder", False)):
    object.__setattr__(so, k, v)
  it = dl_mod()._DataLoaderStateDatasetIterator(Parent(), so, W, Keys([0]), Echo())
  st = jsonable(it.get_state())
  W1 = max(W, 1)
  for w in range(W1):
    # Element p of worker w is local element p * W1 + w of the shard.
    p = pos[w] - 1
    ctx.eq(st["last_seen_indices"][str(w)], (p * W1 + w) * cnt + idx, "last seen index of a worker differs")
  it.set_state(st)
  ctx.check(len(got) == 1, "one state is set")
  new = got[0]
  if W == 0:
    ctx.eq(new, {"next_index": pos[0]}, "position differs after restoring")
  else:
    ctx.eq(new["iterators_in_use_states"], [{"next_index": p} for p in pos], "positions differ after restoring")
    ctx.eq(new["next_index_in_cycle"], turn, "turn differs after restoring")
    ctx.eq(new["iterators_in_use_indices"], list(range(W)), "workers differ after restoring")
    ctx.eq(new["next_index_in_datasets"], W, "workers differ after restoring")


@harness("P24", "shards", "sampler sizes 0..2^40 and positions symbolic, shard counts 1..8 (thorough 32), with or without dropping the remainder: every sampler position belongs to exactly one shard and place, and every place of every shard to one position",
         quick_s=60, thorough_s=300)
def p24_shards(ctx, tier="quick"):
  M = mods()
  n = ctx.int("n", 0, BIG)
  cnt = ctx.cint("shards", 1, 8 if tier == "quick" else 32)
  drop = ctx.cbool("drop")
  used = n - n % cnt if drop else n

  class Sym:

    def __init__(self):
      self.asked = []

    def __len__(self):
      return n

    def __getitem__(self, i):
      self.asked.append(i)
      ctx.check(conj([i >= 0, i < n]), "position outside the sampler")
      return M.record.RecordMetadata(index=i, record_key=i)

  def one(idx):
    s = Sym()
    return s, dl_mod()._SamplerMapDataset(Echo(), s, shard(idx, cnt, drop))

  idx = ctx.cint("shard", 0, cnt - 1)
  s, ds = one(idx)
  i = ctx.int("i", 0, BIG)
  ctx.assume(i < ds.length)
  r = ds[i]
  ctx.eq(s.asked, [i * cnt + idx], "position of a shard's element differs")
  ctx.eq(r.data, i * cnt + idx, "record differs")
  ctx.check(i * cnt + idx < used, "a record past the remainder is read")
  # Conversely: position g is at place g // cnt of shard g % cnt.
  g = ctx.int("g", 0, BIG)
  ctx.assume(conj([g < used, g % cnt == idx]))
  ctx.check(g // cnt < ds.length, "a position of the sampler is never read")


@harness("P24", "sampler_size", "samplers without a length: 0..20 records, around powers of two up to 2^62, or endless: the size is found exactly",
         quick_s=30)
def p24_size(ctx):
  kind = ctx.choice("kind", ["small", "power", "large", "endless"])
  if kind == "small":
    n = ctx.int("n", 0, 20)
  elif kind == "power":
    n = 2 ** ctx.cint("k", 4, 62) + ctx.int("d", -2, 2)
  elif kind == "large":
    n = sys.maxsize - ctx.int("d", 0, 3)
  else:
    n = None
  got = dl_mod()._SamplerMapDataset(Echo(), NoLen(n), shard(0, 1)).length
  ctx.eq(got, sys.maxsize if n is None else n, "size of the sampler differs")


@harness("P24", "validation", "0..2 workers, saved and restored under another worker count, sampler or data source: refused without moving the reader; under equal ones accepted; the worker count defaults to the number of processors, negative counts and buffers are refused",
         quick_s=60, stubs=(S_WORK,))
def p24_valid(ctx):
  W = ctx.cint("workers", 0, 2)
  other = ctx.choice("other", ["same", "workers", "sampler", "source"])
  keys = list(range(4))
  with workers(ctx):
    it = iter(loader(Keys(keys), ["map"], 0, 1, False, W))
    k = ctx.cint("k", 0, 4)
    take(it, k)
    st = it.get_state()
    W2 = W + ctx.cint("more", 1, 2) if other == "workers" else W
    it2 = iter(loader(Keys(keys, "Other" if other == "sampler" else "Keys"), ["map"], 0, 1, False, W2, source=Echo(name="Other") if other == "source" else None))
    take(it2, 1)
    before = it2.get_state()
    try:
      it2.set_state(st)
      err = None
    except ValueError as e:
      err = e
    ctx.check((err is None) == (other == "same"), f"state taken under another configuration: {err}")
    if err is not None:
      ctx.eq(it2.get_state(), before, "a refused state moved the reader")
      ctx.eq(norm(take(it2, 9)), norm([("m", q) for q in _order(4, W2)[1:]]), "a refused state moved the reader")
    else:
      ctx.eq(norm(take(it2, 9)), norm([("m", q) for q in _order(4, W)[k:]]), "restored records differ")
  for bad in (dict(worker_count=-1 - ctx.cint("neg", 0, 2)), dict(worker_count=0, worker_buffer_size=-1)):
    try:
      dl_mod().DataLoader(data_source=Echo(), sampler=Keys(keys), shard_options=shard(0, 1), **bad)
      ctx.check(False, f"accepted: {bad}")
    except ValueError:
      pass
  import os
  ctx.eq(dl_mod().DataLoader(data_source=Echo(), sampler=Keys(keys), shard_options=shard(0, 1), worker_count=None).multiprocessing_options.num_workers, os.cpu_count(), "default worker count differs")


def _order(n, W):
  W1 = max(W, 1)
  return round_robin([list(range(n))[w::W1] for w in range(W1)])
