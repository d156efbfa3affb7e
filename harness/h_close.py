"""Closing iterators (P41)."""

import shutil
import tempfile

from harness.common import *  # noqa
from harness.h_elastic import _boxed, _shards
from harness.h_thread import S_SCHED
from symx import sched
from symx.registry import harness

STAGES = ["map", "random_map", "with_index", "filter", "batch", "rebatch", "limit", "cache", "repeat", "zip", "mix", "interleave", "flat_map",
          "window", "first_fit", "best_fit", "concat_split", "threads", "threads0", "options", "mp0"]


def _flat():
  M = mods()

  class F(M.transforms.FlatMap):
    max_fan_out = 2

    def flat_map(self, x):
      return [x, x]

  return F()


def _feat(x):
  import numpy as np

  return {"f": np.array([1], dtype=np.int32)}


def _stage(op, ds):
  """One stage over a stream; packing and rebatching look at the count only."""
  import numpy as np
  g, M = grain(), mods()
  e = g.experimental
  if op == "map":
    return ds.map(lambda x: x)
  if op == "random_map":
    return ds.seed(1).random_map(lambda x, r: x)
  if op == "with_index":
    return ds.map_with_index(lambda i, x: x)
  if op == "filter":
    return ds.filter(lambda x: True)
  if op == "batch":
    return ds.batch(2, batch_fn=list)
  if op == "rebatch":
    return M.rebatch.RebatchIterDataset(ds.map(lambda x: np.zeros((3, 1), np.int32)), 2)
  if op == "limit":
    return M.limit.LimitIterDataset(ds, 2)
  if op == "cache":
    return M.repeat.RepeatIterDataset(M.cache.CacheIterDataset(ds), 2)
  if op == "repeat":
    return M.repeat.RepeatIterDataset(ds, 2)
  if op == "zip":
    return M.zip.ZipIterDataset([ds, ds])
  if op == "mix":
    return g.IterDataset.mix([ds, ds], [1, 1])
  if op == "interleave":
    return M.interleave.InterleaveIterDataset([ds, ds.map(lambda x: x), ds], cycle_length=2, num_make_iter_threads=0, make_iter_buffer_size=0)
  if op == "flat_map":
    return M.flatmap.FlatMapIterDataset(ds, _flat())
  if op == "window":
    return e.WindowShuffleIterDataset(ds, window_size=2, seed=1)
  if op in ("first_fit", "best_fit"):
    C = e.FirstFitPackIterDataset if op == "first_fit" else M.packing.BestFitPackIterDataset
    return C(ds.map(_feat), length_struct={"f": 2}, num_packing_bins=2)
  if op == "concat_split":
    return e.ConcatThenSplitIterDataset(ds.map(_feat), length_struct={"f": 2})
  if op == "threads":
    return e.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=1)
  if op == "threads0":
    return e.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=0)
  if op == "options":
    return M.dataset.WithOptionsIterDataset(ds, M.base.DatasetOptions())
  return ds.mp_prefetch(g.MultiprocessingOptions(num_workers=0))


def _counting(n, reads):

  class S(Src):

    def __getitem__(self, i):
      reads.append(i)
      return i

  return grain().MapDataset.source(S(n))


def _refuses(ctx, it, what):
  for _ in range(2):
    try:
      next(it)
      got = "delivers an element"
    except ValueError:
      got = None
    except StopIteration:
      got = "reports the end instead of refusing to be read"
    ctx.check(got is None, f"{what}: a closed iterator {got}")


@harness("P41", "closed", "streams of 0..4 elements, read directly, with threads or from another stream, under up to 2 (thorough 3) of 21 stages; closed after 0..5 elements (also after the end): every further read raises ValueError, nothing is read from the source, no thread is left, closing again does nothing",
         quick_s=150, thorough_s=900, stubs=(S_SCHED,))
def p41_closed(ctx):
  deep = ctx.tier == "thorough"
  g = grain()
  depth = ctx.cint("stages", 0, 3 if deep else 2)
  ops = [ctx.choice(f"op{q}", STAGES) for q in range(depth)]
  n = ctx.cint("n", 0, 4) if deep or depth < 2 else 3
  buf = ctx.choice("read", [0, 2]) if deep or depth < 2 else 0
  k = ctx.cint("k", 0, 5) if depth < 2 else ctx.choice("k", [0, 1, 3])
  reads = []
  with sched.installed(ctx, preempt=0, free=False, max_points=200000) as s:
    ds = _counting(n, reads).to_iter_dataset(g.ReadOptions(num_threads=buf, prefetch_buffer_size=buf))
    for op in ops:
      ds = _stage(op, ds)
    it = iter(ds)
    take(it, k)
    it.close()
    s.run_others()
    # The pools of exhausted components end with their iterators (not modelled).
    dropped = buf and "interleave" in ops
    ctx.check(dropped or not s.alive(), f"threads run after close: {s.alive()}")
    before = len(reads)
    _refuses(ctx, it, ops[-1] if ops else "reading")
    it.close()
    _refuses(ctx, it, ops[-1] if ops else "reading")
    ctx.check(len(reads) == before, "the source is read after close")
    s.run_others()
    ctx.check(dropped or not s.alive(), "threads run after close")
    ctx.check(not s.uncaught, f"a thread died: {s.uncaught}")
  if k and n:
    ctx.reach("closed mid-stream")


@harness("P41", "propagates", "1..3 streams of a custom iterator (0..3 elements) below one of 21 stages and optionally a second: closing after 0..4 elements, with one of the streams below already closed by someone else or not, closes every iterator that was opened below, in whatever state",
         quick_s=100, thorough_s=400, stubs=(S_SCHED,))
def p41_propagates(ctx):
  M, g = mods(), grain()
  opened, early = [], 0
  n = ctx.cint("n", 0, 3)

  class It(M.dataset.DatasetIterator):

    def __init__(self):
      super().__init__()
      self.pos, self.closes = 0, 0
      opened.append(self)

    def __next__(self):
      ctx.check(not self.closes or early, "an iterator is read after it was closed")
      if self.pos >= n:
        raise StopIteration
      self.pos += 1
      return self.pos

    def get_state(self):
      return {"pos": self.pos}

    def set_state(self, st):
      self.pos = st["pos"]

    def close(self):
      self.closes += 1
      super().close()

  class Ds(M.dataset.IterDataset):

    def __init__(self):
      super().__init__()

    def __iter__(self):
      return It()

    def __str__(self):
      return "Ds"

  ops = [ctx.choice(f"op{q}", STAGES) for q in range(ctx.cint("stages", 1, 2))]
  k = ctx.cint("k", 0, 4) if len(ops) < 2 or ctx.tier == "thorough" else ctx.choice("k", [0, 2])
  if len(ops) > 1 and ctx.tier != "thorough":
    ctx.assume(n == 3)
  with sched.installed(ctx, preempt=0, free=False, max_points=200000) as s:
    ds = Ds()
    for op in ops:
      ds = _stage(op, ds)
    it = iter(ds)
    take(it, k)
    # Someone who holds an iterator below may have closed it already.
    early = ctx.cint("early", 0, 2) if len(ops) < 2 or ctx.tier == "thorough" else 0
    if early:
      ctx.assume(early <= len(opened))
      opened[early - 1].close()
    it.close()
    # Iterators of exhausted streams may have been dropped, not closed.
    ctx.check(all(x.closes for x in opened if x.pos < n), "an iterator below is left open")
    it.close()
    s.run_others()
    ctx.check(not s.alive(), "threads run after close")


@harness("P41", "schedules", "thread prefetching (buffer 1..2) over or under 1..2 interleaved streams of 0..2 elements, or several reading threads: closed after 0..2 elements, at most 1 preemption: no thread is left, no deadlock, further reads refused",
         quick_s=120, thorough_s=600, stubs=(S_SCHED,))
def p41_schedules(ctx):
  g, M = grain(), mods()
  kind = ctx.choice("kind", ["over", "under", "readers", "twice"])
  deep = ctx.tier == "thorough"
  n = ctx.cint("n", 0, 2) if deep else ctx.choice("n", [0, 2])
  b = ctx.cint("buffer", 1, 2) if deep else 1
  k = ctx.cint("k", 0, 2) if deep else ctx.choice("k", [0, 1])
  thr = lambda d: M.prefetch.ThreadPrefetchIterDataset(d, prefetch_buffer_size=b)
  with sched.installed(ctx, preempt=1 if ctx.tier == "quick" else 2) as s:
    if kind == "over":
      ds = thr(M.interleave.InterleaveIterDataset([src_iter(n), src_iter(1)], cycle_length=2, num_make_iter_threads=1, make_iter_buffer_size=1))
    elif kind == "under":
      ds = M.interleave.InterleaveIterDataset([thr(src_iter(n)), thr(src_iter(1))], cycle_length=1, num_make_iter_threads=0, make_iter_buffer_size=0, iter_buffer_size=1)
    elif kind == "readers":
      ds = src_map(n).to_iter_dataset(g.ReadOptions(num_threads=2, prefetch_buffer_size=b)).batch(2, batch_fn=list)
    else:
      ds = thr(thr(src_iter(n)).map(lambda x: x))
    it = iter(ds)
    take(it, k)
    it.close()
    _refuses(ctx, it, kind)
    del it
    s.run_others()
    ctx.check(not s.alive(), f"threads run after close: {s.alive()}")
    ctx.check(not s.uncaught, f"a thread died: {s.uncaught}")


@harness("P41", "elastic", "elastic iterators over random-access data (0..6 elements) and interleaved streams (1..2 shards of 0..2 elements), 1 host, batches of 1..2, closed after 0..2 steps, also before anything was read or right after a restore: every further read raises ValueError",
         quick_s=60, stubs=(S_SCHED,))
def p41_elastic(ctx):
  M = mods()
  kind = ctx.choice("kind", ["map", "iter"])
  b = ctx.cint("batch", 1, 2)
  k = ctx.cint("k", 0, 2)
  restore = ctx.cbool("restore")
  with sched.installed(ctx, preempt=0, free=False, max_points=200000) as s:
    if kind == "map":
      ds = src_map(ctx.cint("n", 0, 6)).map(_boxed)
    else:
      ds = M.interleave.InterleaveIterDataset([list_iter([(q, x) for x in range(ctx.cint(f"len{q}", 0, 2))]).map(_boxed) for q in range(ctx.cint("shards", 1, 2))], cycle_length=2, num_make_iter_threads=0, make_iter_buffer_size=0)
    it = M.elastic.ElasticIterator(ds, b, _shards(0, 1), read_options=read0())
    take(it, k)
    if restore:
      it.set_state(it.get_state())
    it.close()
    _refuses(ctx, it, "elastic")
    it.close()
    s.run_others()
    ctx.check(not s.alive(), "threads run after close")


@harness("P41", "files", "TFRecord files of 0..3 records, plain or under a stage, closed after 0..4 records: every further read raises ValueError", quick_s=40,
         stubs=("real files in a scratch directory",))
def p41_files(ctx):
  import os
  import struct
  g = grain()
  n = ctx.cint("n", 0, 3)
  k = ctx.cint("k", 0, 4)
  op = ctx.choice("op", ["none", "map", "batch", "cache"])
  d = tempfile.mkdtemp(prefix="verif-close-")
  try:
    p = os.path.join(d, "f.tfrecord")
    with open(p, "wb") as f:
      for q in range(n):
        f.write(struct.pack("<Q", 2) + b"crc1" + b"r%d" % q + b"crc2")
    ds = g.experimental.TFRecordIterDataset(p)
    it = iter(ds if op == "none" else _stage(op, ds))
    take(it, k)
    it.close()
    _refuses(ctx, it, "file")
  finally:
    shutil.rmtree(d, ignore_errors=True)
