"""Splitting a pipeline over several workers (P27)."""

import contextlib
import threading

from harness.common import *  # noqa
from harness.h_thread import S_SCHED
from symx import sched
from symx.registry import harness

S_WORK = ("each ProcessPrefetchIterDataset is replaced by an in-process stand-in with the behaviour the other P27 harnesses establish: its own deep copy of the pipeline, "
          "created on the first read with the worker flag set; a state set earlier is applied first; the state of an unread iterator is computed in the main process; "
          + S_SCHED + " (one deterministic schedule here)")


_HERE = threading.local()


class _InWorker:
  """The worker flag: set while a thread does the work of a worker process."""

  def __bool__(self):
    return getattr(_HERE, "worker", False)


def _stand_in():
  M = mods()

  @contextlib.contextmanager
  def worker():
    old, _HERE.worker = getattr(_HERE, "worker", False), True
    try:
      yield
    finally:
      _HERE.worker = old

  class It(M.dataset.DatasetIterator):

    def __init__(self, ds):
      super().__init__()
      self._ds, self._it, self._st, self._ask, self._done = ds, None, None, None, False
      self._index = 0
      self._ctx.dataset_options = M.prefetch.get_dataset_options(ds)

    def __next__(self):
      if self._done:
        raise StopIteration
      with worker():
        if self._it is None:
          ds = M.dataset.WithOptionsIterDataset(self._ds, options=self._ctx.dataset_options)
          self._it = copy.deepcopy(ds).__iter__()
        if self._ask is not None:
          kind, v = self._ask
          self._ask = None
          if kind == "state":
            self._it.set_state(copy.deepcopy(v))
          else:
            M.dataset.set_next_index(self._it, v)
        try:
          e = next(self._it)
        except Exception:
          self._done = True
          self._it = None
          raise
        self._st = copy.deepcopy(self._it.get_state())
      self._index = None
      return e

    def get_state(self):
      if self._st is None:
        it = self._ds.__iter__()
        if self._index:
          M.dataset.set_next_index(it, self._index)
        self._st = it.get_state()
      return self._st

    def set_state(self, st):
      self._st, self._ask, self._done, self._index = st, ("state", st), False, None

    def _get_next_index(self):
      it = self._ds.__iter__()
      it.set_state(self.get_state())
      return M.dataset.get_next_index(it)

    def _set_next_index(self, i):
      self._st, self._ask, self._done, self._index = None, ("index", i), False, i

    def set_keep_workers_after_stop_iteration(self, keep):
      pass

    def start_prefetch(self):
      pass

    def close(self):
      self._closed = True

  class InProc(M.dataset.IterDataset):

    def __init__(self, parent, buffer_size, worker_init_fn=None):
      assert buffer_size > 0
      super().__init__(parent)

    def __iter__(self):
      return It(self._parent)

  return InProc


@contextlib.contextmanager
def workers(ctx):
  M = mods()
  with sched.installed(ctx, free=False, extra=[(M.pp.__dict__, "ProcessPrefetchIterDataset", _stand_in()), (M.pp.__dict__, "_is_in_worker_process", _InWorker())]) as s:
    yield s


def round_robin(streams):
  out = []
  for q in range(max(map(len, streams), default=0)):
    out += [s[q] for s in streams if q < len(s)]
  return out


MAPS = ["none", "shuffle", "slice", "repeat", "batch", "filter", "map_with_index", "concat", "zip"]
ITERS = ["none", "batch", "filter", "flat", "window_shuffle", "rebatch", "zip_of_one", "mix_of_one"]


def _map_stage(kind, ds, toks):
  M = mods()
  if kind == "shuffle":
    return ds.shuffle(seed=7)
  if kind == "slice":
    return ds[1:]
  if kind == "repeat":
    return ds.repeat(2)
  if kind == "batch":
    return ds.batch(2, batch_fn=list)
  if kind == "filter":
    return ds.filter(lambda x: x[0] % 2 == 0)
  if kind == "map_with_index":
    return ds.map_with_index(lambda i, x: (i, x))
  if kind == "concat":
    return M.mix.ConcatenateMapDataset([ds, ds])
  if kind == "zip":
    return M.zip.ZipMapDataset([ds, ds])
  return ds


def _key(x):
  while isinstance(x, (list, tuple)):
    x = x[0]
  return x


def _iter_stage(kind, ds):
  """The part of the pipeline that each worker applies to its elements."""
  M = mods()
  if kind == "batch":
    return ds.batch(2, batch_fn=list)
  if kind == "filter":
    return ds.filter(lambda x: bool(_key(x) != 1))
  if kind == "flat":

    class Split(M.transforms.FlatMap):
      max_fan_out = 3

      def flat_map(self, x):
        return [(x, q) for q in range(_key(x) % 3)]

    return M.flatmap.FlatMapIterDataset(ds, Split())
  if kind == "window_shuffle":
    return M.shuffle.WindowShuffleIterDataset(ds, window_size=2, seed=3)
  if kind == "rebatch":
    return M.rebatch.RebatchIterDataset(ds.batch(2, batch_fn=arr), 3, drop_remainder=False)
  if kind == "zip_of_one":
    return M.zip.ZipIterDataset([ds.map(lambda x: x), ds.map(lambda x: ("other", x))])
  if kind == "mix_of_one":
    return M.mix.MixedIterDataset([ds.map(lambda x: x), ds.map(lambda x: (x, "other"))], [1, 1])
  return ds


def _elements(ctx, n):
  """Element q is (q, payload)."""
  return [(q, ctx.token(f"t{q}")) for q in range(n)]


def _per_worker(items, kind):
  return norm(drain(_iter_stage(kind, list_iter(items)).__iter__()))


@harness("P27", "workers", "random-access pipelines of 0..5 elements with symbolic payloads, one of 9 stages before the split (shuffle, slice, repeat, batch, filter, ...) and one of 8 after it (batch, filter, flat map, window shuffle, zip and mix of a stream with itself, ...), 0..3 workers, buffer 1..2: "
         "the elements are those of the stream stages over the strided parts of the random-access stages, round-robin",
         quick_s=150, thorough_s=500, stubs=(S_WORK,))
def p27_workers(ctx, tier="quick"):
  M = mods()
  n = ctx.cint("n", 0, 4 if tier == "quick" else 6)
  W = ctx.cint("workers", 0, 3)
  mk = ctx.choice("before", MAPS)
  ik = ctx.choice("after", ITERS)
  if mk != "none" and ik != "none" and tier == "quick":
    ctx.assume(MAPS.index(mk) % 2 == ITERS.index(ik) % 2)  # half of the pairs
  if ik == "rebatch":
    ctx.assume(mk in ("none", "shuffle", "slice", "filter"))
  if mk == "slice":
    ctx.assume(n > 0)
  if mk in ("repeat", "shuffle"):
    ctx.assume(n > 0)
  toks = _elements(ctx, n)
  ds = _map_stage(mk, src_map(n, toks), toks)
  every = [ds[q] for q in range(len(ds))]
  want = [_per_worker([x for x in every[w::max(W, 1)] if x is not None], ik) for w in range(max(W, 1))]
  with workers(ctx) as s:
    opts = grain().MultiprocessingOptions(num_workers=W, per_worker_buffer_size=ctx.cint("buffer", 1, 2) if tier != "quick" else 1)
    it = _iter_stage(ik, ds.to_iter_dataset(read0())).mp_prefetch(opts).__iter__()
    ctx.eq(norm(drain(it)), round_robin(want), "elements differ from those of the parts read by one process each")
    ctx.check(not take(it, 1), "continues after the end")
    it.close()
    s.run_others()
    ctx.check(not s.alive(), "threads run after close")


def _blocks(n, W):
  """Consecutive parts, as even as possible, the larger ones first."""
  out, a = [], 0
  for w in range(W):
    b = a + n // W + (1 if w < n % W else 0)
    out.append((a, b))
    a = b
  return out


@harness("P27", "sequential", "pipelines of 0..5 (thorough 6) elements (a source or a range of any start and step 3 or -2, thorough 1..3 or -1..-2), shuffled, mapped, filtered, or zipped with another view of the same source, sequential slices over 0..3 workers or threads: "
         "worker w reads its block of consecutive source elements, every element once",
         quick_s=100, thorough_s=300, stubs=(S_WORK,))
def p27_seq(ctx, tier="quick"):
  M = mods()
  n = ctx.cint("n", 0, 6 if tier == "thorough" else 5)
  W = ctx.cint("workers", 0, 3)
  kind = ctx.choice("kind", ["plain", "map", "shuffle", "filter", "twice", "infinite"])
  root = ctx.choice("root", ["source", "range"])
  threads = ctx.cbool("threads")
  if kind in ("shuffle", "infinite"):
    ctx.assume(n >= max(W, 1))
  if root == "source":
    vals = [ctx.token(f"t{q}") for q in range(n)]

    def mk(a=0, b=n):
      return src_map(b - a, vals[a:b])
  else:
    start = ctx.int("start", -BIG, BIG)
    step = ctx.choice("step", [1, 2, 3, -1, -2] if tier == "thorough" else [3, -2])
    vals = [start + step * q for q in range(n)]

    def mk(a=0, b=n):
      return M.source.RangeMapDataset(start + a * step, start + b * step, step)

  f = lambda x: ("f", x)  # noqa: E731
  g = lambda x: ("g", x)  # noqa: E731

  def pipe(root):
    if kind == "map":
      return root.map(f).to_iter_dataset(read0()).map(g)
    if kind == "shuffle":
      return root.shuffle(seed=5).to_iter_dataset(read0())
    if kind == "filter":
      return root.map(f).filter(lambda x: core.disj([core.deep_eq(x[1], v) for v in vals[::2]])).to_iter_dataset(read0())
    if kind == "twice":
      return M.zip.ZipIterDataset([root.map(f).to_iter_dataset(read0()), root.map(g).to_iter_dataset(read0())])
    if kind == "infinite":
      return root.repeat().to_iter_dataset(read0())
    return root.to_iter_dataset(read0())

  k = 2 * n + 1 if kind == "infinite" else 99
  want = [norm(take(pipe(mk(a, b)).__iter__(), k)) for a, b in _blocks(n, max(W, 1))]
  want = round_robin(want)[:k]
  with workers(ctx) as s:
    ds = pipe(mk())
    if threads:
      ds = M.prefetch.multithread_prefetch(ds, W, 1, sequential_slice=True)
    else:
      ds = ds.mp_prefetch(grain().MultiprocessingOptions(num_workers=W), sequential_slice=True)
    it = ds.__iter__()
    ctx.eq(norm(take(it, k)), want, "elements differ from those of consecutive parts")
    if kind in ("plain", "map"):
      ctx.check(len(want) == n, "an element is missing or repeated")
    it.close()


@harness("P27", "worker_checkpoints", "streams of 0..4 elements (batched, filtered, flat-mapped, zipped with themselves) over 2..3 workers, plain or repeated; state after any number of elements, restored in a fresh, the same or another iterator, directly or through JSON; second checkpoint",
         quick_s=150, thorough_s=600, stubs=(S_WORK,), must_reach=("mid-stream restore",))
def p27_ckpt(ctx, tier="quick"):
  n = ctx.cint("n", 0, 4)
  W = ctx.cint("workers", 2, 3) if tier != "quick" else 2
  ik = ctx.choice("after", ["none", "batch", "filter", "flat", "zip_of_one"] if tier != "quick" else ["none", "batch", "flat"])
  toks = [(q, "e") for q in range(n)]
  with workers(ctx):
    def build():
      ds = _iter_stage(ik, src_map(n, toks).to_iter_dataset(read0()))
      return ds.mp_prefetch(grain().MultiprocessingOptions(num_workers=W))

    checkpoint_law(ctx, build, 9, modes=("fresh", "same") if tier == "quick" else ("fresh", "same", "used"))


@harness("P27", "nested_interleave", "1..4 files of 0..2 elements read by an interleave of cycle length 1..3, split over 2 workers (thorough 2..3): files go to the workers round-robin and each worker interleaves its own; "
         "states after 0..4 elements, also before a worker has delivered anything, restore exactly",
         quick_s=150, thorough_s=500, stubs=(S_WORK,))
def p27_nested(ctx, tier="quick"):
  from harness.h_inter import _interleave, _ref
  nf = ctx.cint("files", 1, 4)
  if tier == "quick":
    lens = [ctx.cint("len0", 0, 2)] + [2] * (nf - 1)
  else:
    lens = [ctx.cint(f"len{q}", 0, 2) for q in range(nf)]
  cycle = ctx.cint("cycle", 1, 3)
  W = ctx.cint("workers", 2, 3) if tier != "quick" else 2
  want = []
  for w in range(W):
    mine = list(range(nf))[w::W]
    want.append([(mine[c], i) for c, i in _ref([lens[q] for q in mine], cycle)])
  want = round_robin(want)
  with workers(ctx):
    def build():
      return _interleave(lens, cycle, "iter").mp_prefetch(grain().MultiprocessingOptions(num_workers=W)).__iter__()

    k = ctx.cint("k", 0, min(4, len(want)))
    it = build()
    ctx.eq(take(it, k), want[:k], "elements differ")
    st = it.get_state()
    if ctx.cbool("json"):
      st = jsonable(st)
    it2 = build()
    it2.set_state(copy.deepcopy(st))
    ctx.eq(norm(drain(it2)), norm(want[k:]), "restored stream differs")
    ctx.eq(norm(drain(it)), norm(want[k:]), "stream differs")
