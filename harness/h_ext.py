"""Element specs (P38), checkpoint directories (P39), range sources (P40), grain.load (P24)."""

import asyncio
import contextlib
import importlib
import json as _json
import shutil
import sys
import tempfile

from harness.common import *  # noqa
from harness.h_elastic import _boxed, _shards
from harness.h_loader import Echo, _Text, dl_mod, keeps, local_indices, make_op, ops_mod, shard
from harness.h_workers import S_WORK, round_robin, workers
from symx import sched
from symx.registry import harness

# ------------------------------------------------------------------ P38


class Leaf:
  """Reference spec: dims (None = unknown) and a type name."""

  def __init__(self, dims, dtype):
    self.dims, self.dtype = tuple(dims), dtype


def _smap(f, s):
  if isinstance(s, Leaf):
    return f(s)
  if isinstance(s, dict):
    return {k: _smap(f, v) for k, v in s.items()}
  return tuple(_smap(f, v) for v in s)


def _lead(b):
  return lambda s: _smap(lambda l: Leaf((b,) + l.dims, l.dtype), s)


def _recut(r):
  return lambda s: _smap(lambda l: Leaf((r,) + l.dims[1:], l.dtype), s)


def _same_spec(ctx, got, want, where):
  if isinstance(want, Leaf):
    ctx.check(len(got.shape) == len(want.dims), f"{where}: rank of the spec differs")
    for a, b in zip(got.shape, want.dims):
      if a is None or b is None:
        ctx.check(a is b, f"{where}: unknown dimension of the spec differs")
      else:
        ctx.eq(a, b, f"{where}: dimension of the spec differs")
    import numpy as np
    ctx.check(np.dtype(got.dtype) == np.dtype(want.dtype), f"{where}: type of the spec differs")
  elif isinstance(want, dict):
    ctx.check(isinstance(got, dict) and sorted(got) == sorted(want), f"{where}: structure of the spec differs")
    for k in want:
      _same_spec(ctx, got[k], want[k], where)
  else:
    ctx.check(isinstance(got, tuple) and len(got) == len(want), f"{where}: structure of the spec differs")
    for a, b in zip(got, want):
      _same_spec(ctx, a, b, where)


def _spec_source(spec, item, n):
  """A root dataset with a spec; item(i) builds element i (None: reading is an error)."""
  M = mods()

  class Root(M.dataset.MapDataset):

    def __init__(self):
      super().__init__()

    def __len__(self):
      return n

    def __getitem__(self, i):
      if isinstance(i, slice):
        return self.slice(i)
      if item is None:
        raise AssertionError("asking for the spec read an element")
      return item(i)

    @property
    def _element_spec(self):
      return M.tree.map_structure(lambda l: M.base.ShapeDtypeStruct(l.dims, l.dtype), _totree(spec)) if not isinstance(spec, Leaf) else M.base.ShapeDtypeStruct(spec.dims, spec.dtype)

  return Root()


def _totree(s):
  return s


def _with_spec(f, out):
  """A transformation with output_spec (f on elements, out on specs)."""
  M = mods()

  class T(M.transforms.Map):

    def map(self, x):
      return f(x)

    def output_spec(self, s):
      return out(s)

  return T()


def _wrap_map():
  return _with_spec(lambda x: {"w": x}, lambda s: {"w": s}), lambda s: {"w": s}


MAP_OPS = ["batch", "batch_drop", "shuffle", "window", "slice", "repeat", "filter", "zip", "mix", "concat", "select", "map", "seed"]
ITER_OPS = ["batch", "batch_drop", "rebatch", "rebatch_drop", "repeat", "filter", "limit", "cache", "zip", "mix", "interleave", "threads", "mp", "window", "map", "options", "seed"]


def _map_op(op, ds, spec, b):
  """Applies op; returns the dataset and its reference spec."""
  g, M = grain(), mods()
  if op == "batch":
    return ds.batch(b), _lead(None)(spec)
  if op == "batch_drop":
    return ds.batch(b, drop_remainder=True), _lead(b)(spec)
  if op == "shuffle":
    return ds.shuffle(seed=1), spec
  if op == "window":
    return M.shuffle.WindowShuffleMapDataset(ds, window_size=2, seed=1), spec
  if op == "slice":
    return ds[::2], spec
  if op == "repeat":
    return ds.repeat(2), spec
  if op == "filter":
    return ds.filter(lambda x: True), spec
  if op == "zip":
    return M.zip.ZipMapDataset([ds, ds.map(_wrap_map()[0])]), (spec, {"w": spec})
  if op == "mix":
    return g.MapDataset.mix([ds, ds], [1, 2]), spec
  if op == "concat":
    return g.MapDataset.concatenate([ds, ds]), spec
  if op == "select":
    return g.MapDataset.select_from_datasets([ds, ds], _Turn()), spec
  if op == "seed":
    return ds.seed(3), spec
  t, f = _wrap_map()
  return ds.map(t), f(spec)


class _Turn:

  def __len__(self):
    return 4

  def __getitem__(self, i):
    return (i % 2, i // 2)


def _iter_op(op, ds, spec, b):
  g, M = grain(), mods()
  if op == "batch":
    return ds.batch(b), _lead(None)(spec)
  if op == "batch_drop":
    return ds.batch(b, drop_remainder=True), _lead(b)(spec)
  if op == "rebatch":
    return M.rebatch.RebatchIterDataset(ds, b), _recut(b)(spec)
  if op == "rebatch_drop":
    return M.rebatch.RebatchIterDataset(ds, b, drop_remainder=True), _recut(b)(spec)
  if op == "repeat":
    return M.repeat.RepeatIterDataset(ds, 2), spec
  if op == "filter":
    return ds.filter(lambda x: True), spec
  if op == "limit":
    return M.limit.LimitIterDataset(ds, 2), spec
  if op == "cache":
    return M.cache.CacheIterDataset(ds), spec
  if op == "zip":
    return M.zip.ZipIterDataset([ds, ds.map(_wrap_map()[0])]), (spec, {"w": spec})
  if op == "mix":
    return g.IterDataset.mix([ds, ds], [1, 2]), spec
  if op == "interleave":
    return M.interleave.InterleaveIterDataset([ds, ds], cycle_length=2), spec
  if op == "threads":
    return g.experimental.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=0), spec
  if op == "mp":
    return ds.mp_prefetch(g.MultiprocessingOptions(num_workers=0)), spec
  if op == "window":
    return g.experimental.WindowShuffleIterDataset(ds, window_size=2, seed=1), spec
  if op == "options":
    return M.dataset.WithOptionsIterDataset(ds, M.base.DatasetOptions()), spec
  if op == "seed":
    return ds.seed(3), spec
  t, f = _wrap_map()
  return ds.map(t), f(spec)


def _pick_ops(ctx, nmax, exact=False):
  n1 = ctx.cint("map stages", 0, nmax)
  to_iter = ctx.cbool("iter")
  n2 = ctx.cint("iter stages", 0 if not exact else 1, nmax - n1) if to_iter and n1 < nmax else 0
  return [ctx.choice(f"m{q}", MAP_OPS) for q in range(n1)], to_iter, [ctx.choice(f"i{q}", ITER_OPS) for q in range(n2)]


def _ranked(spec):
  """Whether every leaf has a leading dimension (rebatching needs one)."""
  ok = []
  _smap(lambda l: ok.append(len(l.dims) > 0) or l, spec)
  return all(ok)


@harness("P38", "shapes", "sources with a spec of one array, a dict or a tuple of arrays, rank 0..2, every dimension 1..2^40 symbolic or unknown; up to 2 (thorough 3) stages out of 13 random-access and 17 stream transformations, batch sizes 1..1000 symbolic (1 or 3 below a slice or concatenation): the spec of the result, computed without reading an element",
         quick_s=120, thorough_s=900)
def p38_shapes(ctx):
  deep = ctx.tier == "thorough"
  kind = ctx.choice("kind", ["array", "scalar", "dict"])
  dims = [ctx.int("d0", 1, BIG), None if kind == "dict" and ctx.cbool("unknown") else ctx.int("d1", 1, BIG)]
  if kind == "array":
    spec = Leaf(dims, "float32")
  elif kind == "scalar":
    spec = Leaf((), "int64")
  else:
    spec = {"a": Leaf(dims, "int16"), "b": (Leaf(dims[:1], "float64"), Leaf((), "bool"))}
  mops, to_iter, iops = _pick_ops(ctx, 3 if deep else 2)
  if not deep:
    ctx.assume(kind == "dict" or len(mops) + len(iops) < 2)
  g = grain()
  ds = _spec_source(spec, None, 2**50)
  gs = lambda d: g.experimental.get_element_spec(d)
  for q, op in enumerate(mops):
    ctx.assume(not (op.startswith("batch") and "filter" in mops[:q]))
    ds, spec = _map_op(op, ds, spec, ctx.choice(f"mb{q}", [1, 3]) if {"concat", "slice"} & set(mops[q + 1:]) else ctx.int(f"mb{q}", 1, 1000))
  _same_spec(ctx, gs(ds), spec, "random access")
  if to_iter:
    ds = ds.to_iter_dataset(read0())
    _same_spec(ctx, gs(ds), spec, "stream of it")
    for q, op in enumerate(iops):
      if op.startswith("rebatch") and not _ranked(spec):
        ctx.assume(False)
      ds, spec = _iter_op(op, ds, spec, ctx.int(f"ib{q}", 1, 1000))
    _same_spec(ctx, gs(ds), spec, "stream")


def _matches(ctx, x, spec, where, short_ok):
  """The element x is of the (real) spec."""
  import numpy as np
  if isinstance(spec, dict):
    ctx.check(isinstance(x, dict) and sorted(x) == sorted(spec), f"{where}: structure differs")
    for k in spec:
      _matches(ctx, x[k], spec[k], where, short_ok)
  elif isinstance(spec, tuple):
    ctx.check(isinstance(x, tuple) and len(x) == len(spec), f"{where}: structure differs")
    for a, b in zip(x, spec):
      _matches(ctx, a, b, where, short_ok)
  elif is_sym(x):
    ctx.check(spec.shape == () and np.dtype(spec.dtype).kind == "i", f"{where}: an integer, spec {spec}")
  else:
    x = np.asarray(x)
    ctx.check(x.ndim == len(spec.shape), f"{where}: rank {x.ndim}, spec {spec.shape}")
    for q, (a, b) in enumerate(zip(x.shape, spec.shape)):
      ctx.check(b is None or a == b or (q == 0 and short_ok and a < b), f"{where}: shape {x.shape}, spec {spec.shape}")
    ctx.check(x.dtype == np.dtype(spec.dtype), f"{where}: type {x.dtype}, spec {spec.dtype}")


@harness("P38", "elements", "the elements themselves for 2..5 source elements (scalar, array or dict of arrays), batch sizes 1..3, up to 2 stages (all pairs): every element has the structure, types and shapes of the reported spec (an unknown dimension matches any size, only the last element of an undropped rebatching may be shorter)",
         quick_s=120, thorough_s=600)
def p38_elements(ctx):
  import numpy as np
  deep = ctx.tier == "thorough"
  kind = ctx.choice("kind", ["array", "scalar", "dict", "range"])
  mops, to_iter, iops = _pick_ops(ctx, 2)
  n = ctx.cint("n", 2, 5) if deep else ctx.choice("n", [3, 4])
  if not deep:
    ctx.assume(kind == "dict" if len(mops) + len(iops) == 2 else True)
    ctx.assume(n == 4 or len(mops) + len(iops) < 2)
  b = ctx.cint("b", 1, 3) if deep else 2
  g = grain()
  if kind == "range":
    ds, spec = g.MapDataset.range(n), Leaf((), "int64")
  elif kind == "array":
    spec = Leaf((2, 3), "float32")
    ds = _spec_source(spec, lambda i: np.full((2, 3), 5, np.float32), n)
  elif kind == "scalar":
    spec = Leaf((), "int32")
    ds = _spec_source(spec, lambda i: np.int32(5), n)
  else:
    spec = {"a": Leaf((2, 3), "int16"), "b": (Leaf((2,), "float64"), Leaf((2, 1), "bool"))}
    ds = _spec_source(spec, lambda i: {"a": np.full((2, 3), 5, np.int16), "b": (np.full((2,), 5, np.float64), np.zeros((2, 1), bool))}, n)
  ragged = False
  with sched.installed(ctx, preempt=0, free=False, max_points=200000):
    for q, op in enumerate(mops):
      ctx.assume(not (op.startswith("batch") and "filter" in mops[:q]))
      # An unknown (remainder) batch can not be stacked with full ones.
      ctx.assume(not (ragged and op.startswith("batch")))
      ragged = ragged or op == "batch"
      ds, spec = _map_op(op, ds, spec, b)
    real = g.experimental.get_element_spec(ds)
    for i in range(len(ds)):
      x = ds[i]
      if x is not None:
        _matches(ctx, x, real, f"element {i}", False)
    if not to_iter:
      return
    ds = ds.to_iter_dataset(read0())
    short = False
    for op in iops:
      ctx.assume(not (ragged and op.startswith("batch")))
      if op.startswith("rebatch") and not _ranked(spec):
        ctx.assume(False)
      ragged = ragged or op in ("batch", "rebatch")
      short = (short and op != "rebatch_drop") or op == "rebatch"
      ds, spec = _iter_op(op, ds, spec, b)
    real = g.experimental.get_element_spec(ds)
    it = iter(ds)
    out = drain(it)
    it.close()
  for x in out:
    _matches(ctx, x, real, "element of the stream", short)
  ctx.reach("a stream is read")


@harness("P38", "batch_fn", "batch functions: with output_spec (called with the parent's spec, the batch size and the remainder mode, which are all symbolic), as a partial, a plain function (refused); transformations with and without output_spec, both sides", quick_s=40)
def p38_fns(ctx):
  import functools

  M, g = mods(), grain()
  d, b = ctx.int("d", 1, BIG), ctx.int("b", 1, BIG)
  drop = ctx.cbool("drop")
  side = ctx.cbool("iter")
  what = ctx.choice("what", ["spec", "partial", "plain", "map plain", "with_index", "map_iter plain", "random"])
  ds = _spec_source(Leaf((d,), "int32"), None, 8)
  if side:
    ds = ds.to_iter_dataset(read0())
  gs = g.experimental.get_element_spec
  calls = []

  class Fn:

    def __call__(self, xs, extra=None):
      return xs

    def output_spec(self, s, size, dr):
      calls.append((s, size, dr))
      return (s,)

  if what in ("spec", "partial"):
    got = gs(ds.batch(b, drop_remainder=drop, batch_fn=Fn() if what == "spec" else functools.partial(Fn(), extra=1)))
    ctx.check(len(calls) == 1, "output_spec is called once")
    _same_spec(ctx, calls[0][0], Leaf((d,), "int32"), "spec handed to the batch function")
    ctx.eq(calls[0][1], b, "batch size handed to the batch function")
    ctx.check(bool(calls[0][2]) == bool(drop), "remainder mode handed to the batch function")
    _same_spec(ctx, got, (Leaf((d,), "int32"),), "spec of the batch function")
    return
  if what in ("plain", "map plain", "map_iter plain"):
    try:
      gs(ds.batch(b, drop_remainder=drop, batch_fn=list) if what == "plain" else ds.map(lambda x: x))
      ctx.check(False, "a spec is made up for a function without one")
    except (NotImplementedError, ValueError):
      pass
    return
  if what == "random":

    class R(M.transforms.RandomMap):

      def random_map(self, x, rng):
        return x

      def output_spec(self, s):
        calls.append(s)
        return {"r": s}

    got = gs(ds.random_map(R(), seed=1))
    _same_spec(ctx, got, {"r": Leaf((d,), "int32")}, "spec of a random map")
  else:

    class I(M.transforms.MapWithIndex):

      def map_with_index(self, i, x):
        return x

      def output_spec(self, s):
        calls.append(s)
        return {"i": s}

    got = gs(ds.map_with_index(I()))
    _same_spec(ctx, got, {"i": Leaf((d,), "int32")}, "spec of a map with index")
  ctx.check(len(calls) == 1, "output_spec is called once")


# ------------------------------------------------------------------ P39


class SymJson:
  """json that carries symbolic leaves through the text by reference."""

  def __init__(self):
    self._vals = []

  def _enc(self, x):
    if is_sym(x):
      self._vals.append(x)
      return {"@symbolic": len(self._vals) - 1}
    raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")

  def dumps(self, x, **kw):
    return _json.dumps(x, default=self._enc, **kw)

  def loads(self, s, **kw):
    return _json.loads(s, object_hook=lambda d: self._vals[d["@symbolic"]] if set(d) == {"@symbolic"} else d, **kw)

  def __getattr__(self, k):
    return getattr(_json, k)


CK = "grain._src.python.checkpoint."


@contextlib.contextmanager
def _directory(ctx):
  """A scratch checkpoint directory; JSON texts may hold symbolic numbers."""
  from etils import epath

  tmp = tempfile.mkdtemp(prefix="verif-ckpt-")
  undo = []
  try:
    if ctx.symbolic:
      sj = SymJson()
      for name, m in list(sys.modules.items()):
        if name.startswith("grain._src.python") and m is not None and m.__dict__.get("json") is _json:
          undo.append(m)
          m.json = sj
    yield epath.Path(tmp)
  finally:
    for m in undo:
      m.json = _json
    shutil.rmtree(tmp, ignore_errors=True)


@contextlib.contextmanager
def _process(index, count):
  import jax

  old = jax.process_index, jax.process_count
  jax.process_index, jax.process_count = lambda *a, **k: index, lambda *a, **k: count
  try:
    yield
  finally:
    jax.process_index, jax.process_count = old


class _Awaited:
  """Orbax's path in the process of being created."""

  def __init__(self, path):
    self._path, self.created = path, False

  async def await_creation(self):
    self.created = True
    return self._path


def _handler():
  return importlib.import_module(CK + "handler").CheckpointHandler()


class _Args:

  def __init__(self, item):
    self.item = item


def _save(way, d, it):
  """Returns a function that completes the saving."""
  if way == "handler":
    _handler().save(d, it)
  elif way == "args":
    _handler().save(d, args=_Args(it))
  else:
    coro = asyncio.run(it.save(_Awaited(d)))
    return lambda: asyncio.run(_await(coro))
  return lambda: None


async def _await(c):
  return await c


def _restore(way, d, it):
  if way == "handler":
    return _handler().restore(d, it)
  if way == "args":
    return _handler().restore(d, args=_Args(it))

  async def go():
    await (await it.load(d))

  asyncio.run(go())
  return it


WAYS = ["handler", "args", "background"]


def _reader(kind):
  if kind == "stream":
    return iter(raw_map(BIG).to_iter_dataset(read0()))
  if kind == "batches":
    return iter(raw_map(BIG).to_iter_dataset(read0()).map(lambda x: x + 7).batch(2, batch_fn=list))
  it = iter(dl_mod().DataLoader(data_source=Echo(), sampler=_Endless(), operations=(), worker_count=0, shard_options=shard(0, 1), read_options=read0()))
  return it


class _Endless:

  def __len__(self):
    return BIG

  def __getitem__(self, i):
    return mods().record.RecordMetadata(index=i, record_key=i)

  def __repr__(self):
    return "Endless"


def _move(it, kind, p):
  if kind == "loader":
    st = it.get_state()
    t = mods_json().loads(st.decode())
    t["last_seen_indices"]["0"] = p - 1
    it.set_state(mods_json().dumps(t).encode())
  else:
    mods().dataset.set_next_index(it, p)


def mods_json():
  return dl_mod().json


def _expect(kind, p, k):
  if kind == "batches":
    return [[2 * (p + q) + 7, 2 * (p + q) + 8] for q in range(k)]
  return [p + q for q in range(k)]


@harness("P39", "processes", "1, 2, 3 or 11 processes, each at its own symbolic position 0..2^30 of a stream, batched stream or data loader, saved through the handler (item or args) or in the background (read on 0..1 elements before the background part runs) and restored by a handler or in the background, also over an earlier checkpoint in the same directory: "
         "every process resumes at its own position of the time of saving",
         quick_s=120, thorough_s=400, stubs=("JSON texts refer to symbolic numbers by index", "process index and count are set", "checkpoint files are real files in a scratch directory"))
def p39_processes(ctx):
  count = ctx.choice("processes", [1, 2, 3, 11])
  kind = ctx.choice("kind", ["stream", "batches", "loader"])
  way, back = ctx.choice("save", WAYS), ctx.choice("restore", WAYS)
  early = ctx.cbool("over an earlier one")
  more = ctx.cint("read on", 0, 1)
  pos = [ctx.int(f"p{q}", 0, 2**30) for q in range(min(count, 3))]
  pos += [100 + q for q in range(count - len(pos))]
  with _directory(ctx) as d:
    if early:
      for k in range(count):
        with _process(k, count):
          it = _reader(kind)
          take(it, 1 + k % 2)
          _save("handler", d, it)()
    todo = []
    for k in range(count):
      with _process(k, count):
        it = _reader(kind)
        _move(it, kind, pos[k])
        todo.append(_save(way, d, it))
        ctx.eq(norm(take(it, more)), _expect(kind, pos[k], more), "saving moved the reader")
    for k in reversed(range(count)):
      with _process(k, count):
        todo[k]()
    for k in range(count):
      with _process(k, count):
        it = _reader(kind)
        take(it, more)
        r = _restore(back, d, it)
        ctx.check(r is it, "restoring returns another iterator")
        ctx.eq(norm(take(it, 2)), _expect(kind, pos[k], 2), "a process resumes elsewhere")


@harness("P39", "missing", "1..3 processes save, 1..3 restore (any other number, or an empty directory), stream or loader at a symbolic position, through the handler or in the background: refused, the reader stays where it is",
         quick_s=60, stubs=("as processes",))
def p39_missing(ctx):
  saved = ctx.cint("saved", 0, 3)
  count = ctx.cint("restoring", 1, 3)
  ctx.assume(saved != count)
  kind = ctx.choice("kind", ["stream", "loader"])
  way = ctx.choice("restore", WAYS)
  p = ctx.int("p", 0, 2**30)
  with _directory(ctx) as d:
    for k in range(saved):
      with _process(k, saved):
        it = _reader(kind)
        take(it, 2)
        _save("handler", d, it)()
    for k in range(count):
      with _process(k, count):
        it = _reader(kind)
        _move(it, kind, p)
        try:
          _restore(way, d, it)
          ctx.check(False, "a checkpoint of another number of processes is accepted")
        except ValueError:
          pass
        ctx.eq(norm(take(it, 2)), _expect(kind, p, 2), "a refused restore moved the reader")


@harness("P39", "elastic", "elastic streams of 1..3 shards of 0..2 elements, 1..2 hosts each at its own position saved through the handler, restored through it by 1..2 hosts (same or another number): every element exactly once, each shard in order",
         quick_s=120, thorough_s=300, stubs=("threading is a model (deterministic schedule)", "as processes"))
def p39_elastic(ctx):
  M = mods()
  n = ctx.cint("shards", 1, 3)
  lens = [ctx.cint(f"len{q}", 0, 2) for q in range(n)]
  counts = [ctx.cint("saving", 1, min(n, 2)), ctx.cint("restoring", 1, min(n, 2))]
  got = []
  with _directory(ctx) as d, sched.installed(ctx, preempt=0, free=False, max_points=200000):
    for gen, c in enumerate(counts):
      hosts = []
      for k in range(c):
        ds = M.interleave.InterleaveIterDataset([list_iter([(s, q) for q in range(lens[s])]).map(_boxed) for s in range(n)], cycle_length=2, num_make_iter_threads=0, make_iter_buffer_size=0)
        it = M.elastic.ElasticIterator(ds, c, _shards(k, c), read_options=read0())
        hosts.append(it)
        if gen:
          with _process(k, c):
            _restore("handler", d, it)
      for k, it in enumerate(hosts):
        for _ in range(50 if gen else ctx.cint(f"steps{k}", 0, 2)):
          try:
            got += [tuple(x) for x in norm(next(it))]
          except StopIteration:
            break
      if not gen:
        for k, it in enumerate(hosts):
          with _process(k, c):
            _save("handler", d, it)()
      for it in hosts:
        it.close()
  ctx.check(sorted(got) == [(s, q) for s in range(n) for q in range(lens[s])], f"elements lost or repeated: {got}")
  for s in range(n):
    ctx.check([x for x in got if x[0] == s] == [(s, q) for q in range(lens[s])], "a shard's elements are out of order")


@harness("P39", "elastic_map", "elastic random-access pipelines of 0..8 elements, 1..2 processes that all read 0..2 global batches of 2, through the handler: the same number of processes resumes behind the elements read", quick_s=60, stubs=("as processes",))
def p39_elastic_map(ctx):
  M = mods()
  n = ctx.cint("n", 0, 8)
  c = ctx.cint("processes", 1, 2)
  k0 = ctx.cint("steps", 0, 2)
  ctx.assume(k0 * 2 <= n)
  mk = lambda k: M.elastic.ElasticIterator(src_map(n).map(_boxed), 2, _shards(k, c), read_options=read0())
  full = n // 2
  with _directory(ctx) as d:
    for k in range(c):
      with _process(k, c):
        it = mk(k)
        take(it, k0)
        _save(ctx.choice("way", ["handler", "background"]), d, it)()
    outs = []
    for k in range(c):
      with _process(k, c):
        it = mk(k)
        _restore("handler", d, it)
        outs.append(norm(take(it, full - k0)))
    for q in range(full - k0):
      ctx.check(sorted(x for o in outs for x in o[q]) == [2 * (k0 + q), 2 * (k0 + q) + 1], "a global batch differs after restoring")


# ------------------------------------------------------------------ P40


def _ds_mod():
  return importlib.import_module("grain._src.python.data_sources")


@harness("P40", "range", "range source of any start and stop in -2^40..2^40 and any step -1000..1000, any key in -2^41..2^41: length and elements are those of Python's range, other keys raise IndexError, step 0 and negative lengths are refused",
         quick_s=60)
def p40_range(ctx):
  a, b = ctx.int("start", -BIG, BIG), ctx.int("stop", -BIG, BIG)
  if ctx.cbool("any step"):
    s = ctx.int("step", -1000, 1000)
  else:
    s = ctx.choice("step", [-3, -1, 1, 2, 7])
  R = _ds_mod().RangeDataSource
  try:
    r = R(a, b, s)
  except AssertionError:
    ctx.check(disj([conj([s == 0]), conj([s > 0, b < a]), conj([s < 0, b > a])]), "a valid range is refused")
    return
  ctx.check(neg(s == 0), "a step of zero is accepted")
  n = r.__len__()
  # Python: number of q >= 0 with a + q*s before b.
  ctx.check(n >= 0, "negative length")
  if s > 0:
    ctx.check(conj([disj([n == 0, a + (n - 1) * s < b]), a + n * s >= b]), "length differs from range")
  else:
    ctx.check(conj([disj([n == 0, a + (n - 1) * s > b]), a + n * s <= b]), "length differs from range")
  k = ctx.int("key", -2 * BIG, 2 * BIG)

  class Key:

    def __index__(self):
      return k

  try:
    x = r[Key()]
  except IndexError:
    ctx.check(disj([k < 0, k >= n]), "an index inside the range raises")
    return
  ctx.check(conj([k >= 0, k < n]), "an index outside the range is accepted")
  ctx.eq(x, a + k * s, "element differs from range")


@harness("P40", "pipeline", "range sources of start -20..20, length 0..4, step -3..3 read through a dataset and through the data loader (0..2 workers, shards): the elements of Python's range", quick_s=80, stubs=(S_WORK,))
def p40_pipeline(ctx):
  M, g = mods(), grain()
  a = ctx.cint("start", -20, -19) if ctx.cbool("negative") else ctx.cint("start", 0, 1)
  s = ctx.choice("step", [-3, -1, 1, 2])
  n = ctx.cint("n", 0, 4)
  cut = ctx.cint("cut", 0, abs(s) - 1) if n else 0
  want = list(range(a, a + n * s - (cut if s > 0 else -cut), s))
  src = _ds_mod().RangeDataSource(a, a + n * s - (cut if s > 0 else -cut), s)
  ctx.eq(len(src), len(want), "length differs")
  if n:
    ctx.eq(norm(drain(iter(g.MapDataset.source(src).to_iter_dataset(read0())))), want, "elements differ")
    ctx.eq([g.MapDataset.source(src)[q] for q in range(-n, 2 * n)], [want[q % n] for q in range(-n, 2 * n)], "elements differ")
    W = ctx.cint("workers", 0, 2)
    with workers(ctx):
      dl = g.load(src, worker_count=W, num_epochs=1, read_options=read0())
      W1 = max(W, 1)
      ctx.eq(norm(drain(iter(dl))), round_robin([want[w::W1] for w in range(W1)]), "elements of the loader differ")


@harness("P40", "source_bounds", "sources of length 0..2^40 symbolic behind MapDataset.source: any index -2^42..2^42 reaches the source as index modulo its length; len is the source's", quick_s=40)
def p40_source(ctx):
  g = grain()
  n = ctx.int("n", 1, BIG)
  asked = []

  class S:

    def __len__(self):
      return n

    def __getitem__(self, i):
      asked.append(i)
      return ("x", i)

  ds = g.MapDataset.source(S())
  ctx.eq(ds.__len__(), n, "length differs")
  i = ctx.int("i", -4 * BIG, 4 * BIG)
  x = ds[i]
  ctx.check(len(asked) == 1, "one read per element")
  j = asked[0]
  ctx.check(conj([j >= 0, j < n]), "the source is asked outside its length")
  ctx.check((i - j) % n == 0, "another element is read")
  ctx.eq(x[1], j, "another element is returned")


@harness("P40", "shared_list", "shared memory list source of 0..3 elements (None, booleans, integers, floats, text, bytes): a source opened by name holds the same elements, also in a pipeline", quick_s=60,
         stubs=("real shared memory blocks, removed by the check",))
def p40_shared(ctx):
  g = grain()
  vals = [None, True, -5, 2**40, 1.5, "a\u00e9", b"xy\x01", ""]
  n = ctx.cint("n", 0, 3)
  xs = [ctx.choice(f"v{q}", vals) for q in range(n)]
  S = _ds_mod().SharedMemoryDataSource
  a = S(xs)
  try:
    b = S(name=a.shm.name)
    ctx.eq([len(a), len(b)], [n, n], "length differs")
    ctx.check([b[q] for q in range(n)] == xs and [type(b[q]) for q in range(n)] == [type(x) for x in xs], "elements differ")
    if n:
      ctx.check(norm([g.MapDataset.source(b)[q] for q in range(n)]) == xs, "elements differ in a pipeline")
    b.close()
  finally:
    a.close()
    a.unlink()


# ------------------------------------------------------------------ P24


@harness("P24", "load", "grain.load over 1..4 records: epochs 1..2, shuffled or not, shard 0..1 of 1..2 with or without the remainder, an operation or none, batches of 1..3 with or without the last, 0..2 workers: the elements of the sampler, sharded, transformed, batched; the given list of operations is not changed",
         quick_s=150, thorough_s=400, stubs=(S_WORK,))
def p24_load(ctx):
  g, M = grain(), mods()
  deep = ctx.tier == "thorough"
  n = ctx.cint("n", 1, 4) if deep else ctx.choice("n", [2, 3])
  epochs = ctx.cint("epochs", 1, 2)
  shuffle = ctx.cbool("shuffle")
  cnt = ctx.cint("shards", 1, 2)
  idx = ctx.cint("shard", 0, cnt - 1)
  ctx.assume(n >= cnt)
  drop = ctx.cbool("drop") if cnt > 1 else False
  b = ctx.choice("batch", [None, 1, 2, 3] if deep else [None, 2])
  bdrop = ctx.cbool("batch drop") if b else False
  ops = ctx.choice("ops", [[], ["map"], ["filter"]])
  W = ctx.cint("workers", 0, 2)
  given = [make_op(k) for k in ops]
  keep = list(given)
  if not deep:
    ctx.assume(not (W == 1 or (W and ops == ["map"]) or (shuffle and ops == ["filter"])))
  so = shard(idx, cnt, drop)
  # Batches without numpy: records are boxed.
  seed = 3
  sampler = M.samplers.IndexSampler(num_records=n, shuffle=shuffle, seed=seed, num_epochs=epochs, shard_options=so)
  loc = local_indices(len(sampler), idx, cnt, drop)
  keys = [sampler[q].record_key for q in loc]
  W1 = max(W, 1)
  streams = []
  for w in range(W1):
    r = keys[w::W1]
    if ops == ["map"]:
      r = [("m", x) for x in r]
    elif ops == ["filter"]:
      r = [x for x in r if keeps(x)]
    if b:
      r = [r[q:q + b] for q in range(0, len(r), b)]
      if bdrop:
        r = [x for x in r if len(x) == b]
    streams.append(norm(r))
  with workers(ctx):
    if b and ops == ["map"]:
      given = keep = [_Boxes()]
      streams = [[norm([("m", y) for _, y in x]) for x in st] for st in streams]
    dl = g.load(Echo(n), num_epochs=epochs, shuffle=shuffle, seed=seed, shard_options=so, transformations=given, batch_size=b, drop_remainder=bdrop, worker_count=W, read_options=read0())
    ctx.check(given == keep and len(given) == len(ops), "the list of transformations was changed")
    ctx.eq(norm(drain(iter(dl))), norm(round_robin(streams)), "elements differ from the sampled ones")


def _Boxes():
  M = mods()

  class Op(M.transforms.Map):

    def map(self, x):
      return _boxed(("m", x))

  return Op()
