"""Datasets as values (P43), transformation objects (P44), errors (P45)."""

from harness.common import *  # noqa
from harness.h_close import STAGES
from harness.h_loader import Echo, make_op, ref_op, shard
from harness.h_map import S_SHUF
from harness.h_rand import S_RNG, draw, rng_model
from harness.h_thread import S_SCHED
from harness.h_workers import S_WORK, round_robin, workers
from symx import sched
from symx.registry import harness

KINDS = [s for s in STAGES if s not in ("threads0", "mp0", "options")]


def _it(ds):
  """An iterator without reading threads."""
  return (ds.to_iter_dataset(read0()) if isinstance(ds, mods().dataset.MapDataset) else ds).__iter__()


def _split2():
  M = mods()

  class F(M.transforms.FlatMap):
    max_fan_out = 2

    def flat_map(self, x):
      return [("s", x, 0), ("s", x, 1)]

  return F()


def _code(x):
  """A number for an element of any shape (packing and rebatching)."""
  if isinstance(x, dict):
    return sum((q + 1) * _code(v) for q, v in enumerate(x.values()))
  if isinstance(x, (list, tuple)):
    return sum((3 * q + 1) * _code(v) for q, v in enumerate(x))
  if isinstance(x, str):
    return len(x)
  if hasattr(x, "tolist"):
    return _code(x.tolist())
  return 0 if x is None else int(x)


def stage(op, ds, fn=lambda x: x):
  """One stage whose elements tell where they come from; fn sees user calls."""
  import numpy as np
  g, M = grain(), mods()
  e = g.experimental

  def feat(x):
    c = _code(fn(x))
    return {"f": np.array([c] * (1 + c % 2), dtype=np.int32)}

  if op == "map":
    return ds.map(lambda x: ("m", fn(x)))
  if op == "random_map":
    return ds.seed(1).random_map(lambda x, r: ("r", fn(x), draw(r, "d64")))
  if op == "with_index":
    return ds.map_with_index(lambda i, x: (i, fn(x)))
  if op == "filter":
    return ds.filter(lambda x: _code(fn(x)) % 3 != 1)
  if op == "batch":
    return ds.batch(2, batch_fn=lambda xs: [fn(x) for x in xs])
  if op == "rebatch":
    return M.rebatch.RebatchIterDataset(ds.map(lambda x: np.full((3, 1), _code(fn(x)), np.int32)), 2)
  if op == "limit":
    return M.limit.LimitIterDataset(ds, 2)
  if op == "cache":
    return M.repeat.RepeatIterDataset(M.cache.CacheIterDataset(ds), 2)
  if op == "repeat":
    return M.repeat.RepeatIterDataset(ds, 2)
  if op == "zip":
    return M.zip.ZipIterDataset([ds, ds])
  if op == "mix":
    return g.IterDataset.mix([ds, ds.map(lambda x: ("b", fn(x)))], [1, 2])
  if op == "interleave":
    return M.interleave.InterleaveIterDataset([ds, ds.map(lambda x: ("b", fn(x))), ds], cycle_length=2, num_make_iter_threads=0, make_iter_buffer_size=0, iter_buffer_size=0)
  if op == "flat_map":
    def pieces():

      class F(M.transforms.FlatMap):
        max_fan_out = 2

        def flat_map(self, x):
          return [("s", fn(x), 0), ("s", x, 1)]

      return F()

    return M.flatmap.FlatMapIterDataset(ds, pieces())
  if op == "window":
    return e.WindowShuffleIterDataset(ds, window_size=2, seed=1)
  if op in ("first_fit", "best_fit"):
    C = e.FirstFitPackIterDataset if op == "first_fit" else M.packing.BestFitPackIterDataset
    return C(ds.map(feat), length_struct={"f": 3}, num_packing_bins=2)
  if op == "concat_split":
    return e.ConcatThenSplitIterDataset(ds.map(feat), length_struct={"f": 3})
  if op == "threads":
    return e.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=1)
  raise AssertionError(op)


# ------------------------------------------------------------------ P43


@harness("P43", "iterators", "one dataset of up to 2 (thorough 3) of 18 stages over 0..5 elements, read by two iterators: 3 (thorough 4) operations out of read (1 or 2), hand the state of one over to the other (the same object to both), close and open again, and derive and read another dataset; then both to the end: each delivers what a lone iterator at its position would",
         quick_s=240, thorough_s=900, stubs=(S_SCHED, S_RNG))
def p43_iterators(ctx):
  g = grain()
  deep = ctx.tier == "thorough"
  depth = ctx.cint("stages", 0, 3 if deep else 2)
  ops = [ctx.choice(f"op{q}", KINDS) for q in range(depth)]
  if not deep and depth == 2:
    ctx.assume((KINDS.index(ops[1]) - KINDS.index(ops[0])) % len(KINDS) in (1, 9))
  n = ctx.cint("n", 0, 5) if deep or not depth else (ctx.choice("n", [3, 4]) if depth == 1 else 4)
  buf = ctx.choice("read", [0, 2]) if deep or not depth else 0

  def build():
    ds = src_map(n).to_iter_dataset(g.ReadOptions(num_threads=buf, prefetch_buffer_size=buf))
    for op in ops:
      ds = stage(op, ds)
    return ds

  with rng_model(ctx), sched.installed(ctx, preempt=0, free=False, max_points=400000) as s:
    lone = iter(build())
    ref = norm(drain(lone))
    lone.close()
    ds = build()
    its, pos = [iter(ds), iter(ds)], [0, 0]

    def read(a, k):
      for _ in range(k):
        got = norm(take(its[a], 1))
        ctx.eq(got, ref[pos[a]:pos[a] + 1], "an element differs from what a lone iterator delivers")
        pos[a] = min(pos[a] + 1, len(ref))

    for q in range(4 if deep else 3):
      a = ctx.cint(f"it{q}", 0, 1) if q else 0
      do = ctx.choice(f"do{q}", ["read", "hand over", "reopen", "derive"]) if q else "read"
      if do == "read":
        read(a, ctx.cint(f"k{q}", 1, 2) if deep or not q else 1)
      elif do == "hand over":
        st = its[a].get_state()
        its[1 - a].set_state(st)
        if not deep or ctx.cbool(f"both{q}"):
          its[a].set_state(st)
        pos[1 - a] = pos[a]
      elif do == "reopen":
        its[a].close()
        its[a], pos[a] = iter(ds), 0
      else:
        other = iter(stage("repeat", stage("map", ds)))
        take(other, 2)
        other.close()
    for a in (1, 0) if deep and ctx.cbool("second_first") else (0, 1):
      ctx.eq(norm(drain(its[a])), ref[pos[a]:], "the rest of a stream differs from what a lone iterator delivers")
    for it in its:
      it.close()
    ctx.check(not s.uncaught, f"a thread died: {s.uncaught}")
  if len(ref) > 1:
    ctx.reach("two readers")


_DERIVE = ["map", "shuffle", "slice", "repeat", "batch", "filter", "random_map", "seed", "mix", "zip", "concat", "window", "with_index", "flat", "stream"]


def derive(op, ds):
  g, M = grain(), mods()
  if op == "map":
    return ds.map(lambda x: ("m", x))
  if op == "shuffle":
    return ds.shuffle(seed=3)
  if op == "slice":
    return ds[1:]
  if op == "repeat":
    return ds.repeat(2)
  if op == "batch":
    return ds.batch(2, batch_fn=tuple)
  if op == "filter":
    return ds.filter(lambda x: _code(x) % 2 == 0)
  if op == "random_map":
    return ds.random_map(lambda x, r: ("r", x, draw(r, "d64")), seed=None if ds._default_seed is not None else 2)
  if op == "seed":
    return ds.seed(5)
  if op == "mix":
    return g.MapDataset.mix([ds, ds.map(lambda x: ("b", x))], [1, 2])
  if op == "zip":
    return M.zip.ZipMapDataset([ds, ds])
  if op == "concat":
    return g.MapDataset.concatenate([ds, ds])
  if op == "window":
    return M.shuffle.WindowShuffleMapDataset(ds, window_size=2, seed=3)
  if op == "with_index":
    return ds.map_with_index(lambda i, x: (i, x))
  if op == "flat":
    return M.flatmap.FlatMapMapDataset(ds, _split2())
  return ds.to_iter_dataset(read0())


@harness("P43", "derived", "a random-access dataset of 4 elements under one (thorough two) of 14 transformations; one of 15 transformations derived from it, read or not, and a second one: the dataset, and the second derived one, read at an index up to 2^20 epochs out (symbolic; with random or several index-changing transformations one of 2 epochs), have the length, elements, batched reads and default seed they have without the first",
         quick_s=200, thorough_s=600, stubs=(S_SHUF, S_RNG), conc_limit=24)
def p43_derived(ctx):
  deep = ctx.tier == "thorough"
  base = [ctx.choice(f"base{q}", _DERIVE[:-1]) for q in range(2 if deep else 1)]
  first = ctx.choice("first", _DERIVE)
  second = ctx.choice("second", ["map", "random_map", "shuffle", "stream", "seed"])
  use = ctx.choice("use", ["read", "batched", "iterate"])
  if not deep:
    ctx.assume((_DERIVE.index(first) + _DERIVE.index(base[0])) % 3 == ["read", "batched", "iterate"].index(use))

  def build():
    ds = src_map(4)
    for op in base:
      ds = derive(op, ds)
    return ds

  # Batches of sparse random-access data are refused.
  chain = base + [first]
  ctx.assume(not ("batch" in chain and {"filter", "flat"} & set(chain[:len(chain) - 1 - chain[::-1].index("batch")])))

  def look(ds, i):
    if not hasattr(ds, "__len__"):
      it = ds.__iter__()
      out = norm(take(it, 6))
      return [out, ds._default_seed]
    L = len(ds)
    return [L, norm(ds[i]), norm(list(ds._getitems([i, i + 1]))), ds._default_seed]

  with rng_model(ctx):
    a, b = build(), build()
    # Shuffles or divisions of each other at a symbolic epoch are out of the solver's reach.
    names = {*base, first, second}
    plain = not {"shuffle", "window", "random_map", "mix"} & names and len({"repeat", "slice", "batch", "concat", "flat"} & names) < 2
    i = (ctx.int("e", 0, 2**20) if plain else ctx.choice("e", [0, 3])) * len(a) + ctx.cint("j", 0, 1)
    d = derive(first, b)
    if first == "stream" or use == "iterate":
      take(_it(d), 3)
    elif use == "read":
      d[i]
    else:
      d._getitems([0, i])
    ctx.eq(look(b, i), look(a, i), "a dataset changed when another was derived from it")
    ctx.eq(look(derive(second, b), i), look(derive(second, build()), i), "a derived dataset depends on another derived from the same one")
  ctx.reach("two datasets")


# ------------------------------------------------------------------ P44

_OBJ = ["map", "random_map", "with_index", "filter", "flat", "batch", "batch_drop"]


def _call(op):
  """The user function of one kind."""
  return {
      "map": lambda x: ("m", x),
      "random_map": lambda x, r: ("r", x, draw(r, "d64")),
      "with_index": lambda i, x: ("i", i, x),
      "filter": lambda x: _leaf(x) % 3 != 1,
      "flat": lambda x: [("p", x, q) for q in range(int(_leaf(x) % 3))],
  }[op]


def _leaf(x):
  while isinstance(x, (tuple, list)):
    x = (x[1] if len(x) > 1 else x[0]) if isinstance(x, list) or x[0] != "i" else x[2]
  return x


def obj(op, fn=None):
  """The transformation object."""
  T = mods().transforms
  f = fn or (None if op.startswith("batch") else _call(op))
  if op == "map":

    class O(T.Map):

      def map(self, x):
        return f(x)
  elif op == "random_map":

    class O(T.RandomMap):

      def random_map(self, x, r):
        return f(x, r)
  elif op == "with_index":

    class O(T.MapWithIndex):

      def map_with_index(self, i, x):
        return f(i, x)
  elif op == "filter":

    class O(T.Filter):

      def filter(self, x):
        return f(x)
  elif op == "flat":

    class O(T.FlatMap):
      max_fan_out = 3

      def flat_map(self, x):
        return f(x)
  else:
    return T.Batch(2, drop_remainder=op == "batch_drop", batch_fn=list)
  return O()


def method(op, ds):
  """The same with the dataset's methods and plain functions."""
  M = mods()
  if op == "map":
    return ds.map(_call(op))
  if op == "random_map":
    return ds.random_map(_call(op))
  if op == "with_index":
    return ds.map_with_index(_call(op))
  if op == "filter":
    return ds.filter(_call(op))
  if op == "flat":
    C = M.flatmap.FlatMapMapDataset if isinstance(ds, M.dataset.MapDataset) else M.flatmap.FlatMapIterDataset
    return C(ds, obj("flat"))
  return ds.batch(2, drop_remainder=op == "batch_drop", batch_fn=list)


def _reference(ops, xs, seed_of):
  """Element-wise meaning on a plain list (streams, no missing elements)."""
  for q, op in enumerate(ops):
    if op == "map":
      xs = [("m", x) for x in xs]
    elif op == "with_index":
      xs = [("i", i, x) for i, x in enumerate(xs)]
    elif op == "filter":
      xs = [x for x in xs if bool(_leaf(x) % 3 != 1)]
    elif op == "flat":
      xs = [("p", x, j) for x in xs for j in range(int(_leaf(x) % 3))]
    elif op == "batch":
      xs = [xs[j:j + 2] for j in range(0, len(xs), 2)]
    elif op == "batch_drop":
      xs = [xs[j:j + 2] for j in range(0, len(xs) - 1, 2)]
    else:
      raise AssertionError(op)
  return xs


@harness("P44", "apply", "lists of 0..2 (thorough 3) transformations out of 7, given to apply together, one by one or alone without a list, on random-access data and on streams of 0..4 symbolic elements: the same elements, missing ones included, and the same randomness as the methods with plain functions",
         quick_s=200, thorough_s=600, stubs=(S_RNG,))
def p44_apply(ctx):
  deep = ctx.tier == "thorough"
  M = mods()
  k = ctx.cint("how_many", 0, 3 if deep else 2)
  ops = [ctx.choice(f"op{q}", _OBJ) for q in range(k)]
  side = ctx.choice("side", ["map", "iter"])
  n = ctx.cint("n", 0, 4) if k < 2 else ctx.choice("n", [1, 4])
  how = ctx.choice("how", ["list", "tuple", "one by one", "alone", "function"])
  ctx.assume(not (how == "alone" and k != 1))
  if k > 1 and not deep:
    ctx.assume(how in ("list", "one by one"))
  vals = [ctx.int(f"x{q}", 0, 5) for q in range(n)]

  def base():
    ds = src_map(n, vals).seed(4)
    return ds if side == "map" else ds.to_iter_dataset(read0())

  with rng_model(ctx):
    want = base()
    for op in ops:
      # Batches of filtered random-access data are refused either way.
      ctx.assume(not (side == "map" and op.startswith("batch") and {"filter", "flat"} & set(ops[:ops.index(op)])))
      want = method(op, want)
    ts = [obj(op) for op in ops]
    if how == "list":
      got = base().apply(ts)
    elif how == "tuple":
      got = base().apply(tuple(ts))
    elif how == "alone":
      got = base().apply(ts[0])
    elif how == "function":
      got = M.dataset.apply_transformations(base(), ts)
    else:
      got = base()
      for t in ts:
        got = got.apply(t)
    ctx.check(isinstance(got, M.dataset.MapDataset if side == "map" else M.dataset.IterDataset), "the kind of dataset changed")
    if side == "map":
      ctx.check(len(got) == len(want), "length")
      L = len(got)
      two = list(range(L)) + ([L, L + 1] if L else [])
      ctx.eq(norm([got[i] for i in two]), norm([want[i] for i in two]), "apply differs from the methods")
    g, w = norm(drain(_it(got))), norm(drain(_it(want)))
    ctx.eq(g, w, "apply differs from the methods")
    if "random_map" not in ops and side == "iter":
      ctx.eq(g, norm(_reference(ops, list(vals), None)), "apply differs from the meaning of the transformations")
  if k == 2 and n:
    ctx.reach("two transformations")


@harness("P44", "object_or_function", "each method given a transformation object or its plain function, on random-access data and streams of 0..4 symbolic elements: the same elements", quick_s=60, stubs=(S_RNG,))
def p44_objects(ctx):
  op = ctx.choice("op", ["map", "random_map", "with_index", "filter"])
  side = ctx.choice("side", ["map", "iter"])
  n = ctx.cint("n", 0, 4)
  vals = [ctx.int(f"x{q}", 0, 5) for q in range(n)]

  def base():
    ds = src_map(n, vals).seed(4)
    return ds if side == "map" else ds.to_iter_dataset(read0())

  with rng_model(ctx):
    name = {"with_index": "map_with_index"}.get(op, op)
    a = drain(_it(getattr(base(), name)(obj(op))))
    ctx.eq(norm(a), norm(drain(_it(method(op, base())))), "an object differs from its function")
    p = drain(_it(base().pipe(lambda ds, t: getattr(ds, name)(t), obj(op))))
    ctx.eq(norm(p), norm(a), "pipe differs from the call")


@harness("P44", "commutes", "up to 2 (thorough 3) element-wise transformations (map, filter, flat map, index before any of the latter two, a leading batch) before or after the conversion of 0..4 symbolic elements to a stream: the same stream", quick_s=120, thorough_s=400, must_reach=("split",))
def p44_commutes(ctx):
  k = ctx.cint("how_many", 1, 3 if ctx.tier == "thorough" else 2)
  ops = [ctx.choice(f"op{q}", ["map", "filter", "flat", "with_index", "batch", "batch_drop"]) for q in range(k)]
  dense = True
  for op in ops:
    # Positions and batches of random-access data count the missing elements.
    ctx.assume(dense or op in ("map", "filter", "flat"))
    dense = dense and op not in ("filter", "flat")
  n = ctx.cint("n", 0, 4)
  cut = ctx.cint("cut", 0, k)
  vals = [ctx.int(f"x{q}", 0, 5) for q in range(n)]
  ds = src_map(n, vals).apply([obj(o) for o in ops[:cut]]).to_iter_dataset(read0()).apply([obj(o) for o in ops[cut:]])
  ctx.eq(norm(drain(ds.__iter__())), norm(_reference(ops, list(vals), None)), "the stream depends on where it was converted")
  if 0 < cut < k and n:
    ctx.reach("split")


@harness("P44", "refused", "objects that are no transformation, alone or anywhere in a list of 1..3: refused with an error instead of being skipped", quick_s=20)
def p44_refused(ctx):
  M = mods()
  k = ctx.cint("how_many", 1, 3)
  at = ctx.cint("at", 0, k - 1)
  bad = ctx.choice("bad", ["function", "number", "none", "dataset"])
  ds = src_map(3) if ctx.cbool("map") else src_iter(3)
  x = {"function": lambda x: x, "number": 3, "none": None, "dataset": src_map(2)}[bad]
  ts = [x if q == at else obj("map") for q in range(k)]
  try:
    ds.apply(ts)
    ok = True
  except Exception:  # pylint: disable=broad-except
    ok = False
  ctx.check(not ok, "something that is no transformation is skipped silently")


# ------------------------------------------------------------------ P45


class Boom(Exception):
  pass


class Events:
  """Counts reads and user calls and fails at one of them."""

  def __init__(self, fail=None, err=Boom):
    self.n, self.fail, self.err, self.raised = 0, fail, err, None

  def __call__(self, x):
    q = self.n
    self.n += 1
    if self.fail is not None and q == self.fail:
      self.raised = self.err(f"event {q}")
      raise self.raised
    return x


class FailSrc:

  def __init__(self, n, ev):
    self.n, self.ev = n, ev

  def __len__(self):
    return self.n

  def __getitem__(self, i):
    return self.ev(i)

  def __repr__(self):
    return "FailSrc"


_SEQ = [k for k in KINDS if k != "threads"]


@harness("P45", "position", "streams of 1..4 elements under up to 2 (thorough 3) of 17 stages, read without buffers; the read or the user call number f fails (f up to 12) with one of five exceptions: every element complete before that event is delivered unchanged, then that very exception arrives, never an end",
         quick_s=240, thorough_s=900, stubs=(S_RNG,), must_reach=("error",))
def p45_position(ctx):
  g = grain()
  deep = ctx.tier == "thorough"
  depth = ctx.cint("stages", 0, 3 if deep else 2)
  ops = [ctx.choice(f"op{q}", _SEQ) for q in range(depth)]
  n = ctx.cint("n", 1, 4) if depth < 2 else (ctx.choice("n", [2, 4]) if deep else 3)
  err = ctx.choice("err", [Boom, ValueError, IndexError, KeyError, RuntimeError]) if depth < 2 else Boom
  if not deep and depth == 2:
    ctx.assume((KINDS.index(ops[1]) + KINDS.index(ops[0])) % 3 != 1)

  def build(ev):
    ds = g.MapDataset.source(FailSrc(n, ev)).to_iter_dataset(read0())
    for op in ops:
      ds = stage(op, ds, ev)
    return ds

  def run(ev):
    out, it = [], build(ev).__iter__()
    while True:
      try:
        out.append((norm(next(it)), ev.n))
      except StopIteration:
        return out, None
      except Exception as e:  # pylint: disable=broad-except
        return out, e

  with rng_model(ctx):
    ev = Events()
    ref, none = run(ev)
    ctx.check(none is None, "an error without a failure")
    # Event f is behind exactly the elements that were complete before it.
    total = ev.n
    ctx.assume(total > 0)
    f = ctx.cint("f", 0, min(total, 13) - 1)
    ev = Events(f, err)
    got, e = run(ev)
    want = [x for x, c in ref if c <= f]
    ctx.check(e is not None, "the error was swallowed and the stream ended")
    ctx.check(e is ev.raised or (type(e) is err and e.args == ev.raised.args) or e.__cause__ is ev.raised, f"another error arrives: {e!r}")
    ctx.eq([x for x, _ in got], want, "elements before the failure")
  ctx.reach("error")


@harness("P45", "random_access", "14 transformations (thorough two of them) over 4 elements; the read number f fails: reading an index (symbolic, up to 2^20 epochs out) alone or with another in one batch raises that exception exactly when the read happens; the next reads are not affected",
         quick_s=120, thorough_s=500, stubs=(S_SHUF, S_RNG), conc_limit=24, must_reach=("error",))
def p45_access(ctx):
  g = grain()
  ops = [ctx.choice(f"op{q}", _DERIVE[:-1]) for q in range(2 if ctx.tier == "thorough" else 1)]
  ctx.assume(not (ops[-1] == "batch" and ops[0] in ("filter", "flat")))

  def build(ev):
    ds = g.MapDataset.source(FailSrc(4, ev))
    for op in ops:
      ds = derive(op, ds)
    return ds

  many = ctx.cbool("batched")
  with rng_model(ctx):
    ev = Events()
    ref = build(ev)
    i = ctx.int("e", 0, 2**20) * len(ref) + ctx.cint("j", 0, min(len(ref), 3) - 1)
    idx = [i, i + 1]
    look = (lambda ds: norm(list(ds._getitems(idx)))) if many else (lambda ds: norm(ds[i]))
    want = look(ref)
    ctx.assume(ev.n > 0)
    f = ctx.cint("f", 0, ev.n)
    ev2 = Events(f)
    ds = build(ev2)
    try:
      got, e = look(ds), None
    except Exception as x:  # pylint: disable=broad-except
      got, e = None, x
    if f < ev.n:
      ctx.check(e is not None, "the error was swallowed")
      ctx.check(e is ev2.raised or e.__cause__ is ev2.raised, f"another error arrives: {e!r}")
      ctx.reach("error")
      # The failure was passing: reading again gives the element.
      ctx.eq(look(ds), want, "a read after a failed one")
    else:
      ctx.check(e is None, f"an error without a failure: {e!r}")
      ctx.eq(got, want, "element")


@harness("P44", "load", "grain.load of a source of 0..5 elements: 1..2 epochs, shard 0..1 of 1..2 (uneven ones with the remainder dropped), 0..2 workers, up to 1 (thorough 2) operations, without workers also a batch size, dropping the remainder or not: the records of the shard's interval, in order, epoch after epoch, transformed and then batched",
         quick_s=100, thorough_s=300, stubs=(S_WORK,))
def p44_load(ctx):
  g = grain()
  n = ctx.cint("n", 0, 5)
  epochs = ctx.cint("epochs", 1, 2)
  cnt = ctx.cint("shards", 1, 2)
  idx = ctx.cint("shard", 0, cnt - 1)
  W = ctx.cint("workers", 0, 2)
  ops = [ctx.choice(f"op{q}", ["map", "filter", "flat", "batch"]) for q in range(ctx.cint("nops", 0, 2 if ctx.tier == "thorough" else 1))]
  b = ctx.choice("batch_size", [None, 1, 2])
  drop = ctx.cbool("drop") if b else False
  per = n // cnt
  ctx.assume(per > 0)
  # Ragged batches cannot be stacked; workers stack into shared memory (P29, P34).
  ctx.assume(not (b and ("batch" in ops or W)))
  with workers(ctx):
    ld = g.load(Echo(n), num_epochs=epochs, shuffle=False, seed=3, shard_options=shard(idx, cnt, True), transformations=[make_op(k) for k in ops],
                batch_size=b, drop_remainder=drop, worker_count=W, read_options=read0())
    got = norm(drain(iter(ld)))
  loc = list(range(idx * per, idx * per + per)) * epochs
  streams = []
  for w in range(max(W, 1)):
    recs = [(k, None) for k in loc[w::max(W, 1)]]
    for k in ops:
      recs = ref_op(k, recs)
    xs = [x for x, _ in recs]
    if b:
      # Numbers are stacked by the loader's own batching.
      xs = [xs[q:q + b] for q in range(0, len(xs), b) if q + b <= len(xs) or not drop]
    streams.append([_numbers(x) for x in xs] if b else xs)
  ctx.eq([_numbers(x) for x in got] if b else got, norm(round_robin(streams)), "load differs from the loader over an index sampler")
  if b and len(got) > 1:
    ctx.reach("batched")


def _numbers(x):
  """The numbers of a batch, whatever the structure stacking made of it."""
  if isinstance(x, dict):
    return sorted(y for v in x.values() for y in _numbers(v))
  if isinstance(x, (list, tuple)):
    return sorted(y for v in x for y in _numbers(v))
  return [] if isinstance(x, str) else [int(x)]
