"""Options (P30) and the performance configuration (P36)."""

from harness.common import *  # noqa
from symx.core import SFloat
from symx.registry import harness

FIELDS = ("filter_warn_threshold_ratio", "filter_raise_threshold_ratio", "execution_tracking_mode", "min_shm_size")


def _defaults():
  B = mods().base
  return {"filter_warn_threshold_ratio": 0.9, "filter_raise_threshold_ratio": None,
          "execution_tracking_mode": B.ExecutionTrackingMode.DISABLED, "min_shm_size": 0}


def _set(ctx, name, fields):
  """Which fields are set, and to what: unset, the default itself, None, or any value."""
  out = {}
  for f in fields:
    k = ctx.choice(f"{name}.{f}", ["unset", "value", "default", "none"])
    if k == "value":
      out[f] = ctx.token(f"{name}.{f}.v")
    elif k == "default":
      out[f] = _defaults()[f]
    elif k == "none":
      out[f] = None
  return out


def _prec(*levels):
  """Reference: the first level that sets a field decides."""
  out = dict(_defaults())
  for lv in reversed(levels):
    out.update(lv)
  return out


def _fields(o):
  return {f: getattr(o, f) for f in FIELDS}


def _same(ctx, o, want, msg):
  for f in FIELDS:
    a, b = getattr(o, f), want[f]
    if a is None or b is None:
      ctx.check(a is b, f"{msg}: {f}")
    else:
      ctx.eq(a, b, f"{msg}: {f}")


@harness("P30", "merge_two", "any two fields each unset, set to the default, to None or to a symbolic value in both options: every field of the merge, a further merge with defaults or a third explicit one, inputs untouched", quick_s=60)
def p30_two(ctx):
  D = mods().base.DatasetOptions
  i = ctx.cint("f1", 0, 2)
  j = ctx.cint("f2", 1, 3)
  ctx.assume(i < j)
  fs = (FIELDS[i], FIELDS[j])
  a, b = _set(ctx, "a", fs), _set(ctx, "b", fs)
  A, B = D(**a), D(**b)
  _same(ctx, A, _prec(a), "explicit values are not kept")
  m = A.merge(B)
  _same(ctx, m, _prec(a, b), "merge")
  _same(ctx, A, _prec(a), "merging modifies the outer options")
  _same(ctx, B, _prec(b), "merging modifies the inner options")
  _same(ctx, A.merge(None), _prec(a), "merge with nothing")
  # What was set explicitly stays explicit.
  _same(ctx, m.merge(D(**{f: "third" for f in fs})), _prec(a, b, {f: "third" for f in fs}), "a merged option forgets what was set")
  _same(ctx, D().merge(m), _prec(a, b), "defaults override a merged option")


@harness("P30", "merge_many", "chains of 2..4 options, one field, merged in every order of association", quick_s=60)
def p30_many(ctx):
  D = mods().base.DatasetOptions
  f = ctx.choice("field", list(FIELDS))
  k = ctx.cint("levels", 2, 4 if ctx.tier == "thorough" else 3)
  lv = [_set(ctx, f"l{q}", (f,)) for q in range(k)]
  os = [D(**x) for x in lv]
  while len(os) > 1:
    p = ctx.cint(f"join{len(os)}", 0, len(os) - 2)
    os[p:p + 2] = [os[p].merge(os[p + 1])]
  _same(ctx, os[0], _prec(*lv), "chain of merges")


@harness("P30", "pipeline", "0..2 options below and 0..2 above a filter, one or two branches joined by mix or zip, or three in two nested joins (the join first or second): the options that every stage of the pipeline sees", quick_s=80)
def p30_pipeline(ctx):
  M = mods()
  D = M.base.DatasetOptions
  W = M.dataset.WithOptionsIterDataset
  f = ctx.choice("field", ["filter_raise_threshold_ratio", "min_shm_size"])
  shape = ctx.choice("shape", ["chain", "mix", "zip", "nested", "repeat", "batch", "limit"])

  def level(name):
    k = ctx.choice(name, ["none", "unset", "value"])
    return None if k == "none" else {} if k == "unset" else {f: ctx.token(name + ".v")}

  def put(ds, lv):
    return ds if lv is None else W(ds, D(**lv))

  low = [level("low0"), level("low1") if shape != "nested" else None]
  high = [level("high0"), level("high1") if shape != "nested" else None]
  ds = src_iter(3)
  for lv in low:
    ds = put(ds, lv)
  order = [lv or {} for lv in reversed(low)]
  if shape == "mix":
    other = level("other")
    ds = M.mix.MixedIterDataset([ds, put(src_iter(3), other)], [1.0, 1.0])
    order = order + [other or {}]
  elif shape == "zip":
    other = level("other")
    ds = M.zip.ZipIterDataset([ds, put(src_iter(3), other)])
    order = order + [other or {}]
  elif shape == "nested":
    # A join of a branch and of another join, in both orders.
    other = level("other")
    inner = [src_iter(3), put(src_iter(3), other)]
    if ctx.cbool("join.mix"):
      join = M.mix.MixedIterDataset(inner, [1.0, 1.0])
    else:
      join = M.zip.ZipIterDataset(inner)
    first = ctx.cbool("join.first")
    ds = M.zip.ZipIterDataset([join, ds] if first else [ds, join])
    order = [other or {}] + order if first else order + [other or {}]
  elif shape == "repeat":
    ds = M.repeat.RepeatIterDataset(ds, 2)
  elif shape == "batch":
    ds = ds.batch(2, batch_fn=list)
  elif shape == "limit":
    ds = M.limit.LimitIterDataset(ds, 2)
  ds = ds.filter(lambda x: True)
  for lv in high:
    ds = put(ds, lv)
    order = [lv or {}] + order
  it = ds.__iter__()
  want = _prec(*order)
  _same(ctx, it._ctx.dataset_options, want, "options of the whole pipeline")
  todo, seen = [it], 0
  while todo:
    x = todo.pop()
    seen += 1
    _same(ctx, x._ctx.dataset_options, want, f"options seen by {type(x).__name__}")
    todo += list(getattr(x, "_parents", ()))
  ctx.check(seen >= 2, "no stages found")


@harness("P30", "threshold", "filter with a raise threshold on a window of W elements (the constant set to 1..5): unset, None or any k/W, every pattern of passed and removed elements over two windows: stops with an error when a window removes more, and not when it removes less",
         quick_s=80)
def p30_threshold(ctx):
  M = mods()
  F = M.filter
  W = ctx.cint("window", 1, 5 if ctx.tier == "thorough" else 4)
  kind = ctx.choice("threshold", ["unset", "none", "value"])
  k = ctx.int("k", 0, W) if kind == "value" else None
  old = F._CHECK_FILTERED_INTERVAL
  F._CHECK_FILTERED_INTERVAL = W
  try:
    keep = [ctx.cbool(f"keep{q}") for q in range(2 * W)]
    ds = src_iter(2 * W).filter(lambda x: keep[x])
    opts = {} if kind == "unset" else {"filter_raise_threshold_ratio": None if kind == "none" else k / W}
    it = M.dataset.WithOptionsIterDataset(ds, M.base.DatasetOptions(**opts)).__iter__()
    got, err = [], False
    try:
      got = drain(it)
    except ValueError:
      err = True
    over = [keep[w * W:(w + 1) * W].count(False) for w in (0, 1)]
    if err:
      ctx.check(kind == "value" and disj([conj([c >= k, c > 0]) for c in over]), "error although the ratio is not reached or the check is off")
    else:
      ctx.eq(got, [q for q in range(2 * W) if keep[q]], "filtered stream")
      ctx.check(kind != "value" or conj([c <= k for c in over]), "no error although more than the allowed share was removed")
  finally:
    F._CHECK_FILTERED_INTERVAL = old


def _one_piece():

  class F(mods().transforms.FlatMap):
    max_fan_out = 1

    def flat_map(self, x):
      return [x]

  return F()


@harness("P30", "interleaved", "options in the components, below and above an interleave (each unset, None or a symbolic threshold): optionally a stage between that saves the position of its input when it is created (repeat, flat map, window shuffle, prefetch thread, another interleave); the filter inside the components obeys the first explicit one seen from the top", quick_s=80)
def p30_interleaved(ctx):
  M = mods()
  F = M.filter
  old = F._CHECK_FILTERED_INTERVAL
  F._CHECK_FILTERED_INTERVAL = 2
  try:
    f = "filter_raise_threshold_ratio"

    def level(name):
      k = ctx.choice(name, ["unset", "none", "value"])
      return {} if k == "unset" else {f: None if k == "none" else ctx.int(name + ".k", 1, 2) / 2}

    lv = [level("top"), level("above"), level("inner")]
    W = lambda d, o: M.dataset.WithOptionsIterDataset(d, M.base.DatasetOptions(**o))
    drop = ctx.cint("dropped", 0, 2)
    comp = [W(src_iter(2).filter(lambda x: x >= drop), lv[2]) for _ in range(2)]
    ds = W(M.interleave.InterleaveIterDataset(comp, cycle_length=2, iter_buffer_size=0), lv[1])
    between = ctx.choice("between", ["none", "repeat", "flat", "window", "thread", "interleave"])
    if between == "repeat":
      ds = M.repeat.RepeatIterDataset(ds, 1)
    elif between == "flat":
      ds = M.flatmap.FlatMapIterDataset(ds, _one_piece())
    elif between == "window":
      ds = grain().experimental.WindowShuffleIterDataset(ds, window_size=1, seed=1)
    elif between == "thread":
      ds = grain().experimental.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=0)
    elif between == "interleave":
      ds = M.repeat.RepeatIterDataset(M.interleave.InterleaveIterDataset([ds], cycle_length=1, iter_buffer_size=0), 1)
    ds = W(ds, lv[0])
    err = False
    try:
      got = drain(ds.__iter__())
    except ValueError:
      err = True
    thr = _prec(*lv)[f]
    want = False if thr is None or not drop else drop / 2 >= thr
    ctx.check(want if err else neg(want), "the components do not obey the merged options")
    if not err:
      ctx.check(len(got) == 2 * (2 - drop), "filtered stream")
  finally:
    F._CHECK_FILTERED_INTERVAL = old


@harness("P30", "read_options", "every pair of integers as thread count and buffer size", quick_s=20)
def p30_read(ctx):
  R = mods().options.ReadOptions
  t = ctx.int("threads", -BIG, BIG)
  b = ctx.int("buffer", -BIG, BIG)
  try:
    o = R(num_threads=t, prefetch_buffer_size=b)
  except ValueError:
    ctx.check(disj([t < 0, b < 0]), "valid read options are refused")
    return
  ctx.check(conj([t >= 0, b >= 0]), "negative read options are accepted")
  ctx.eq([o.num_threads, o.prefetch_buffer_size], [t, b], "read options are changed")
  ctx.eq(R(num_threads=t).prefetch_buffer_size, R().prefetch_buffer_size, "default buffer size")
  ctx.eq(R(prefetch_buffer_size=b).num_threads, R().num_threads, "default thread count")


@harness("P30", "mp_options", "every integer as worker count or thread count up to 0, buffer size and thread prefetch buffer size: refused below the documented minimum, kept otherwise; zero workers change nothing", quick_s=30)
def p30_mp(ctx):
  M = mods()
  kind = ctx.choice("kind", ["threads", "mp_prefetch", "process_buffer", "thread_buffer"])
  v = ctx.int("v", -BIG, BIG)
  ds = src_iter(3)
  O = M.options.MultiprocessingOptions
  if kind == "threads":
    ctx.assume(v <= 0)
    try:
      r = M.prefetch.multithread_prefetch(ds, num_threads=v, buffer_size=1)
    except ValueError:
      ctx.check(v < 0, "zero threads are refused")
      return
    ctx.check(v == 0, "a negative thread count is accepted")
    ctx.eq(drain(r.__iter__()), [0, 1, 2], "zero threads change the stream")
  elif kind == "mp_prefetch":
    ctx.assume(v <= 0)
    try:
      r = ds.mp_prefetch(O(num_workers=v))
    except ValueError:
      ctx.check(v < 0, "zero workers are refused")
      return
    ctx.check(v == 0, "a negative worker count is accepted")
    ctx.eq(drain(r.__iter__()), [0, 1, 2], "zero workers change the stream")
  elif kind == "process_buffer":
    try:
      M.pp.ProcessPrefetchIterDataset(ds, buffer_size=v)
    except ValueError:
      ctx.check(v <= 0, "a positive buffer size is refused")
      return
    ctx.check(v > 0, "a buffer size below one is accepted")
  else:
    try:
      M.prefetch.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=v)
    except ValueError:
      ctx.check(v < 0, "a valid buffer size is refused")
      return
    ctx.check(v >= 0, "a negative buffer size is accepted")


# ------------------------------------------------------------------ P36


MB = 1024 * 1024


def _array(size):
  """A real array that reports a symbolic number of bytes."""
  import numpy as np

  class Sized(np.ndarray):
    nbytes = property(lambda self: self.size_)

  a = np.zeros(1).view(Sized)
  a.size_ = size
  return a


def _budget(ctx, got, cap, sizes, parts, ram, what):
  """got is the largest number within cap whose elements fit in ram (MB).

  The code divides floating point numbers; one part in 10^9 is left to rounding.
  """
  n = len(sizes)
  total = sum(sizes)  # n elements
  if is_sym(got) and not is_sym(cap) and cap <= 3:
    ctx.check(conj([got >= 0, got <= cap]), f"{what} exceeds the configured maximum")
    got = next((v for v in range(cap) if got == v), cap)
  ctx.check(got <= cap, f"{what} exceeds the configured maximum")
  ctx.check(got >= 0, f"{what} is negative")
  lim = ram * MB * n
  fits = got * total * parts * (10**9 - 1) <= lim * 10**9
  ctx.check(disj([total == 0, fits]), f"{what} exceeds the memory budget")
  more = (got + 1) * total * parts * (10**9 + 1) > lim * 10**9
  ctx.check(disj([got == cap, more]), f"{what} is smaller than the budget and the maximum allow")


def _no_metrics():
  """The byte counters of the monitoring library cannot count symbolic bytes."""
  import grain._src.python.dataset.stats_utils as su
  su.calculate_allocated_bytes = lambda e: 0
  mods().tree.estimate_byte_size = lambda e: 0


S_METRICS = "stats_utils.calculate_allocated_bytes and tree_lib.estimate_byte_size (used by monitoring only) return 0"


def _unthreaded(src):
  """A random access dataset that is iterated without reader threads."""
  D = mods().dataset

  class Plain(D.MapDataset):

    def __len__(self):
      return len(src)

    def __getitem__(self, i):
      return src[i]

    def __iter__(self):
      return self.to_iter_dataset(read0()).__iter__()

    def __str__(self):
      return "Plain"

  return Plain()


def _inputs(ctx, n, parts=1, caps=(1, 1000), may_lack=False):
  """Either the budget and the maximum are unknown, or the sizes are."""
  SFloat.levels = None
  if ctx.choice("unknown", ["budget", "sizes"]) == "budget":
    pool = [0, 1, 3 * MB + 1, 2**34] if n * parts < 2 else [0, 1000, 2**31 + 1]
    sizes = [[ctx.choice(f"size{p}{q}", pool) for q in range(n)] for p in range(parts)]
    # An unknown budget comes with an unknown maximum, or none at all.
    return sizes, ctx.int("ram", 1, 2**30), (ctx.int("max", *caps) if not may_lack or ctx.cbool("limited") else None)
  SFloat.levels = 4  # the maximum is at most 3
  # The sum is an unknown of its own: branch and bound over a sum of integers diverges.
  flat = [ctx.int(f"size{q}", 0, 2**34) for q in range(n * parts - 1)]
  if n:
    flat.append(ctx.int("total", 0, 2**36) - sum(flat))
    ctx.assume(conj([flat[-1] >= 0, flat[-1] <= 2**34]))
  sizes = [flat[p * n:(p + 1) * n] for p in range(parts)]
  return sizes, ctx.choice("ram", [1, 2**16]), ctx.cint("max", 1, 3 if ctx.tier == "thorough" else 2)


class _Reads(Src):
  """Counts what is read from it."""

  def __init__(self, items):
    super().__init__(len(items), items)
    self.reads = 0

  def __getitem__(self, i):
    self.reads += 1
    return super().__getitem__(i)


@harness("P36", "workers", "1..3 sampled elements; any budget up to 2^30 MB and maximum up to 1000 for sizes out of 0..2^34 bytes at 3-4 values, or any sizes up to 2^34 bytes for three budgets and maxima 1..3; or no maximum: worker count within both limits and maximal; short streams take the maximum", quick_s=60, stubs=(S_METRICS,))
def p36_workers(ctx):
  A = mods().autotune
  _no_metrics()
  n = ctx.cint("samples", 1, 3)
  have = ctx.cint("elements", 0, 4)
  (sizes,), ram, mx = _inputs(ctx, have, may_lack=True)
  src = _Reads([_array(s) for s in sizes])
  ds = _unthreaded(src).to_iter_dataset(read0())
  got = A._get_num_workers(ds, ram_budget_mb=ram, max_workers=mx, samples_to_check=n)
  cap = A.cpu_count() if mx is None else mx
  ctx.check(src.reads <= n, "more elements than the sample are read")
  if have < n:
    ctx.check(got == cap, "worker count without a measurement")
    return
  _budget(ctx, got, cap, sizes[:n], 1, ram, "worker count")
  ctx.check(len(drain(ds.__iter__())) == have, "tuning changed the stream")


@harness("P36", "buffer", "one or two prefetched branches, 1..2 sampled elements each, inputs as for the worker count: buffer size of all branches together within the limits and maximal", quick_s=80, stubs=(S_METRICS,))
def p36_buffer(ctx):
  _no_metrics()
  M = mods()
  A = M.autotune
  parts = ctx.cint("branches", 1, 2)
  n = ctx.cint("samples", 1, 2)
  per = -(-n // parts)
  have = ctx.cint("elements", 0, 2)
  sizes, ram, mx = _inputs(ctx, have, parts, (1, 2000), True)
  its = [_unthreaded(_Reads([_array(s) for s in sz])).to_iter_dataset(read0()) for sz in sizes]
  ds = its[0] if parts == 1 else M.mix.MixedIterDataset(its, [1.0, 1.0])
  if ctx.cbool("batched"):
    ds = ds.batch(2, batch_fn=list)
  o = A._get_buffer_size(ds, ram_budget_mb=ram, max_buffer_size=mx, samples_to_check=n)
  cap = 1000 if mx is None else mx
  got = o.prefetch_buffer_size
  sample = [s for sz in sizes for s in sz[:per]]
  if len(sample) < n:
    ctx.check(got == cap, "buffer size without a measurement")
    return
  _budget(ctx, got, cap, sample, parts, ram, "buffer size")


@harness("P36", "element_size", "nestings of depth 2 of lists, tuples and dictionaries of arrays with symbolic sizes: their size is the sum of the arrays' sizes", quick_s=40)
def p36_size(ctx):
  from harness.h_misc import _make, _shape
  A = mods().autotune
  s = _shape(ctx, "s", 2, ("leaf", "list", "tuple", "dict", "empty"))
  sizes = []

  def leaf():
    sizes.append(ctx.int(f"size{len(sizes)}", 0, BIG))
    return _array(sizes[-1])

  got = A._get_element_size_bytes(_make(s, leaf))
  ctx.eq(got, sum(sizes), "size of a structure")


@harness("P36", "config", "both settings chosen together: each is what its own computation gives, workers and buffer limits not swapped, the stream is read unchanged afterwards", quick_s=60, stubs=(S_METRICS,))
def p36_config(ctx):
  A = mods().autotune
  _no_metrics()
  (sizes,), ram, mw = _inputs(ctx, 2)
  mb = ctx.int("max_buffer", 1, 2000) if SFloat.levels is None else ctx.cint("max_buffer", 1, 3)
  els = [_array(s) for s in sizes]
  ds = _unthreaded(Src(2, els)).to_iter_dataset(read0())
  c = A.pick_performance_config(ds, ram_budget_mb=ram, max_workers=mw, max_buffer_size=mb, samples_to_check=2)
  _budget(ctx, c.multiprocessing_options.num_workers, mw, sizes, 1, ram, "worker count")
  _budget(ctx, c.read_options.prefetch_buffer_size, mb, sizes, 1, ram, "buffer size")
  got = drain(ds.__iter__())
  ctx.check(len(got) == 2 and got[0] is els[0] and got[1] is els[1], "tuning changed the stream")
