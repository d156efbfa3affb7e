"""Execution tracking (P42)."""

import contextlib
import copy
import types

from harness.common import *  # noqa
from harness.h_close import STAGES, _counting, _flat, _stage
from harness.h_thread import S_SCHED
from symx import sched
from symx.registry import harness

S_STATS = "the reporting threads (sleep 5 s, then report) do not run; protobuf messages are Python objects with the same fields"
MAXINT = 2**63 - 1


class _Node:
  _INT = ("id", "total_processing_time_ns", "min_processing_time_ns", "max_processing_time_ns", "num_produced_elements",
          "bytes_consumed", "bytes_produced")
  _ALL = _INT + ("name", "output_spec", "is_output", "is_prefetch", "wait_time_ratio", "inputs")

  def __init__(self, **kw):
    for f in self._ALL:
      self.ClearField(f)
    self.__dict__.update(kw)

  def ClearField(self, f):
    self.__dict__[f] = [] if f == "inputs" else "" if f in ("name", "output_spec") else False if f.startswith("is_") else 0

  def CopyFrom(self, o):
    self.__dict__.update({k: list(v) if isinstance(v, list) else v for k, v in o.__dict__.items()})


class _Nodes(dict):

  def __missing__(self, k):
    self[k] = _Node()
    return self[k]

  get_or_create = __missing__


class _Summary:
  Node = _Node

  def __init__(self):
    self.nodes = _Nodes()

  def ClearField(self, f):
    self.nodes = _Nodes()

  def CopyFrom(self, o):
    self.nodes = _Nodes()
    for k, v in o.nodes.items():
      self.nodes[k].CopyFrom(v)


class _Lock:

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False


class _Thread:

  def __init__(self, *a, **k):
    pass

  def start(self):
    pass


@contextlib.contextmanager
def _quiet(ctx):
  """No background reporting; in symbolic mode also models of the messages."""
  import importlib

  st = importlib.import_module("grain._src.python.dataset.stats")
  su = importlib.import_module("grain._src.python.dataset.stats_utils")
  t = [0]

  def now():
    t[0] += 1
    return t[0]

  new = {(st, "threading"): types.SimpleNamespace(Thread=_Thread, Lock=_Lock),
         (st, "time"): types.SimpleNamespace(time=lambda: 0, sleep=lambda s: None, perf_counter_ns=now)}
  if ctx.symbolic:
    pb = types.SimpleNamespace(ExecutionSummary=_Summary)
    new[st, "execution_summary_pb2"] = new[su, "execution_summary_pb2"] = pb
    new[st, "_self_time_ns_histogram"] = types.SimpleNamespace(Record=lambda *a: None)
    new[st, "_next_duration_ns_histogram"] = types.SimpleNamespace(Record=lambda *a: None)
  old = {(m, k): getattr(m, k) for m, k in new}
  try:
    for (m, k), v in new.items():
      setattr(m, k, v)
    yield st, su
  finally:
    for (m, k), v in old.items():
      setattr(m, k, v)


def _tracked(ds):
  M = mods()
  return M.dataset.WithOptionsIterDataset(ds, M.base.DatasetOptions(execution_tracking_mode=M.base.ExecutionTrackingMode.STAGE_TIMING))


def _summary(it):
  it._stats.report()
  return mods().dataset.get_execution_summary(it)


@harness("P42", "transparent", "streams of 0..3 elements, read directly or with a thread, under up to 2 (thorough 3) of 21 stages: with tracking switched on the same elements and the same states (saved with one, restored with the other) after each of up to 7 reads; a report at any point changes nothing",
         quick_s=110, thorough_s=700, stubs=(S_SCHED, S_STATS))
def p42_transparent(ctx):
  deep = ctx.tier == "thorough"
  g, M = grain(), mods()
  depth = ctx.cint("stages", 0, 3 if deep else 2)
  ops = [ctx.choice(f"op{q}", STAGES) for q in range(depth)]
  n = ctx.cint("n", 0, 3) if deep or depth < 2 else 2
  buf = ctx.choice("read", [0, 2]) if depth < 2 else 0
  report_at = ctx.cint("report at", 0, 3) if depth < 2 else 1
  swap_at = ctx.cint("swap at", 0, 4) if deep or depth < 2 else 2

  def build():
    ds = _counting(n, []).to_iter_dataset(g.ReadOptions(num_threads=buf, prefetch_buffer_size=buf))
    for op in ops:
      ds = _stage(op, ds)
    return ds

  with sched.installed(ctx, preempt=0, free=False, max_points=200000), _quiet(ctx):
    plain, track = iter(build()), iter(_tracked(build()))
    for q in range(7):
      a, b = norm(take(plain, 1)), norm(take(track, 1))
      ctx.eq(b, a, "tracking changes the elements")
      if q == report_at:
        _summary(track)
      sa, sb = plain.get_state(), track.get_state()
      ctx.eq(jsonable(sb), jsonable(sa), "tracking changes the state")
      if q == swap_at:
        other, other2 = iter(_tracked(build())), iter(build())
        other.set_state(copy.deepcopy(sa))
        other2.set_state(copy.deepcopy(sb))
        ctx.eq(norm(take(other, 2)), norm(take(other2, 2)), "a state means another position with tracking on")
      if not a:
        break
    plain.close()
    track.close()


@harness("P42", "random_access", "random-access datasets of 1 or 3 (thorough 1..3) elements under up to 2 stages (map, with index, filter, flat map, shuffle, slice, repeat, batch, concatenate, mix, select, window shuffle), read by index or in a batch as the parent of a tracked stream: same elements",
         quick_s=60, thorough_s=300, stubs=(S_STATS,))
def p42_random(ctx):
  g, M = grain(), mods()
  n = ctx.cint("n", 1, 3) if ctx.tier == "thorough" else ctx.choice("n", [1, 3])
  ds = g.MapDataset.source(Src(n))
  names = ["map", "index", "filter", "shuffle", "slice", "repeat", "batch", "concat", "mix", "zip", "window", "flat"]
  for q in range(ctx.cint("stages", 0, 2)):
    op = ctx.choice(f"op{q}", names)
    if op == "map":
      ds = ds.map(lambda x: x)
    elif op == "index":
      ds = ds.map_with_index(lambda i, x: (i, x))
    elif op == "filter":
      keep = ctx.cint("keep", 0, 1)
      ds = ds.filter(lambda x: keep == 1)
    elif op == "shuffle":
      ds = ds.shuffle(seed=1)
    elif op == "slice":
      ds = ds[1:] if len(ds) > 1 else ds
    elif op == "repeat":
      ds = ds.repeat(2)
    elif op == "batch":
      try:
        ds = ds.batch(2, batch_fn=list)
      except ValueError:
        return  # refused behind stages that drop elements
    elif op == "concat":
      ds = g.MapDataset.concatenate([ds, ds])
    elif op == "mix":
      ds = g.MapDataset.mix([ds, ds])
    elif op == "zip":
      ds = g.experimental.ZipMapDataset([ds, ds])
    elif op == "window":
      ds = g.experimental.WindowShuffleMapDataset(ds, window_size=2, seed=1)
    else:
      ds = M.flatmap.FlatMapMapDataset(ds, _flat())
  with _quiet(ctx):
    a = norm(take(iter(ds.to_iter_dataset(read0(), allow_nones=True)), 9))
    it = iter(_tracked(ds.to_iter_dataset(read0(), allow_nones=True)))
    b = norm(take(it, 9))
    ctx.eq(b, a, "tracking changes the elements")
    idx = [ctx.cint("i", 0, min(len(ds), 4)), 1] if len(ds) else []
    got = it._map_parent._getitems(idx) if hasattr(it, "_map_parent") else None
    if got is not None:
      ctx.eq(norm(got), norm([ds[i] for i in idx]), "tracking changes batched reads")
    _summary(it)
    ctx.eq(norm(take(iter(_tracked(ds.to_iter_dataset(read0(), allow_nones=True))), 9)), a, "tracking changes the elements")


def _stats_node(st, name, parents, kind=None):
  """A node of the statistics tree, as make_stats builds it."""
  cfg = st.StatsConfig(name=name, transform_mutates_spec=not parents, iter_weakref=st.HashableWeakRef(st.make_stats))
  if kind is not None:
    cfg.node_type = kind
  M = mods()
  r = st.make_stats(cfg, parents, M.base.ExecutionTrackingMode.STAGE_TIMING)
  r._self_output_spec = "spec"
  return r


@harness("P42", "totals", "a node with up to 3 (thorough 4) records of symbolic durations and element counts (zero included), reported after any of them: produced elements and total time are the sums over the records that produced something, shortest and longest time per element their extremes",
         quick_s=40, thorough_s=200, stubs=(S_STATS,))
def p42_totals(ctx):
  with _quiet(ctx) as (st, su):
    node = _stats_node(st, "a", [])
    k = ctx.cint("records", 0, 4 if ctx.tier == "thorough" else 3)
    cur = [0]
    st.time.perf_counter_ns = lambda: cur[0]
    recs = []
    for q in range(k):
      d = ctx.int(f"duration{q}", 0, 2**50)
      m = ctx.cint(f"elements{q}", 0, 3)
      off = ctx.int(f"offset{q}", 0, 2**20)
      fails = ctx.cbool(f"fails{q}") if q == 0 else False
      try:
        with node.record_self_time(num_elements=m, offset_ns=off):
          cur[0] = cur[0] + d
          if fails:
            raise KeyError("from the stage")
        ctx.check(not fails, "recording swallowed an exception")
      except KeyError:
        ctx.check(fails, "recording raised")
      recs.append((d + off, m))
      if ctx.cbool(f"report{q}"):
        node.report()
    s = _summary_of(node).nodes[0]
    recs = [r for r in recs if r[1]]
    ctx.eq(s.num_produced_elements, sum(m for _, m in recs), "wrong number of produced elements")
    ctx.eq(s.total_processing_time_ns, sum((d for d, _ in recs), 0), "wrong total time")
    if recs:
      per = [d // m for d, m in recs]
      ctx.check(conj([s.min_processing_time_ns <= p for p in per]), "minimum time too large")
      ctx.check(disj([s.min_processing_time_ns == p for p in per]), "minimum time is no record's")
      ctx.check(conj([s.max_processing_time_ns >= p for p in per]), "maximum time too small")
      ctx.check(disj([s.max_processing_time_ns == p for p in per]), "maximum time is no record's")


def _summary_of(node):
  node.report()
  return node._get_execution_summary()


class _Queue:
  """The queue of one worker: its summaries in order."""

  def __init__(self, xs):
    self.xs = list(xs)

  def get(self, timeout=None):
    import queue
    if not self.xs:
      raise queue.Empty
    return self.xs.pop(0)


def _record(ctx, stat, tag, clock):
  """One record of a symbolic number of elements."""
  c = ctx.int(f"count {tag}", 1, 1000)
  d = ctx.choice(f"time {tag}", [0, 3]) if ctx.tier == "thorough" else 3
  with stat.record_self_time(num_elements=c):
    clock[0] += d
  return c, d


def _tree(ctx, st, depth, place, inside, clock):
  """A tree of stages; returns its stats and the shape the summary should have.

  A shape is (name, prefetch, records of its copies, shapes of its inputs).
  """
  kinds = ["source", "stage", "prefetch", "two"] + ([] if inside else ["workers"])
  kind = "source" if depth == 0 else ctx.choice(f"kind{place}", kinds)
  name = f"{kind}{place}"
  if kind != "workers":
    subs = [_tree(ctx, st, depth - 1, f"{place}{q}", inside, clock) for q in range(0 if kind == "source" else 2 if kind == "two" else 1)]
    s = _stats_node(st, name, [x[0] for x in subs], st.NodeType.PREFETCH if kind == "prefetch" else None)
    return s, (name, kind == "prefetch", [_record(ctx, s, name, clock)], [x[1] for x in subs])
  outs, recs, below = [], [], []
  for q in range(2):
    src = _stats_node(st, "source of " + name, [])
    sub = _stats_node(st, "below " + name, [src])
    recs.append(_record(ctx, sub, f"{name} copy {q}", clock))
    below.append(_record(ctx, src, f"{name} root {q}", clock))
    sub.record_bytes_produced(b"12345")
    outs.append(_summary_of(sub))
  shape = [("below " + name, False, recs, [("source of " + name, False, below, [])])]
  cfg = st.StatsConfig(name=name, transform_mutates_spec=True, node_type=st.NodeType.PREFETCH, iter_weakref=st.HashableWeakRef(st.make_stats))
  if ctx.cbool(f"late {name}"):
    # One worker has not sent anything: nothing of the workers is known yet.
    cfg.stats_in_queues = (_Queue(outs[:1]), _Queue([]))
    shape = []
  else:
    cfg.stats_in_queues = tuple(_Queue([o]) for o in outs)
  s = st.make_stats(cfg, [], mods().base.ExecutionTrackingMode.STAGE_TIMING)
  s._self_output_spec = "spec"
  return s, (name, True, [_record(ctx, s, name, clock)], shape)


def _walk(ctx, s, i, shape, seen, top=True, lazy=False):
  """Compares the tree of the summary with the shape."""
  ctx.check(i in s.nodes, "an input link leads nowhere")
  ctx.check(i not in seen, "a stage is the input of two others")
  seen.append(i)
  node = s.nodes[i]
  name, pre, recs, subs = shape
  ctx.eq(node.id, i, "a stage carries another stage's id")
  ctx.check(node.is_output == top, "wrong output stage")
  if name == "interleave" and lazy and not node.inputs:
    return  # nothing has been read from it
  ctx.check(len(node.inputs) == len(subs), f"{name} has {len(node.inputs)} inputs, not {len(subs)}")
  if recs is not None:
    ctx.check(node.name == name, f"stage {name} is reported as {node.name}")
    ctx.check(bool(node.is_prefetch) == pre, "wrong prefetch mark")
    ctx.eq(node.num_produced_elements, sum(c for c, _ in recs), "wrong number of produced elements")
    ctx.eq(node.total_processing_time_ns, sum(d for _, d in recs), "wrong total time")
  for j, x in zip(list(node.inputs), subs):
    _walk(ctx, s, j, x, seen, False, lazy)
  if top:
    ctx.check(sorted(s.nodes) == sorted(seen), "the summary holds stages that belong to nothing")


@harness("P42", "graph", "trees of stages up to 2 (thorough 3) deep: sources, stages, prefetch, stages with two inputs and multi-process reading with two workers (one possibly silent), symbolic counts: the summary is the tree, every stage once with its own input links, counts and times, only the root an output; the stages of the workers are added up; the wait ratios add up to 1",
         quick_s=120, thorough_s=500, stubs=(S_STATS,))
def p42_graph(ctx):
  deep = ctx.tier == "thorough"
  with _quiet(ctx) as (st, su):
    clock = [0]
    st.time.perf_counter_ns = lambda: clock[0]
    root, shape = _tree(ctx, st, 3 if deep else 2, "", False, clock)
    s = _summary_of(root)
    seen = []
    _walk(ctx, s, 0, shape, seen)
    if not deep and all(s.nodes[i].inputs for i in seen if s.nodes[i].is_prefetch):
      ctx.check(abs(sum(s.nodes[i].wait_time_ratio for i in seen) - 1) < 0.01, "the wait ratios do not add up to 1")
      ctx.reach("ratios")
    if len(seen) > 4:
      ctx.reach("large")


def _pipeline(ctx, ds, depth, place, cut):
  """Stages over a stream and the shape of the summary; cut: below an interleave all components have to be alike."""
  g, M = grain(), mods()
  e = g.experimental
  shape = ("reader", True, None, [("source", False, None, [])])
  d0, s0 = ds, shape
  for q in range(depth):
    op = ctx.choice(f"op{place}{q}", ["map", "thread", "batch", "flat_map", "window", "repeat", "zip", "mix", "interleave"])
    if op == "map":
      ds = ds.map(lambda x: x)
    elif op == "thread":
      ds = e.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=0)
    elif op == "batch":
      ds = ds.batch(1, batch_fn=lambda x: x[0])
    elif op == "flat_map":
      ds = M.flatmap.FlatMapIterDataset(ds, _flat())
    elif op == "window":
      ds = e.WindowShuffleIterDataset(ds, window_size=1, seed=1)
    elif op == "repeat":
      ds = M.repeat.RepeatIterDataset(ds, 2)
    elif op == "zip":
      ds = M.zip.ZipIterDataset([ds, d0], strict=False)
    elif op == "mix":
      ds = g.IterDataset.mix([d0, ds], [1, 1])
    else:
      ds = M.interleave.InterleaveIterDataset([ds, ds], cycle_length=2, num_make_iter_threads=0, make_iter_buffer_size=0, iter_buffer_size=0)
    if op == "interleave":
      shape = (op, False, None, [("thread", True, None, [shape])])
    else:
      shape = (op, False, None, [s0, shape] if op == "mix" else [shape, s0] if op == "zip" else [shape])
  return ds, shape


@harness("P42", "pipelines", "streams of 1..3 elements under up to 2 (thorough 3) stages (map, thread, batch, flat map, window shuffle, repeat, zip, mix, interleave): after 1..4 reads the summary is the tree of the pipeline with every stage once, the stages of interleaved streams joined",
         quick_s=90, thorough_s=500, stubs=(S_SCHED, S_STATS))
def p42_pipelines(ctx):
  deep = ctx.tier == "thorough"
  g = grain()
  n = ctx.cint("n", 1, 3)
  with sched.installed(ctx, preempt=0, free=False, max_points=200000), _quiet(ctx):
    ds = _counting(n, []).to_iter_dataset(g.ReadOptions(num_threads=0, prefetch_buffer_size=0))
    ds, shape = _pipeline(ctx, ds, ctx.cint("stages", 0, 3 if deep else 2), "", False)
    it = iter(_tracked(ds))
    k = ctx.cint("reads", 1, 4)
    got = take(it, k)
    s = _summary(it)
    # Inputs become known when the first element has come through.
    _walk(ctx, s, 0, shape, [], lazy="'mix'" in repr(shape))
    it.close()
  if len(got) > 1:
    ctx.reach("read")
