"""Elastic iterators: checkpoints restored with another number of shards."""

import shutil
import tempfile

from harness.common import *  # noqa
from symx import sched
from symx.registry import harness


def _shards(k, c):
  return mods().sharding.ShardOptions(shard_index=k, shard_count=c)


def _elastic(ds, g, k, c, **kw):
  return mods().elastic.ElasticIterator(ds, g, _shards(k, c), read_options=read0(), **kw)


# ---------------------------------------------------------------- P22


def _step(its):
  """One global step: what every shard delivers, None where it has ended."""
  out = []
  for it in its:
    try:
      out.append(norm(next(it)))
    except StopIteration:
      out.append(None)
  return out


@harness("P22", "anywhere", "datasets of any length up to 2^40 restored at any position up to 2^40, 1..4 shards x host batch 1..2: 2 steps read exactly the next global batches, all states equal and portable",
         quick_s=120, must_reach=("full step", "end"))
def p22_anywhere(ctx):
  n = ctx.int("n", 0, BIG)
  g0 = ctx.int("g", 0, BIG)
  c = ctx.cint("c", 1, 4)
  h = ctx.cint("h", 1, 2)
  its = [_elastic(raw_map(n), c * h, k, c) for k in range(c)]
  for it in its:
    it.set_state({"global_next_index": g0})
  pos = g0
  for _ in range(2):
    got = _step(its)
    if pos + c * h <= n:
      ctx.reach("full step")
      for k in range(c):
        ctx.eq(got[k], [pos + k + q * c for q in range(h)], "a shard of a full global batch read other elements")
      pos = pos + c * h
      for it in its:
        ctx.eq(jsonable(it.get_state()), {"global_next_index": pos}, "the shards' states differ or are not the global position")
    else:
      ctx.reach("end")
      for k, x in enumerate(got):
        if x is not None:
          # Left-overs smaller than a global batch: never wrong elements.
          for q, v in enumerate(x):
            ctx.check(conj([v == pos + k + q * c, v < n]), "a shard reads past the end")
      break


@harness("P22", "histories", "0..7 (thorough 9) elements, two reshardings between 1..3 shards and host batches 1..2, any number of steps in between, state of any shard used (also through JSON), fresh or used iterators",
         quick_s=150, thorough_s=500, must_reach=("resharded",))
def p22_histories(ctx):
  deep = ctx.tier == "thorough"
  n = ctx.cint("n", 0, 9 if deep else 7)
  pos, state = 0, None
  seen = []
  for gen in range(3):
    c = ctx.cint(f"c{gen}", 1, 3)
    h = ctx.cint(f"h{gen}", 1, 2)
    its = [_elastic(src_map(n), c * h, k, c) for k in range(c)]
    if state is not None:
      if ctx.cbool(f"used{gen}") if (deep or gen == 1) else False:
        _step(its)
      for it in its:
        it.set_state(jsonable(state))
    full = (n - pos) // (c * h)
    steps = ctx.cint(f"steps{gen}", 0, full) if gen < 2 else full
    for _ in range(steps):
      got = _step(its)
      ctx.check(None not in got, "a shard ends before the last full global batch")
      ctx.eq(sorted(x for r in got for x in r), list(range(pos, pos + c * h)), "a global step reads other elements than the next ones")
      pos += c * h
      seen += [x for r in got for x in r]
    states = [it.get_state() for it in its]
    for s in states:
      ctx.eq(s, states[0], "shards that took the same steps have different states")
    state = copy.deepcopy(states[ctx.cint(f"from{gen}", 0, c - 1) if gen < 2 else 0])
    if gen and steps:
      ctx.reach("resharded")
  ctx.check(len(set(seen)) == len(seen), "an element was read twice")


@harness("P22", "pipelines", "map, map_with_index, seeded random_map, shuffle-free slice, repeat 2 and zip over 1..4 elements, 1..2 shards before and after, every checkpoint position: the union of the shards is the unsharded pipeline",
         quick_s=80)
def p22_pipelines(ctx):
  M = mods()
  n = ctx.cint("n", 1, 4)
  kind = ctx.choice("kind", ["map", "index", "random", "slice", "repeat", "zip"])

  def build():
    ds = src_map(n)
    if kind == "map":
      return ds.map(lambda x: ("m", x))
    if kind == "index":
      return ds.map_with_index(lambda i, x: ("i", i, x))
    if kind == "random":
      return ds.seed(3).random_map(lambda x, r: (x, int(r.integers(2**40))))
    if kind == "slice":
      return ds[::2]
    if kind == "repeat":
      return ds.repeat(2)
    return M.zip.ZipMapDataset([ds, ds.map(lambda x: -x)])

  ref = [build()[i] for i in range(len(build()))]
  pos, state = 0, None
  for gen in range(2):
    c = ctx.cint(f"c{gen}", 1, 2)
    its = [M.elastic.ElasticIterator(build().map(lambda x: [x]), c, _shards(k, c), read_options=read0()) for k in range(c)]
    its = [M.elastic.ElasticIterator(build().map(_boxed), c, _shards(k, c), read_options=read0()) for k in range(c)]
    if state is not None:
      for it in its:
        it.set_state(state)
    full = (len(ref) - pos) // c
    for _ in range(ctx.cint("steps", 0, full) if not gen else full):
      got = _step(its)
      ctx.check(None not in got, "a shard ends early")
      ctx.eq([r[0] for r in got], norm(ref[pos:pos + c]), "the union of the shards differs from the pipeline")
      pos += c
    state = its[-1].get_state()


def _boxed(x):
  """Elements as object scalars so that batching stacks them unchanged."""
  import numpy as np

  a = np.empty((), dtype=object)
  a[()] = x
  return a


@harness("P22", "refused", "global batch 1..6, 1..4 shards: refused exactly when the batch is not divisible; filtering upstream is refused", quick_s=30)
def p22_refused(ctx):
  g = ctx.cint("g", 1, 6)
  c = ctx.cint("c", 1, 4)
  try:
    it = _elastic(src_map(12), g, ctx.cint("k", 0, 3) % c, c)
    next(it)
    ok = True
  except ValueError:
    ok = False
  ctx.eq(ok, g % c == 0, "divisibility of the global batch")
  try:
    _elastic(src_map(12).filter(lambda x: True).map(lambda x: x), c, 0, c)
    ctx.check(False, "a filtered dataset is accepted")
  except ValueError:
    pass


# ---------------------------------------------------------------- P23

S_FS = "threading is a model (deterministic schedule); checkpoint files are real files in a scratch directory"


def _comp(s, n, kind):
  toks = [(s, q) for q in range(n)]
  if kind == "map":
    return src_map(n, toks).map(_boxed)
  return list_iter(toks).map(_boxed)


def _regroup(ctx, nmax, lmax, gens, files):
  M = mods()
  from etils import epath

  n = ctx.cint("shards", 1, nmax)
  lens = [ctx.cint(f"len{q}", 0, lmax) for q in range(n)]
  cyc = ctx.cint("cycle", 1, 2)
  if ctx.tier == "thorough" and gens < 3:
    kind = ctx.choice("kind", ["map", "iter"])
    above = ctx.cbool("map above")
  else:
    kind, above = ("map", False) if gens > 2 or cyc == 1 else ("iter", True)
  got = []
  state = {}
  tmp = tempfile.mkdtemp(prefix="verif-elastic-") if files else None
  try:
    with sched.installed(ctx, preempt=0, free=False, max_points=200000):
      for gen in range(gens):
        last = gen == gens - 1
        c = ctx.cint(f"c{gen}", 1, n)
        h = ctx.cint(f"h{gen}", 1, 2) if not last else 1
        hosts = []
        for k in range(c):
          ds = M.interleave.InterleaveIterDataset([_comp(s, lens[s], kind) for s in range(n)], cycle_length=cyc, num_make_iter_threads=0, make_iter_buffer_size=0)
          if above:
            ds = ds.map(lambda x: x)
          it = M.elastic.ElasticIterator(ds, c * h, _shards(k, c), read_options=read0())
          if gen:
            if files:
              M_ck().restore_elastic_iterator(epath.Path(tmp), it)
            else:
              it.set_shard_states(jsonable({s: v for s, v in state.items() if s % c == k}))
          hosts.append(it)
        for k, it in enumerate(hosts):
          steps = 50 if last else ctx.cint(f"steps{gen}{k}", 0, 2)
          for _ in range(steps):
            try:
              got += [tuple(x) for x in norm(next(it))]
            except StopIteration:
              break
        if not last:
          if files:
            for it in hosts:
              M_ck().save_elastic_iterator(epath.Path(tmp), it)
          else:
            state = {}
            for it in hosts:
              state.update(it.get_shard_states())
            ctx.check(sorted(state) == list(range(n)), "the hosts' states do not cover the shards")
        for it in hosts:
          it.close()
  finally:
    if tmp:
      shutil.rmtree(tmp, ignore_errors=True)
  want = [(s, q) for s in range(n) for q in range(lens[s])]
  ctx.check(sorted(got) == want, f"elements lost or repeated: {got}")
  for s in range(n):
    ctx.check([x for x in got if x[0] == s] == [x for x in want if x[0] == s], "a shard's elements are out of order")


def M_ck():
  import importlib

  return importlib.import_module("grain._src.python.checkpoint.elastic_checkpoint")


@harness("P23", "regroup", "1..3 shards of 0..2 elements, cycle length 1..2, any number of hosts before and after (every host at its own position 0..2 steps of 1..2 elements): every element exactly once, each shard in order",
         quick_s=200, thorough_s=300, stubs=(S_FS,))
def p23_regroup(ctx):
  _regroup(ctx, 3, 2, 2, False)


@harness("P23", "files", "1..3 shards of 0..2 elements through checkpoint files: as regroup", quick_s=200, thorough_s=300, stubs=(S_FS,))
def p23_files(ctx):
  _regroup(ctx, 2 if ctx.tier == "quick" else 3, 2, 2, True)


@harness("P23", "regroup_twice", "1..2 (thorough 3) shards of 0..2 elements, two regroupings", quick_s=150, thorough_s=900, stubs=(S_FS,))
def p23_twice(ctx):
  if ctx.tier == "thorough":
    _regroup(ctx, 3, 2, 3, False)
  else:
    _regroup(ctx, 2, 2, 3, False)


@harness("P23", "many", "11..12 shards of 2 elements, all open or 3 at a time, 1..2 hosts after 0..15 elements, 1..2 hosts afterwards, states through JSON", quick_s=100, thorough_s=200, stubs=(S_FS,))
def p23_many(ctx):
  """So many shards that the order of their names is not the order of numbers."""
  M = mods()
  n = ctx.cint("shards", 11, 12)
  cyc = ctx.choice("cycle", [3, n])
  state, got = {}, []
  with sched.installed(ctx, preempt=0, free=False, max_points=200000):
    for gen in range(2):
      c = ctx.cint(f"c{gen}", 1, 2)
      for k in range(c):
        ds = M.interleave.InterleaveIterDataset([list_iter([(s, q) for q in range(2)]).map(_boxed) for s in range(n)], cycle_length=cyc, num_make_iter_threads=0, make_iter_buffer_size=0)
        it = M.elastic.ElasticIterator(ds, c, _shards(k, c), read_options=read0())
        if gen:
          it.set_shard_states(jsonable({s: v for s, v in state.items() if s % c == k}))
        new = []
        for _ in range(99 if gen else ctx.cint("steps", 0, 15)):
          try:
            new += [tuple(x) for x in norm(next(it))]
          except StopIteration:
            break
        got += new
        if not gen:
          old = it.get_shard_states()
          ctx.check(sorted(old) == list(range(k, n, c)), "states do not cover the host's shards")
          state.update(old)
        it.close()
  ctx.check(sorted(got) == [(s, q) for s in range(n) for q in range(2)], f"elements lost or repeated: {got}")
  for s in range(n):
    ctx.check([x for x in got if x[0] == s] == [(s, 0), (s, 1)], "a shard's elements are out of order")


@harness("P23", "idle", "1..4 shards of 0..2 elements, states taken at once, restored twice without reading, then read: nothing lost (start states, exhausted markers survive)", quick_s=80, stubs=(S_FS,))
def p23_idle(ctx):
  M = mods()
  n = ctx.cint("shards", 1, 4)
  lens = [ctx.cint(f"len{q}", 0, 2) for q in range(n)]
  cyc = ctx.cint("cycle", 1, 3)
  k0 = ctx.cint("steps", 0, 2)
  mk = lambda: M.elastic.ElasticIterator(M.interleave.InterleaveIterDataset([_comp(s, lens[s], "map") for s in range(n)], cycle_length=cyc, num_make_iter_threads=0, make_iter_buffer_size=0), 1, _shards(0, 1), read_options=read0())
  with sched.installed(ctx, preempt=0, free=False, max_points=200000):
    it = mk()
    got = [tuple(x[0]) for x in norm(take(it, k0))]
    st = jsonable(it.get_shard_states())
    for _ in range(2):
      it = mk()
      it.set_shard_states({int(k): v for k, v in st.items()})
      st2 = jsonable(it.get_shard_states())
      ctx.eq({k: v["exhausted"] for k, v in st2.items()}, {k: v["exhausted"] for k, v in st.items()}, "an idle restore changes which shards are exhausted")
      st = st2
    got += [tuple(x[0]) for x in norm(drain(it))]
  ctx.check(sorted(got) == [(s, q) for s in range(n) for q in range(lens[s])], f"elements lost or repeated: {got}")
