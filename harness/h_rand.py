"""Random transformations: what a generator handed to the user depends on."""

import contextlib

from harness.common import *  # noqa
from symx import sched
from symx.registry import harness

U32 = 2**32
S_RNG = ("numpy's Philox generator is a model: every draw is an injective function of key, counter, position in the block and half-used word, "
         "and advances exactly these; SeedSequence is injective up to trailing zero words")


class _Philox:

  def __init__(self, seed=None, counter=0, key=None):
    self._st = {"counter": (0, 0, 0, 0), "key": ("k", seed, key), "buffer": (0, 0, 0, 0), "pos": 4, "has": 0, "half": 0}
    if not (isinstance(counter, int) and counter == 0):
      self._st["counter"] = tuple(counter)

  @property
  def state(self):
    s = self._st
    return {"bit_generator": "Philox", "state": {"counter": s["counter"], "key": s["key"]},
            "buffer": s["buffer"], "buffer_pos": s["pos"], "has_uint32": s["has"], "uinteger": s["half"]}

  @state.setter
  def state(self, v):
    self._st = {"counter": tuple(v["state"]["counter"]), "key": v["state"]["key"], "buffer": tuple(v["buffer"]),
                "pos": v["buffer_pos"], "has": v["has_uint32"], "half": v["uinteger"]}

  def _d64(self):
    s = self._st
    if s["pos"] >= 4:
      s["counter"] = ("next", s["counter"])
      s["buffer"] = ("block", s["counter"], s["key"])
      s["pos"] = 0
    out = ("w64", s["buffer"], s["pos"], s["key"])
    s["pos"] += 1
    return out

  def _d32(self):
    s = self._st
    if s["has"]:
      s["has"] = 0
      return ("hi", s["half"])
    w = self._d64()
    s["has"], s["half"] = 1, w
    return ("lo", w)


class _Gen:

  def __init__(self, bit_generator):
    self.bit_generator = bit_generator

  def draw(self, kind):
    return self.bit_generator._d64() if kind == "d64" else self.bit_generator._d32()


def draw(rng, kind):
  if isinstance(rng, _Gen):
    return rng.draw(kind)
  import numpy as np

  if kind == "d64":
    return int(rng.bit_generator.random_raw())
  return int(rng.integers(0, 2**32, dtype=np.uint32))


class _SeedSeq:

  def __init__(self, entropy=None, **_):
    e = list(entropy) if isinstance(entropy, (list, tuple)) else [entropy]
    self.e = e

  def generate_state(self, n, dtype=None):
    # Pools of up to four words are padded with zeros.
    pad = [0] * max(0, 4 - len(self.e))
    return [("seed", tuple(self.e + pad), q) for q in range(n)]


class _FakeNp:
  """numpy with the generator classes replaced."""

  def __init__(self):
    import types

    import numpy as np

    self._np = np
    self.random = types.SimpleNamespace(Generator=_Gen, Philox=_Philox, SeedSequence=_SeedSeq)

  def array(self, x, dtype=None):
    x = list(x)
    for v in x:
      if is_sym(v) or isinstance(v, int):
        if v < 0 or v >= 2**64:
          raise OverflowError("out of bounds for uint64")
    return tuple(x)

  asarray = array

  def zeros(self, n, dtype=None):
    return (0,) * n

  def __getattr__(self, k):
    return getattr(self._np, k)


@contextlib.contextmanager
def rng_model(ctx):
  """Symbolic runs use the model, the replay uses numpy."""
  if not core.active():
    yield False
    return
  M = mods()
  fake = _FakeNp()
  old = M.map.np, M.dataset.np
  M.map.np = fake
  M.dataset.np = fake
  try:
    yield True
  finally:
    M.map.np, M.dataset.np = old


def _script(ctx, name="draws"):
  return ctx.choice(name, [("d64",), ("d32",), ("d32", "d64"), ("d64",) * 5, ("d32", "d32", "d32")])


class Fail(Exception):
  pass


def _fn(script, fail=()):
  """User function: draws according to `script`, sometimes fails afterwards."""
  left = list(fail)

  def f(x, rng):
    vals = [draw(rng, k) for k in script]
    if left and left.pop(0):
      raise Fail()
    return (x, vals)

  return f


# ---------------------------------------------------------------- P17


@harness("P17", "reads", "any 32-bit seed; two earlier reads (single or batched, possibly failing) at any index up to 2^40 with one of 5 draw patterns, then a read at any index: equal to the read of a fresh pipeline",
         quick_s=100, stubs=(S_RNG,), must_reach=("reuse",))
def p17_reads(ctx):
  seed = ctx.int("seed", 0, U32 - 1)
  script = _script(ctx)
  with rng_model(ctx):
    fails = [ctx.cbool(f"fail{q}") for q in range(2)]
    ds = raw_map(10).random_map(_fn(script, fails), seed=seed)
    for q in range(2):
      i = ctx.int(f"i{q}", 0, BIG)
      try:
        if ctx.cbool(f"batched{q}"):
          ds._getitems([i, ctx.int(f"i{q}b", 0, BIG)])
        else:
          ds[i]
      except Fail:
        pass
    if not all(fails):
      ctx.reach("reuse")
    j = ctx.int("j", 0, BIG)
    fresh = raw_map(10).random_map(_fn(script), seed=seed)
    want = fresh[j]
    how = ctx.choice("how", ["item", "items", "first", "last"])
    if how == "item":
      got = ds[j]
    elif how == "items":
      got = ds._getitems([j])[0]
    else:
      # In one batch with another position, in any order.
      o = ctx.int("other", 0, BIG)
      got = ds._getitems([j, o])[0] if how == "first" else ds._getitems([o, j])[1]
    ctx.eq(got, want, "a read depends on what was read before")


@harness("P09", "random_map", "random map, or a map with index, over any source length up to 2^40, optionally under a shuffle, a reversal or a repetition: 0..3 positions in any order, any epoch, repeats allowed, read at once and one by one",
         quick_s=60, stubs=(S_RNG, "the index permutation is an arbitrary permutation (proved in P01)"))
def p09_random(ctx):
  n = ctx.cint("n", 1, 3)
  seed = ctx.int("seed", 0, U32 - 1)
  with rng_model(ctx):
    ds = raw_map(n).random_map(_fn(("d64", "d32")), seed=seed)
    if ctx.cbool("index"):
      ds = ds.map_with_index(lambda i, x: (i, x))
    above = ctx.choice("above", ["none", "shuffle", "reverse", "repeat", "random"])
    if above == "shuffle":
      ds = ds.shuffle(seed=5)
    elif above == "reverse":
      ds = ds[::-1]
    elif above == "repeat":
      ds = ds.repeat(3)
    elif above == "random":
      ds = ds.random_map(lambda x, r: (x, draw(r, "d64")), seed=seed)
    L = len(ds)
    k = ctx.cint("how_many", 0, 3)
    idx = [ctx.int(f"e{q}", 0, 2**20) * L + ctx.cint(f"j{q}", 0, min(L, 3) - 1) for q in range(k)]
    one = [ds[i] for i in idx]
    many = list(ds._getitems(idx))
    ctx.check(len(many) == k, "number of elements of a batched read")
    ctx.eq(norm(many), norm(one), "batched read of a random map differs from single reads")


@harness("P17", "sampler", "samplers (index sampler with 1..4 shards, shuffled or not, sequential sampler) over any number of records up to 2^20 and any seed: the generators of two records differ unless they are the same position, and are reproducible",
         quick_s=60, stubs=(S_RNG,))
def p17_sampler(ctx):
  import importlib

  S = importlib.import_module("grain._src.python.samplers")
  shards = importlib.import_module("grain._src.core.sharding")
  sh = shards.ShardOptions
  n = ctx.cint("n", 1, 4)
  count = ctx.cint("shards", 1, 4 if ctx.tier == "thorough" else 2)
  seed = ctx.int("seed", 0, 2**31)
  kind = ctx.choice("kind", ["index", "shuffled", "sequential"])
  old = S.np
  if core.active():
    S.np = _FakeNp()
  try:

    def make():
      if kind == "sequential":
        return S.SequentialSampler(n, shards.NoSharding(), seed=seed)
      return S.IndexSampler(n, sh(0, count), shuffle=kind == "shuffled", num_epochs=None, seed=seed if kind == "index" else 7)

    top = n - 1 if kind == "sequential" else 2**20
    i, j = ctx.int("i", 0, top), ctx.int("j", 0, top)
    a, b, c = make()[i].rng, make()[j].rng, make()[i].rng
    a, b, c = [[draw(r, "d64"), draw(r, "d64")] for r in (a, b, c)]
    ctx.check(implies(deep_eq(a, b), i == j), "two records share their randomness")
    ctx.eq(a, c, "the randomness of a record is not reproducible")
  finally:
    S.np = old


@harness("P17", "distinct", "any seed, any two indices (or epochs): equal randomness only for equal indices; a different seed gives different randomness", quick_s=60, stubs=(S_RNG,))
def p17_distinct(ctx):
  seed = ctx.int("seed", 0, U32 - 1)
  seed2 = ctx.int("seed2", 0, U32 - 1)
  i, j = ctx.int("i", 0, BIG), ctx.int("j", 0, BIG)
  with rng_model(ctx):
    f = _fn(("d64", "d64"))
    a = raw_map(10).random_map(f, seed=seed)[i][1]
    b = raw_map(10).random_map(f, seed=seed)[j][1]
    c = raw_map(10).random_map(f, seed=seed2)[i][1]
    ctx.check(implies(deep_eq(a, b), i == j), "two elements share their randomness")
    ctx.check(implies(i == j, deep_eq(a, b)), "randomness of an element is not reproducible")
    ctx.check(implies(deep_eq(a, c), seed == seed2), "the seed does not matter")


@harness("P17", "epochs", "random_map below repeat (either reseeding mode) or shuffle over sources of any length up to 2^20: randomness is a function of the element's index including the epoch iff reseeding is on",
         quick_s=60, stubs=(S_RNG,))
def p17_epochs(ctx):
  n = ctx.int("n", 1, 2**20)
  seed = ctx.int("seed", 0, U32 - 1)
  reseed = ctx.cbool("reseed")
  e1, e2 = ctx.int("e1", 0, 2**20), ctx.int("e2", 0, 2**20)
  j = ctx.int("j", 0, 2**20)
  ctx.assume(j < n)
  with rng_model(ctx):
    ds = src_map(n).random_map(_fn(("d64",)), seed=seed).repeat(reseed_each_epoch=reseed)
    a, b = ds[e1 * n + j], ds[e2 * n + j]
    ctx.eq(a[0], b[0], "element differs between epochs")
    if reseed:
      ctx.check(implies(deep_eq(a[1], b[1]), e1 == e2), "two epochs share their randomness")
    else:
      ctx.eq(a[1], b[1], "epochs differ although reseeding is off")


@harness("P17", "missing", "1..4 elements with any subset missing: the randomness of the others is unaffected, random-access and stream", quick_s=60, stubs=(S_RNG,))
def p17_missing(ctx):
  n = ctx.cint("n", 1, 4)
  seed = ctx.int("seed", 0, U32 - 1)
  miss = [ctx.cbool(f"miss{q}") for q in range(n)]
  with rng_model(ctx):
    f = _fn(("d32", "d64"))
    full = src_map(n).random_map(f, seed=seed)
    part = src_map(n).filter(lambda x: not miss[x]).random_map(f, seed=seed)
    for q in range(n):
      ctx.eq(part[q], None if miss[q] else full[q], "a missing element changes the randomness of others")
    ctx.eq(list(part._getitems(list(range(n)))), [None if miss[q] else full[q] for q in range(n)], "batched read differs")


@harness("P17", "threads", "2 threads reading one element each (thorough: 1 and 2; any index, any seed) from one dataset read before (thorough: or not), switching between any two source lines of the generator pool and between draws, at most 2 preemptions",
         quick_s=120, thorough_s=400, stubs=(S_RNG, "threading is a model; the schedule is a symbolic input"))
def p17_threads(ctx):
  seed = ctx.int("seed", 0, U32 - 1)
  idx = [[ctx.int(f"i{t}{q}", 0, BIG) for q in range(2 if t and ctx.tier == "thorough" else 1)] for t in range(2)]
  M = mods()
  with rng_model(ctx):
    f = _fn(("d32", "d64"))
    want = [[raw_map(10).random_map(f, seed=seed)[i] for i in ii] for ii in idx]
    with sched.installed(ctx, preempt=3 if ctx.tier == "thorough" else 2, lines=(M.map.__file__,)) as s:

      def g(x, rng):
        v = [draw(rng, "d32")]
        s.point()
        v.append(draw(rng, "d64"))
        return (x, v)

      ds = raw_map(10).random_map(g, seed=seed)
      _ = ds._stats
      if ctx.tier == "quick" or ctx.cbool("warm"):
        ds[0]
      got = [[], []]

      def work(t):
        for i in idx[t]:
          got[t].append(ds[i])

      th = [sched.Thread(target=work, args=(t,)) for t in range(2)]
      for t in th:
        t.start()
      for t in th:
        t.join()
      ctx.check(not s.uncaught, f"a reading thread died: {s.uncaught}")
    ctx.eq(got, want, "concurrent reads get other randomness")


@harness("P17", "stream", "stream of 0..4 elements (any missing), any seed; checkpoint after any element, restore into a fresh or the same iterator: same randomness for the same element; positions distinct",
         quick_s=80, stubs=(S_RNG,))
def p17_stream(ctx):
  n = ctx.cint("n", 0, 4)
  seed = ctx.int("seed", 0, U32 - 1)
  script = _script(ctx)
  with rng_model(ctx):
    def build():
      return src_iter(n).random_map(_fn(script), seed=seed)

    ref = drain(build().__iter__())
    for a in range(len(ref)):
      for b in range(a):
        ctx.check(neg(deep_eq(ref[a][1], ref[b][1])), "two elements of a stream share their randomness")
    it = build().__iter__()
    k = ctx.cint("k", 0, n)
    take(it, k)
    st = it.get_state()
    take(it, ctx.cint("more", 0, 1))
    it2 = it if ctx.cbool("same") else build().__iter__()
    it2.set_state(jsonable(st))
    ctx.eq(drain(it2), ref[k:], "randomness differs after restoring")


@harness("P17", "stream_workers", "two worker processes of any number of workers up to 2^10, any positions up to 2^40: no two elements of different workers or positions share randomness",
         quick_s=60, stubs=(S_RNG,))
def p17_workers(ctx):
  M = mods()
  seed = ctx.int("seed", 0, U32 - 1)
  c = ctx.int("workers", 1, 2**10)
  p = [ctx.int(f"p{q}", 0, 2**10) for q in range(2)]
  i = [ctx.int(f"i{q}", 0, BIG) for q in range(2)]
  ctx.assume(conj([p[0] < c, p[1] < c]))
  with rng_model(ctx):
    got = []
    for q in range(2):
      it = src_iter(3).random_map(_fn(("d64",)), seed=seed).__iter__()
      it._ctx.mp_context = M.base.MultiprocessingContext(process_index=p[q], process_count=c)
      st = it.get_state()
      st["index_for_rng"] = i[q]
      it.set_state(st)
      got.append(next(it)[1])
    same = conj([p[0] == p[1], i[0] == i[1]])
    ctx.check(implies(deep_eq(got[0], got[1]), same), "two elements of different workers share their randomness")
    ctx.check(implies(same, deep_eq(got[0], got[1])), "randomness is not reproducible")


# Default seeds: pipelines as trees.


def _tree(ctx, name, depth, seeds):
  """A random pipeline; returns (dataset, random nodes below or at it)."""
  g = grain()
  ds = src_map(4)
  if ctx.cbool(name + "_seeded"):
    s = ctx.int(f"{name}_seed", 0, U32 - 1)
    seeds.append(s)
    ds = ds.seed(s)
  del g
  return ds


def _rand(x, rng):
  return x


@harness("P17", "default_seeds_chain", "chains of 1..4 stages (map, random_map, reseeding, slice, to stream) after seed(any 32-bit seed): every pair of random stages gets different default seeds, rebuilding gives the same ones",
         quick_s=100, stubs=(S_RNG,))
def p17_chain(ctx):
  s0 = ctx.int("s", 0, U32 - 1)
  s1 = ctx.int("s1", 0, U32 - 1)
  k = ctx.cint("stages", 1, 4)
  kinds = [ctx.choice(f"k{q}", ["random_map", "map", "slice", "seed", "iter"]) for q in range(k)]
  if kinds.count("seed") > 1 or kinds.count("iter") > 1 or kinds.count("random_map") < 1:
    return
  if "iter" in kinds and "slice" in kinds[kinds.index("iter"):]:
    return

  def build(second):
    ds = src_map(6).seed(s0)
    out, reseeded = [], False
    for kd in kinds:
      if kd == "random_map":
        ds = ds.random_map(_rand)
        out.append((ds._default_seed, reseeded))
      elif kd == "map":
        ds = ds.map(lambda x: x)
      elif kd == "slice":
        ds = ds.slice(slice(0, 4))
      elif kd == "seed":
        ds = ds.seed(second)
        reseeded = True
      else:
        ds = ds.to_iter_dataset(read0())
    return out

  with rng_model(ctx):
    a = build(s1)
    ctx.eq(build(s1), a, "default seeds are not reproducible")
    for x in range(len(a)):
      for y in range(x):
        if a[x][1] == a[y][1]:
          ctx.check(neg(deep_eq(a[x][0], a[y][0])), "two random transformations share their default seed")
    # A later seed() does not touch what is upstream of it, and replaces it downstream.
    b = build(s0)
    for x, y in zip(a, b):
      if not x[1]:
        ctx.eq(x[0], y[0], "seed() changes transformations upstream of it")
      else:
        ctx.check(implies(s0 != s1, neg(deep_eq(x[0], y[0]))), "seed() has no effect downstream")


@harness("P17", "default_seeds_branches", "zip and mix of two branches of 0..2 random maps with any seeds, then 1..2 random maps: stages downstream differ from each other and from those in the branches, and depend on both branches' seeds",
         quick_s=100, stubs=(S_RNG,))
def p17_branches(ctx):
  g = grain()
  s = [ctx.int(f"s{q}", 0, U32 - 1) for q in range(2)]
  s2 = ctx.int("other", 0, U32 - 1)
  nb = [ctx.cint(f"n{q}", 0, 2) for q in range(2)]
  how = ctx.choice("how", ["zip", "mix"])
  down = ctx.cint("down", 1, 2)
  unseeded = ctx.choice("unseeded", [None, 0, 1])

  def build(seeds):
    seen, ends = [], []
    for q in range(2):
      ds = src_map(4)
      if q != unseeded:
        ds = ds.seed(seeds[q])
        for _ in range(nb[q]):
          ds = ds.random_map(_rand)
          seen.append((q, ds._default_seed))
      ends.append(ds)
    ds = g.MapDataset.zip(ends) if False else (mods().zip.ZipMapDataset(ends) if how == "zip" else mods().mix.MixedMapDataset(ends, [0.5, 0.5]))
    for _ in range(down):
      ds = ds.random_map(_rand)
      seen.append((2, ds._default_seed))
    return seen

  with rng_model(ctx):
    a = build(s)
    ctx.eq(build(s), a, "default seeds are not reproducible")
    for x in range(len(a)):
      for y in range(x):
        if a[x][0] == 2 or a[x][0] == a[y][0]:
          ctx.check(neg(deep_eq(a[x][1], a[y][1])), "two random transformations of a pipeline share their default seed")
        else:
          ctx.check(implies(deep_eq(a[x][1], a[y][1]), s[0] == s[1]), "differently seeded branches share their default seeds")
    for q in range(2):
      if q == unseeded:
        continue
      t = list(s)
      t[q] = s2
      b = build(t)
      for x, y in zip(a, b):
        if x[0] == 2:
          ctx.check(implies(s[q] != s2, neg(deep_eq(x[1], y[1]))), "a branch's seed does not matter downstream")
        elif x[0] != q:
          ctx.eq(x[1], y[1], "a branch's seed changes another branch")


@harness("P17", "no_seed", "random_map and shuffle without any seed are refused, with a default or explicit one they are accepted; explicit seeds win", quick_s=30, stubs=(S_RNG,))
def p17_no_seed(ctx):
  with rng_model(ctx):
    kind = ctx.choice("kind", ["map", "iter"])
    base = src_map(3) if kind == "map" else src_iter(3)
    dflt = ctx.cbool("default")
    s = ctx.int("s", 0, U32 - 1)
    e = ctx.int("e", 0, U32 - 1)
    expl = ctx.cbool("explicit")
    if dflt:
      base = base.seed(s)
    f = _fn(("d64",))
    try:
      ds = base.random_map(f, seed=e) if expl else base.random_map(f)
    except ValueError:
      ctx.check(not dflt and not expl, "a seeded random_map is refused")
      return
    ctx.check(dflt or expl, "random_map without a seed is accepted")
    if expl:
      plain = src_map(3) if kind == "map" else src_iter(3)
      ctx.eq(list(ds), list(plain.random_map(f, seed=e)), "the explicit seed is not used alone")
