"""Cache, limit, nested structures, parallel helper, options."""

import sys

from harness.common import *  # noqa
from symx import sched
from symx.registry import harness

# ------------------------------------------------------------------ P33


def _histories(ctx, build, ref, nops, names=2, json=True):
  """Two iterators exchange states in every order; positions are tracked.

  Every read has to deliver the element at the position that the history
  implies.
  """
  its = [build().__iter__()]
  pos = [0]
  saved = []
  for q in range(nops):
    ops = ["read", "save"] + (["restore"] if saved else []) + (["drain"] if q < nops - 1 else [])
    op = ctx.choice(f"op{q}", ops)
    w = ctx.cint(f"w{q}", 0, min(len(its), names - 1)) if op != "save" else ctx.cint(f"w{q}", 0, len(its) - 1)
    if w == len(its):
      its.append(build().__iter__())
      pos.append(0)
    if op == "read":
      got = norm(take(its[w], 1))
      ctx.eq(got, ref[pos[w]:pos[w] + 1], "a read delivers another element than the one at its position")
      pos[w] += len(got)
    elif op == "drain":
      ctx.eq(norm(drain(its[w])), ref[pos[w]:], "the rest of the stream differs")
      pos[w] = len(ref)
    elif op == "save":
      st = its[w].get_state()
      saved.append((pos[w], jsonable(st) if json else copy.deepcopy(st)))
    else:
      p, st = saved[ctx.cint(f"which{q}", 0, len(saved) - 1)]
      its[w].set_state(copy.deepcopy(st))
      pos[w] = p
  for w, it in enumerate(its):
    ctx.eq(norm(drain(it)), ref[pos[w]:], "the rest of the stream differs")


@harness("P33", "histories", "streams of 0..3 elements with symbolic payloads; 5 (thorough 6) operations out of read, read to the end, save, restore over two iterators that exchange states",
         quick_s=120, thorough_s=600)
def p33_histories(ctx):
  n = ctx.cint("n", 0, 3)
  toks = [ctx.token(f"t{q}") for q in range(n)]
  build = lambda: mods().cache.CacheIterDataset(src_iter(n, toks))
  _histories(ctx, build, toks, 6 if ctx.tier == "thorough" else 5)


@harness("P33", "passes", "streams of 0..4 elements, 1..3 passes through repeat, checkpoint anywhere in them restored into a fresh or the same iterator", quick_s=60, must_reach=("later pass",))
def p33_passes(ctx):
  n = ctx.cint("n", 0, 4)
  r = ctx.cint("passes", 1, 3)
  M = mods()
  toks = [ctx.token(f"t{q}") for q in range(n)]
  reads = []

  def see(x):
    reads.append(1)
    return x

  build = lambda: M.repeat.RepeatIterDataset(M.cache.CacheIterDataset(src_iter(n, toks).map(see)), r)
  it = build().__iter__()
  ref = toks * r
  k = ctx.cint("k", 0, n * r)
  ctx.eq(take(it, k), ref[:k], "cached passes differ")
  st = jsonable(it.get_state())
  if ctx.cbool("continue"):
    ctx.eq(drain(it), ref[k:], "cached passes differ")
    ctx.check(len(reads) == n, "the parent is read more than once")
  it2 = build().__iter__() if ctx.cbool("fresh") else it
  it2.set_state(st)
  ctx.eq(drain(it2), ref[k:], "restored cached passes differ")
  if k > n:
    ctx.reach("later pass")


@harness("P33", "stack", "cache between map, batch 1..2 and repeat over 1..3 elements: checkpoint law of the whole pipeline", quick_s=80)
def p33_stack(ctx):
  n = ctx.cint("n", 1, 3)
  b = ctx.cint("b", 1, 2)
  M = mods()
  build = lambda: M.repeat.RepeatIterDataset(M.cache.CacheIterDataset(src_iter(n).map(lambda x: ("m", x)).batch(b, batch_fn=list)).map(lambda x: ("n", x)), 2)
  checkpoint_law(ctx, build, 2 * ((n + b - 1) // b) + 1)


# ------------------------------------------------------------------ P37


@harness("P37", "any_size", "streams and limits of any size up to 2^40: the element at any position (moved to), or the end, is right; nothing is read past the limit", quick_s=40)
def p37_any(ctx):
  n = ctx.int("n", 0, BIG)
  k = ctx.int("k", 1, BIG)
  M = mods()
  it = M.limit.LimitIterDataset(raw_map(n).to_iter_dataset(read0()), k).__iter__()
  j = ctx.int("j", 0, BIG)
  ctx.assume(conj([j <= n, j <= k]))
  it.set_state({"parent": {"next_index": j}, "count_elements_read": j})
  for _ in range(3):
    try:
      x = next(it)
      ctx.check(conj([j < n, j < k]), "an element past the limit")
      ctx.eq(x, j, "another element than the one at its position")
      j = j + 1
    except StopIteration:
      ctx.check(disj([j >= n, j >= k]), "the limit ends the stream early")
    ctx.eq(it.get_state(), {"parent": {"next_index": j}, "count_elements_read": j}, "the parent was read past the limit")


@harness("P37", "histories", "streams of 0..4 elements, limits 1..5, 4 (thorough 5) operations out of read, read to the end, save, restore over two iterators; parent never read past the limit",
         quick_s=100, thorough_s=400)
def p37_histories(ctx):
  n = ctx.cint("n", 0, 4)
  k = ctx.cint("k", 1, 5)
  seen = []

  def see(x):
    seen.append(x)
    return x

  build = lambda: mods().limit.LimitIterDataset(src_iter(n).map(see), k)
  _histories(ctx, build, list(range(min(n, k))), 5 if ctx.tier == "thorough" else 4)
  ctx.check(all(x < k for x in seen), "the parent is read past the limit")


@harness("P37", "nested", "limit of batch, limit of limit, batch of limit, repeat of limit over 0..5 elements: exact contents, refusal of limits below 1", quick_s=40)
def p37_nested(ctx):
  M = mods()
  L = M.limit.LimitIterDataset
  n = ctx.cint("n", 0, 5)
  a, b = ctx.cint("a", 1, 4), ctx.cint("b", 1, 3)
  base = list(range(n))
  kind = ctx.choice("kind", ["limit batch", "limit limit", "batch limit", "repeat limit", "invalid"])
  if kind == "invalid":
    bad = ctx.int("bad", -5, 0)
    try:
      L(src_iter(n), bad)
    except ValueError:
      return
    ctx.check(False, "a limit below 1 is accepted")
  ds = src_iter(n)
  if kind == "limit batch":
    ds, want = L(ds.batch(b, batch_fn=list), a), [base[q:q + b] for q in range(0, n, b)][:a]
  elif kind == "limit limit":
    ds, want = L(L(ds, a), b), base[:min(a, b)]
  elif kind == "batch limit":
    c = base[:a]
    ds, want = L(ds, a).batch(b, batch_fn=list), [c[q:q + b] for q in range(0, len(c), b)]
  else:
    ds, want = M.repeat.RepeatIterDataset(L(ds, a), b), base[:a] * b
  it = ds.__iter__()
  ctx.eq(drain(it), want, "limited stream differs")
  ctx.check(not take(it, 2), "the stream continues after its end")


# ------------------------------------------------------------------ P32

_fb = None


def _fallback():
  """The tree module as it is loaded when JAX is not installed."""
  global _fb
  if _fb is None:
    import importlib.util

    real = mods().tree
    spec = importlib.util.spec_from_file_location("grain._src.core.tree_lib__nojax", real.__file__)
    m = importlib.util.module_from_spec(spec)
    saved = {k: sys.modules[k] for k in list(sys.modules) if k == "jax" or k.startswith("jax.")}
    for k in saved:
      sys.modules[k] = None
    sys.modules["jax"] = None
    try:
      spec.loader.exec_module(m)
    finally:
      del sys.modules["jax"]
      sys.modules.update(saved)
    _fb = m
  return _fb


import collections  # noqa: E402

Pt = collections.namedtuple("Pt", ["x", "y"])


class Leafs:

  def __init__(self, ctx):
    self.ctx = ctx
    self.n = 0

  def __call__(self):
    self.n += 1
    return self.ctx.token(f"leaf{self.n}")


def _shape(ctx, name, depth, kinds=("leaf", "list", "tuple", "dict", "rdict", "pt", "odict", "ddict", "empty")):
  """A nesting; returns a constructor taking a leaf source."""
  k = ctx.choice(name, list(kinds) if depth else ["leaf"])
  if k == "leaf":
    return ("leaf",)
  if k == "empty":
    return ("empty", ctx.choice(name + "e", ["list", "tuple", "dict"]))
  n = 2 if k == "pt" else ctx.cint(name + "n", 1, 2)
  return (k,) + tuple(_shape(ctx, f"{name}.{q}", depth - 1, kinds) for q in range(n))


def _make(s, leaf):
  k, kids = s[0], s[1:]
  if k == "leaf":
    return leaf()
  if k == "empty":
    return {"list": [], "tuple": (), "dict": {}}[s[1]]
  vals = [_make(x, leaf) for x in kids]
  if k == "list":
    return vals
  if k == "tuple":
    return tuple(vals)
  if k == "pt":
    return Pt(*vals)
  keys = ["a", "b"][:len(vals)]
  if k == "dict":
    return dict(zip(keys, vals))
  if k == "rdict":
    return dict(reversed(list(zip(keys, vals))))
  if k == "odict":
    return collections.OrderedDict(reversed(list(zip(keys, vals))))
  d = collections.defaultdict(list)
  d.update(zip(keys, vals))
  return d


def _leaves(s, t):
  """Reference: (path, leaf) in the documented order (sorted dictionary keys)."""
  k = s[0]
  if k == "leaf":
    return [((), t)]
  if k == "empty":
    return []
  out = []
  if k in ("list", "tuple", "pt"):
    for q, x in enumerate(s[1:]):
      out += [((q,) + p, v) for p, v in _leaves(x, t[q])]
  else:
    items = list(zip(["a", "b"], s[1:]))
    for key, x in reversed(items) if k == "odict" else items:
      out += [((key,) + p, v) for p, v in _leaves(x, t[key])]
  return out


def _same(ctx, a, b, msg):
  """Same containers (types and keys in place) and equal leaves."""
  if isinstance(a, (list, tuple, dict)) or isinstance(b, (list, tuple, dict)):
    ctx.check(type(a) is type(b), msg + ": container type")
    if isinstance(a, dict):
      ctx.check(list(a) == list(b) if isinstance(a, collections.OrderedDict) else sorted(a) == sorted(b), msg + ": keys")
      for k in a:
        _same(ctx, a[k], b[k], msg)
    else:
      ctx.check(len(a) == len(b), msg + ": length")
      for x, y in zip(a, b):
        _same(ctx, x, y, msg)
  else:
    ctx.eq(a, b, msg)


def _pathkey(p):
  """Path entries of JAX (SequenceKey, DictKey, GetAttrKey) as plain keys."""
  out = []
  for e in p:
    if hasattr(e, "key"):
      out.append(e.key)
    elif hasattr(e, "idx"):
      out.append(e.idx)
    elif hasattr(e, "name"):
      out.append({"x": 0, "y": 1}[e.name])
    else:
      out.append(e)
  return tuple(out)


def _lib(ctx):
  return mods().tree if ctx.choice("impl", ["jax", "fallback"]) == "jax" else _fallback()


def _cut(s, t):
  """Reference: lists mapped as a whole."""
  if s[0] == "leaf" or isinstance(t, list):
    return ("f", t)
  if s[0] == "empty":
    return t
  if s[0] in ("tuple", "pt"):
    vals = [_cut(x, v) for x, v in zip(s[1:], t)]
    return Pt(*vals) if s[0] == "pt" else tuple(vals)
  out = copy.copy(t)
  for key, x in zip(["a", "b"], s[1:]):
    out[key] = _cut(x, t[key])
  return out


@harness("P32", "one_tree", "every nesting of depth 2 with 1..2 children out of lists, tuples, named tuples, dictionaries (both insertion orders), ordered and default dictionaries, empty containers; symbolic leaves; both implementations",
         quick_s=150, thorough_s=400)
def p32_one(ctx):
  s = _shape(ctx, "s", 2)
  L = _lib(ctx)
  t = _make(s, Leafs(ctx))
  ref = _leaves(s, t)
  flat = list(L.flatten(t))
  ctx.eq(flat, [v for _, v in ref], "leaf order")
  _same(ctx, L.unflatten_as(t, flat), t, "unflatten does not restore the structure")
  got = [(_pathkey(p), v) for p, v in L.flatten_with_path(t)]
  ctx.eq([p for p, _ in got], [p for p, _ in ref], "paths")
  ctx.eq([v for _, v in got], [v for _, v in ref], "leaf order with paths")
  m = L.map_structure(lambda x: ("f", x), t)
  _same(ctx, L.map_structure(lambda x: x, t), t, "identity map")
  want = L.unflatten_as(t, [("f", v) for v in flat])
  _same(ctx, m, want, "map differs from flatten, map, unflatten")
  # Lists are leaves on request.
  cut = L.map_structure(lambda x: ("f", x), t, is_leaf=lambda x: isinstance(x, list))
  _same(ctx, cut, _cut(s, t), "map down to the leaves that the caller defines")
  paths = []
  L.map_structure_with_path(lambda p, x: paths.append((_pathkey(p), x)), t)
  ctx.check(sorted(p for p, _ in paths) == sorted(p for p, _ in ref), "paths seen by map_structure_with_path")
  for p, x in paths:
    ctx.eq(x, dict(ref)[p], "map_structure_with_path pairs a path with another leaf")
  L.assert_same_structure(t, _make(s, Leafs(ctx)))


@harness("P32", "two_trees", "every pair of nestings of depth 1..2 out of lists, tuples, dictionaries, named tuples and leaves: corresponding leaves are paired, different structures refused, both implementations",
         quick_s=150, thorough_s=500)
def p32_two(ctx):
  kinds = ("leaf", "list", "dict", "pt") if ctx.tier == "thorough" else ("leaf", "list", "dict")
  a = _shape(ctx, "a", 2, kinds)
  same = ctx.cbool("same")
  b = a if same else _shape(ctx, "b", 1 if ctx.tier == "quick" else 2, kinds)
  L = _lib(ctx)
  lf = Leafs(ctx) if same else lambda: "leaf"
  ta, tb = _make(a, lf), _make(b, lf)
  try:
    L.assert_same_structure(ta, tb)
    ok = True
  except (ValueError, AssertionError):
    ok = False
  ctx.eq(ok, a == b, "assert_same_structure")
  if a == b:
    pairs = L.map_structure(lambda x, y: ("pair", x, y), ta, tb)
    fa, fb = L.flatten(ta), L.flatten(tb)
    _same(ctx, pairs, L.unflatten_as(ta, [("pair", x, y) for x, y in zip(fa, fb)]), "leaves of several trees are not paired")
  elif _count(a) != _count(b) and not _prefix(a, b):
    try:
      L.map_structure(lambda x, y: x, ta, tb)
    except Exception:  # noqa: the kind of error is not specified
      pass
    else:
      ctx.check(False, "different structures are paired")
  if not same:
    return
  n = len(L.flatten(ta))
  wrong = ctx.choice("wrong", [-1, 1])
  if n + wrong >= 0:
    try:
      L.unflatten_as(ta, ["z"] * (n + wrong))
    except Exception:  # noqa
      pass
    else:
      ctx.check(False, "unflatten accepts a wrong number of leaves")


def _count(s):
  return 1 if s[0] == "leaf" else sum(_count(x) for x in s[1:] if isinstance(x, tuple))


def _prefix(a, b):
  """a is b with subtrees replaced by leaves (mapping such pairs is allowed)."""
  if a[0] == "leaf":
    return True
  return a[0] == b[0] and len(a) == len(b) and all(_prefix(x, y) for x, y in zip(a[1:], b[1:]))


@harness("P32", "up_to", "map_structure_up_to: every nesting of depth 1 and every nesting of depth 2 of lists and dictionaries (both insertion orders; thorough: all kinds) as the shallow structure of a deeper one", quick_s=60, thorough_s=200)
def p32_upto(ctx):
  kinds = ("leaf", "list", "tuple", "dict", "rdict", "pt", "odict", "ddict")
  depth = ctx.cint("depth", 1, 2)
  s = _shape(ctx, "s", depth, kinds if depth == 1 or ctx.tier == "thorough" else ("leaf", "list", "rdict"))
  L = _lib(ctx)
  lf = Leafs(ctx)

  def deep():
    return [lf(), {"k": lf()}]

  t = _make(s, deep)
  shallow = _make(s, lambda: 0)
  got = L.map_structure_up_to(shallow, lambda x: ("f", x), t)

  it = [v for _, v in _leaves(s, t)]
  flat = [v for _, v in _leaves(s, got)]
  ctx.eq(flat, [("f", v) for v in it], "the shallow structure decides where the function is applied")


# ------------------------------------------------------------------ P35

S_SCHED = "threads and pools are models whose operations are atomic; the schedule is a symbolic input"


class Bang(Exception):
  pass


@harness("P35", "calls", "0..3 (thorough 4) calls on 1..2 (thorough 3) workers, every subset failing, schedules with at most 1 (thorough 2) preemptions: results in order, each call once, failures raised",
         quick_s=120, thorough_s=400, stubs=(S_SCHED,), must_reach=("failure", "success"))
def p35_calls(ctx):
  import importlib

  par = importlib.import_module("grain._src.core.parallel")
  deep = ctx.tier == "thorough"
  n = ctx.cint("n", 0, 4 if deep else 3)
  w = ctx.cint("workers", 1, 3 if deep else 2)
  fails = [ctx.cbool(f"fail{q}") for q in range(n)]
  ran = []
  toks = [ctx.token(f"t{q}") for q in range(n)]
  with sched.installed(ctx, preempt=2 if deep else 1) as s:

    def f(i, x):
      ran.append(i)
      s.point()
      if fails[i]:
        raise Bang(i)
      return ("r", i, x)

    try:
      got = par.run_in_parallel(f, [{"i": q, "x": toks[q]} for q in range(n)], w)
      err = None
    except Bang as e:
      err = e
    ctx.check(not s.alive() or err is not None or True, "")
  ctx.check(len(set(ran)) == len(ran), "a call ran twice")
  if err is None:
    ctx.check(not any(fails), "a failure is swallowed")
    ctx.check(sorted(ran) == list(range(n)), "a call did not run")
    ctx.eq(got, [("r", q, toks[q]) for q in range(n)], "results are out of order")
    ctx.reach("success")
  else:
    ctx.check(fails[err.args[0]], "an error of a call that did not fail")
    ctx.reach("failure")


@harness("P35", "workers", "any number of workers below 1 is refused", quick_s=20)
def p35_workers(ctx):
  import importlib

  par = importlib.import_module("grain._src.core.parallel")
  w = ctx.int("w", -100, 0)
  try:
    par.run_in_parallel(lambda: 1, [{}], w)
    ok = True
  except ValueError:
    ok = False
  ctx.check(not ok, "an invalid number of workers is accepted")
