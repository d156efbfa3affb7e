"""Sources, observers and references shared by the harnesses.

Nothing here imports grain at module level: run.py decides first whether the
process is symbolic (proxies, shadowed builtins) or concrete (nothing patched).
"""

import copy

from symx import core
from symx.core import conj, deep_eq, disj, implies, is_sym, neg  # noqa: F401

BIG = 2**40  # epochs and element indices range over [0, BIG] unless stated


def grain():
  import grain as g
  import grain.experimental  # noqa
  return g


def mods():
  """Namespace of the implementation modules."""
  import importlib
  import types

  ns = types.SimpleNamespace()
  base = "grain._src.python.dataset."
  t = base + "transformations."
  for k, m in {
      "dataset": base + "dataset", "base": base + "base", "stats": base + "stats",
      "batch": t + "batch", "cache": t + "cache", "filter": t + "filter", "flatmap": t + "flatmap",
      "interleave": t + "interleave", "limit": t + "limit", "map": t + "map", "mix": t + "mix",
      "packing": t + "packing", "pb": t + "packing_packed_batch", "cts": t + "packing_concat_then_split",
      "prefetch": t + "prefetch", "autotune": t + "prefetch_autotune", "pp": t + "process_prefetch",
      "rebatch": t + "rebatch", "repeat": t + "repeat", "shuffle": t + "shuffle", "slice": t + "slice",
      "source": t + "source", "zip": t + "zip", "elastic": base + "elastic_iterator",
      "tree": "grain._src.core.tree_lib", "sharding": "grain._src.core.sharding",
      "transforms": "grain._src.core.transforms", "samplers": "grain._src.python.samplers",
      "options": "grain._src.python.options", "record": "grain._src.python.record",
      "exceptions": "grain._src.core.exceptions",
  }.items():
    ns.__dict__[k] = importlib.import_module(m)
  return ns


class Src:
  """Random access source of n elements; element i is i (or tokens[i])."""

  def __init__(self, n, tokens=None):
    self.n = n
    self.tokens = tokens

  def __len__(self):
    return self.n

  def __getitem__(self, i):
    if self.tokens is None:
      return i
    return self.tokens[i.__index__() if is_sym(i) else i]

  def __repr__(self):
    return "Src"


def raw_map(n):
  """A root MapDataset that returns the very index it is asked for.

  It makes every index (epoch included) that reaches the source observable.
  """
  M = mods()

  class RawMap(M.dataset.MapDataset):

    def __len__(self):
      return n

    def __getitem__(self, index):
      if isinstance(index, slice):
        return self.slice(core.sym_slice(index, n))
      return index

    def __str__(self):
      return "RawMap"

  return RawMap()


def src_map(n, tokens=None):
  return grain().MapDataset.source(Src(n, tokens))


def read0():
  return grain().ReadOptions(num_threads=0, prefetch_buffer_size=0)


def src_iter(n, tokens=None):
  return src_map(n, tokens).to_iter_dataset(read0())


def list_iter(items):
  """IterDataset over python objects (elements need not be numbers)."""
  return src_map(len(items), list(items)).to_iter_dataset(read0())


def slice_ref(n, start, stop, step):
  """Python slicing of range(n), written independently of slice.indices."""
  return list(range(n))[start:stop:step]


def drain(it, limit=400):
  out = []
  while True:
    try:
      out.append(next(it))
    except StopIteration:
      return out
    if len(out) > limit:
      raise AssertionError(f"iterator does not stop after {limit} elements")


def take(it, k):
  """k elements, fewer if the iterator ends."""
  out = []
  for _ in range(k):
    try:
      out.append(next(it))
    except StopIteration:
      break
  return out


def jsonable(x):
  """What a JSON round trip does to a state (works on symbolic leaves too)."""
  if isinstance(x, dict):
    return {k if isinstance(k, str) else _jkey(k): jsonable(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [jsonable(v) for v in x]
  if is_sym(x) or x is None or isinstance(x, (bool, int, float, str)):
    return x
  raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")


def _jkey(k):
  if k is True:
    return "true"
  if k is False:
    return "false"
  if k is None:
    return "null"
  if isinstance(k, (int, float)):
    return str(k)
  raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")


def norm(x):
  """Elements as plain nested lists/dicts (numpy arrays become lists)."""
  if isinstance(x, dict):
    return {k: norm(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [norm(v) for v in x]
  if hasattr(x, "tolist") and hasattr(x, "shape"):
    return norm(x.tolist())
  return x


def arr(tokens):
  import numpy as np

  a = np.empty(len(tokens), dtype=object)
  for i, t in enumerate(tokens):
    a[i] = t
  return a


def is_perm_of(ctx, xs, ys, msg):
  """xs is a rearrangement of the pairwise distinct ys."""
  ctx.check(len(xs) == len(ys), msg + ": wrong number of elements")
  for y in ys:
    ctx.check(disj([deep_eq(x, y) for x in xs]), msg + ": an element is missing")


# --------------------------------------------------------------------------
# checkpointing
# --------------------------------------------------------------------------


def checkpoint_law(ctx, build, max_out, *, json=True, modes=("fresh", "same", "used")):
  """The state law for one pipeline.

  build() returns an IterDataset (same inputs each time).  Reads the reference
  stream, then: take the state after k elements; read on; restore into a fresh,
  the same, or an independently used iterator (optionally through JSON); the
  remaining stream has to be the reference's suffix and the state must not have
  been touched by reading on or by restoring.
  """
  deep = ctx.tier == "thorough"
  ref = norm(take(build().__iter__(), max_out + 1))
  ended = len(ref) <= max_out
  # Reads stay inside the window when the stream is longer than it.
  k = ctx.cint("k", 0, len(ref) if ended else max_out - 4)
  it = build().__iter__()
  got = norm(take(it, k))
  ctx.eq(got, ref[:k], "prefix before the checkpoint differs between two iterators")
  if k == len(ref) and ended and ctx.cbool("observed_end"):
    # The state after the end was observed is also a valid checkpoint.
    ctx.check(not take(it, 1), "stream longer than the reference")
  state = it.get_state()
  keep = copy.deepcopy(state)
  # Taking the state must not disturb the stream, however often it is taken.
  ctx.eq(jsonable(it.get_state()), jsonable(keep), "two consecutive states differ")
  mode = ctx.choice("mode", list(modes))
  if deep:
    m = ctx.cint("more", 0, 2)
    via_json = json and ctx.cbool("json")
  else:
    m = ctx.cint("more", 0, 2) if mode == "same" else ctx.choice("more", [0, 2])
    via_json = json and mode == "fresh"
  ctx.eq(norm(take(it, m)), ref[k:k + m], "stream after get_state differs")
  ctx.eq(_plain(state), _plain(keep), "the state changed when the iterator was read on")
  if mode == "fresh":
    it2 = build().__iter__()
  elif mode == "same":
    it2 = it
  else:
    it2 = build().__iter__()
    take(it2, ctx.cint("used", 1, max(1, min(3 if deep else 2, len(ref)))))
  st = jsonable(state) if via_json else state
  keep2 = copy.deepcopy(st)
  it2.set_state(st)
  # A checkpoint of the restored iterator describes the same position.
  k2 = ctx.cint("second", 0, 2 if deep else 1)
  got = norm(take(it2, k2))
  ctx.eq(got, ref[k:k + k2], "restored stream differs")
  st2 = it2.get_state()
  if json and (ctx.cbool("json2") if deep else not via_json):
    st2 = jsonable(st2)
  it3 = build().__iter__()
  it3.set_state(copy.deepcopy(st2))
  rest3 = norm(take(it3, max_out - k - len(got)))
  ctx.eq(rest3, ref[k + len(got):max_out], "stream restored from a second checkpoint differs")
  rest = norm(take(it2, max_out - k - len(got)))
  ctx.eq(rest, ref[k + len(got):max_out], "restored stream differs")
  if ended:
    ctx.check(not take(it2, 1), "restored iterator continues after the end")
    ctx.check(not take(it3, 1), "restored iterator continues after the end")
  ctx.eq(_plain(st), _plain(keep2), "set_state or later reads modified the caller's state")
  if k and k < len(ref):
    ctx.reach("mid-stream restore")


def _plain(x):
  if isinstance(x, dict):
    return {k: _plain(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [_plain(v) for v in x]
  return x
