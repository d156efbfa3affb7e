"""The operations that work on iterators of records (legacy data loader API)."""

from harness.common import *  # noqa
from symx.registry import harness


def _mods():
  import importlib

  ops = importlib.import_module("grain._src.python.operations")
  packing = importlib.import_module("grain._src.python.experimental.example_packing.packing")
  rec = importlib.import_module("grain._src.python.record")
  return ops, packing, rec


def _records(ctx, rec, datas, name="i"):
  """Records with arbitrary indices; the key is arbitrary, zero included, or absent."""
  out = []
  for q, d in enumerate(datas):
    key = ctx.choice(f"key{name}{q}", [None, 0, 1]) if q == 0 else ctx.int(f"key{name}{q}", 0, BIG)
    out.append(rec.Record(rec.RecordMetadata(index=ctx.int(f"{name}{q}"), record_key=key, rng=f"rng-{name}{q}"), d))
  return out


def _flat(records):
  """What an output record tells: index, key, generator, data."""
  return [[r.metadata.index, r.metadata.record_key, r.metadata.rng, norm(r.data)] for r in records]


class _Boom(Exception):
  pass


def _drain_until_error(it):
  out = []
  try:
    for x in it:
      out.append(x)
  except ValueError as e:
    return out, e
  return out, None


@harness("P34", "elementwise", "0..4 records (thorough 5) with symbolic index, key and payload through map, random map or filter with a symbolic predicate; the user function fails at any one position or nowhere; input and records are not modified",
         quick_s=60, must_reach=("user error", "filtered"))
def p34_elementwise(ctx, tier="quick"):
  ops, _, rec = _mods()
  n = ctx.cint("n", 0, 4 if tier == "quick" else 5)
  fail = ctx.cint("fail", -1, n - 1)
  recs = _records(ctx, rec, [ctx.token(f"d{q}") for q in range(n)])
  before = _flat(recs)
  kind = ctx.choice("kind", ["map", "random", "filter"])
  limit = ctx.int("limit")
  calls = [0]

  def tick():
    calls[0] += 1
    if calls[0] - 1 == fail:
      raise _Boom("user")

  def fmap(d):
    tick()
    return ("out", d)

  def frand(d, rng):
    tick()
    return ("out", d, rng)

  def fpred(d):
    tick()
    return d < limit

  op = {"map": lambda: ops.MapOperation(fmap), "random": lambda: ops.RandomMapOperation(frand), "filter": lambda: ops.FilterOperation(fpred)}[kind]()
  got, err = _drain_until_error(op(iter(recs)))
  good = recs if fail < 0 else recs[:fail]
  want = []
  for r in good:
    if kind == "filter":
      if r.data < limit:
        want.append([r.metadata.index, None, r.metadata.rng, r.data])
      else:
        ctx.reach("filtered")
    elif kind == "map":
      want.append([r.metadata.index, None, r.metadata.rng, ["out", r.data]])
    else:
      want.append([r.metadata.index, None, r.metadata.rng, ["out", r.data, r.metadata.rng]])
  ctx.eq(_flat(got), want, f"{kind} output differs")
  ctx.check((err is not None) == (fail >= 0), "an error of the user function is lost or invented")
  if err is not None:
    ctx.reach("user error")
    ctx.check(isinstance(err.__cause__, _Boom), "the cause of the error is lost")
  ctx.check(calls[0] == (n if fail < 0 else fail + 1), "user function not called once per record")
  ctx.eq(_flat(recs), before, "the input records were modified")


@harness("P34", "lazy", "map, random map, filter and batch of an input that fails or is infinite after 0..3 records: every output is available as soon as its records are, and the input's error arrives after them", quick_s=40)
def p34_lazy(ctx):
  ops, _, rec = _mods()
  k = ctx.cint("k", 0, 3)
  b = ctx.cint("b", 1, 3)
  recs = _records(ctx, rec, [ctx.token(f"d{q}") for q in range(k)])
  kind = ctx.choice("kind", ["map", "random", "filter", "batch"])
  op = {"map": lambda: ops.MapOperation(lambda d: d), "random": lambda: ops.RandomMapOperation(lambda d, r: d),
        "filter": lambda: ops.FilterOperation(lambda d: True), "batch": lambda: ops.BatchOperation(b, batch_fn=list)}[kind]()

  def src():
    yield from recs
    raise _Boom("input")

  it = op(src())
  got = []
  try:
    while True:
      got.append(next(it))
  except _Boom:
    pass
  except StopIteration:
    ctx.check(False, "the input's error was swallowed")
  if kind == "batch":
    ctx.eq([norm(r.data) for r in got], [[r.data for r in recs[q:q + b]] for q in range(0, k - k % b, b)], "batches before the error differ")
  else:
    ctx.eq([r.data for r in got], [r.data for r in recs], "records before the error differ")


@harness("P34", "batch", "two successive inputs of 0..5 and 0..3 records (the first possibly abandoned after 0..2 batches), batch size 1..4, both remainder modes; user batch function or stacking; symbolic payloads, indices and keys",
         quick_s=120, must_reach=("partial", "dropped"))
def p34_batch(ctx, tier="quick"):
  ops, _, rec = _mods()
  n1 = ctx.cint("n1", 0, 5 if tier == "quick" else 7)
  n2 = ctx.cint("n2", 0, 3)
  b = ctx.cint("b", 1, 4)
  drop = ctx.cbool("drop")
  default = ctx.cbool("default")

  seen = []

  def bf(x):
    seen.append(x)  # the list handed over stays as it was
    return list(x)

  op = ops.BatchOperation(b, drop_remainder=drop, batch_fn=None if default else bf)
  if default:
    mk = lambda s, q: {"x": arr([ctx.token(f"{s}{q}")])}  # noqa
  else:
    mk = lambda s, q: ctx.token(f"{s}{q}")  # noqa
  r1 = _records(ctx, rec, [mk("a", q) for q in range(n1)], "i")
  r2 = _records(ctx, rec, [mk("b", q) for q in range(n2)], "j")

  def want(rs):
    out = []
    for a in range(0, len(rs), b):
      part = rs[a:a + b]
      if len(part) < b:
        ctx.reach("dropped" if drop else "partial")
        if drop:
          continue
      data = {"x": [norm(r.data)["x"] for r in part]} if default else [r.data for r in part]
      out.append([part[-1].metadata.index, None, part[-1].metadata.rng, data])
    return out

  it = op(iter(r1))
  stop = ctx.cint("stop", 0, 2) if ctx.cbool("abandon") else None
  w1 = want(r1)
  if stop is None:
    ctx.eq(_flat(drain(it)), w1, "batches differ")
  else:
    ctx.eq(_flat(take(it, stop)), w1[:stop], "batches differ")
  ctx.eq(_flat(drain(op(iter(r2)))), want(r2), "batches of a second input differ")
  if not default:
    ctx.check(all(0 < len(s) <= b for s in seen), "a batch function's argument grew after the call")


@harness("P34", "batch_shared_memory", "1..4 records of array structures stacked through shared memory, batch size 1..3: what is opened equals plain stacking; object arrays stay ordinary", quick_s=40,
         stubs=("values are concrete numpy arrays (shared memory is a system resource): shapes and sizes are the solver-chosen inputs",))
def p34_shm(ctx):
  import numpy as np
  ops, _, rec = _mods()
  import importlib
  shm = importlib.import_module("grain._src.python.ipc.shared_memory_array")
  n, b = ctx.cint("n", 1, 4), ctx.cint("b", 1, 3)
  w = ctx.cint("w", 0, 2)
  dt = ctx.choice("dtype", ["i8", "f4", "U3", object])
  mk = lambda q: {"x": np.full((w,), q, dtype=dt), "y": (np.int32(q), [q])}  # noqa
  recs = [rec.Record(rec.RecordMetadata(index=q), mk(q)) for q in range(n)]
  plain, shared = ops.BatchOperation(b), ops.BatchOperation(b)
  shared._enable_shared_memory()
  want = [r.data for r in drain(plain(iter(recs)))]
  got = [shm.open_from_shm(r.data) for r in drain(shared(iter(recs)))]
  M = mods()
  for g, v in zip(got, want):
    for x, y in zip(M.tree.flatten(g), M.tree.flatten(v)):
      ctx.check(x.shape == y.shape and x.dtype == y.dtype, "shape or type changed in shared memory")
      ctx.eq(norm(np.asarray(x)), norm(y), "values changed in shared memory")
  ctx.check(len(got) == len(want) == -(-n // b), "number of batches differs")


@harness("P34", "batch_structures", "2..3 records each of one of 5 structures: records of equal structure are stacked leaf by leaf, records of different structure are refused", quick_s=30, must_reach=("refused",))
def p34_structures(ctx):
  ops, _, rec = _mods()
  n = ctx.cint("n", 2, 3)
  shapes = [ctx.cint(f"s{q}", 0, 4) for q in range(n)]
  toks = [[ctx.token(f"t{q}"), ctx.token(f"u{q}")] for q in range(n)]

  def build(s, t):
    a, c = arr([t[0]]), arr([t[1]])
    return [{"x": a, "y": c}, {"x": a, "z": c}, [a, c], {"x": a}, {"x": [a, c]}][s]

  recs = [rec.Record(rec.RecordMetadata(index=q), build(s, t)) for q, (s, t) in enumerate(zip(shapes, toks))]
  try:
    got = drain(ops.BatchOperation(n)(iter(recs)))
  except TypeError:
    ctx.check(len(set(shapes)) > 1, "records of equal structure refused")
    ctx.reach("refused")
    return
  ctx.check(len(set(shapes)) == 1, "records of different structure were stacked")
  A, B = [[t[0]] for t in toks], [[t[1]] for t in toks]
  want = [{"x": A, "y": B}, {"x": A, "z": B}, [A, B], {"x": A}, {"x": [A, B]}][shapes[0]]
  ctx.eq(norm(got[0].data), want, "stacked leaves differ")


def _pack_ref(lens, caps, rows, max_seq):
  """First fit: per batch the rows as lists of (element, {feature: start})."""
  out, cur = [], None
  for e, ln in enumerate(lens):
    for attempt in (0, 1):
      if cur is None:
        cur = [{"els": [], "free": dict.fromkeys(caps, 0)} for _ in range(rows)]
      row = next((r for r in cur if (max_seq is None or len(r["els"]) < max_seq)
                  and all(r["free"][f] + ln[f] <= caps[f] for f in caps)), None)
      if row is not None:
        break
      out.append([r["els"] for r in cur])
      cur = None
    row["els"].append((e, dict(row["free"])))
    for f in caps:
      row["free"][f] += ln[f]
  if cur is not None:
    out.append([r["els"] for r in cur])
  return out


def _pack_want(recs, toks, lens, caps, rows, max_seq):
  want = []
  for batch in _pack_ref(lens, caps, rows, max_seq):
    last = max(e for r in batch for e, _ in r)
    three = []
    for what in ("data", "seg", "pos"):
      feat = {}
      for f, cap in caps.items():
        feat[f] = []
        for r in batch:
          line = [0] * cap
          for k, (e, start) in enumerate(r, 1):
            for w in range(lens[e][f]):
              line[start[f] + w] = toks[e][f][w] if what == "data" else k if what == "seg" else w
          feat[f].append(line)
      three.append(feat)
    want.append([recs[last].metadata.index, None, recs[last].metadata.rng, three])
  return want


def _pack_case(ctx, rec, name, feats, n, caps):
  lens = [{f: ctx.cint(f"{name}{q}{f}", 0, caps[f]) for f in feats} for q in range(n)]
  toks = [{f: [ctx.token(f"t{name}{q}{f}{w}") for w in range(k)] for f, k in ln.items()} for q, ln in enumerate(lens)]
  recs = _records(ctx, rec, [{f: arr(t[f]) for f in feats} for t in toks], name)
  return lens, toks, recs


@harness("P34", "pack", "0..4 sequences (thorough 5) of symbolic payloads, lengths 0..capacity, capacity 2..3, 1..2 rows, 1..2 or unlimited sequences per row",
         quick_s=120, thorough_s=400, must_reach=("second batch", "empty input"))
def p34_pack(ctx, tier="quick"):
  _, packing, rec = _mods()
  caps = {"x": ctx.cint("cap", 2, 3)}
  rows = ctx.cint("rows", 1, 2)
  max_seq = ctx.cint("max_seq", 0, 2) or None
  n = ctx.cint("n", 0, 4 if tier == "quick" else 5)
  lens, toks, recs = _pack_case(ctx, rec, "e", ["x"], n, caps)
  op = packing.PackAndBatchOperation(length_struct=dict(caps), batch_size=rows, max_sequences_per_bin=max_seq)
  want = _pack_want(recs, toks, lens, caps, rows, max_seq)
  ctx.eq(_flat(drain(op(iter(recs)))), want, "packed batches differ")
  if len(want) > 1:
    ctx.reach("second batch")
  if not n:
    ctx.reach("empty input")


@harness("P34", "pack_two_features", "0..3 elements of two features, lengths 0..capacity, capacities 2 and 1..2, 1..2 rows", quick_s=120, thorough_s=300)
def p34_pack2(ctx):
  _, packing, rec = _mods()
  caps = {"x": 2, "y": ctx.cint("cap_y", 1, 2)}
  rows = ctx.cint("rows", 1, 2)
  lens, toks, recs = _pack_case(ctx, rec, "e", ["x", "y"], ctx.cint("n", 0, 3), caps)
  op = packing.PackAndBatchOperation(length_struct=dict(caps), batch_size=rows)
  ctx.eq(_flat(drain(op(iter(recs)))), _pack_want(recs, toks, lens, caps, rows, None), "packed batches differ")


@harness("P34", "pack_twice", "the same operation applied to two successive inputs of 0..3 and 0..2 sequences, the first read completely or abandoned after 0..1 batches: the second output is that of a fresh operation; earlier outputs do not change",
         quick_s=120, must_reach=("abandoned",))
def p34_pack_twice(ctx):
  _, packing, rec = _mods()
  caps = {"x": 2}
  rows = ctx.cint("rows", 1, 2)
  l1, t1, r1 = _pack_case(ctx, rec, "a", ["x"], ctx.cint("n1", 0, 3), caps)
  l2, t2, r2 = _pack_case(ctx, rec, "b", ["x"], ctx.cint("n2", 0, 2), caps)
  op = packing.PackAndBatchOperation(length_struct=dict(caps), batch_size=rows)
  w1 = _pack_want(r1, t1, l1, caps, rows, None)
  stop = ctx.cint("stop", 0, 2)
  it = op(iter(r1))
  first = drain(it) if stop == 2 else take(it, stop)
  w1 = w1 if stop == 2 else w1[:stop]
  ctx.eq(_flat(first), w1, "packed batches differ")
  if stop < 2:
    ctx.reach("abandoned")
  ctx.eq(_flat(drain(op(iter(r2)))), _pack_want(r2, t2, l2, caps, rows, None), "packed batches of a second input differ")
  ctx.eq(_flat(first), w1, "a delivered batch changed later")


@harness("P34", "pack_too_long", "1..3 sequences of length 0..3 with capacity 2: a sequence that does not fit is refused, not cut, at its position and after the batches before it", quick_s=40, must_reach=("refused",))
def p34_long(ctx):
  _, packing, rec = _mods()
  caps = {"x": 2}
  n = ctx.cint("n", 1, 3)
  lens = [ctx.cint(f"l{q}", 0, 3) for q in range(n)]
  toks = [[ctx.token(f"t{q}{w}") for w in range(k)] for q, k in enumerate(lens)]
  recs = _records(ctx, rec, [{"x": arr(t)} for t in toks])
  got, err = _drain_until_error(packing.PackAndBatchOperation(length_struct=caps, batch_size=1)(iter(recs)))
  bad = next((q for q, k in enumerate(lens) if k > 2), n)
  ctx.check((err is not None) == (bad < n), "over-long sequence accepted or valid ones refused")
  want = _pack_want(recs[:bad], [{"x": t} for t in toks], [{"x": k} for k in lens[:bad]], caps, 1, None)
  if err is not None:
    ctx.reach("refused")
    want = want[:len(want) - 1] if want else []
  ctx.eq(_flat(got), want, "batches differ")


@harness("P34", "chain", "filter, map, batch chained over 0..5 records with symbolic payloads, predicate and indices, batch size 1..3: batches consist of the accepted records in order and carry the last accepted record's index", quick_s=60)
def p34_chain(ctx):
  ops, _, rec = _mods()
  n, b = ctx.cint("n", 0, 5), ctx.cint("b", 1, 3)
  keep = ctx.cbool("keep")
  limit = ctx.int("limit")
  recs = _records(ctx, rec, [ctx.token(f"d{q}") for q in range(n)])
  it = ops.FilterOperation(lambda d: d >= limit)(iter(recs))
  it = ops.MapOperation(lambda d: (d, 1))(it)
  it = ops.BatchOperation(b, drop_remainder=not keep, batch_fn=list)(it)
  got = _flat(drain(it))
  acc = [r for r in recs if r.data >= limit]
  cuts = [acc[q:q + b] for q in range(0, len(acc), b)]
  if not keep:
    cuts = [c for c in cuts if len(c) == b]
  ctx.eq(got, [[c[-1].metadata.index, None, c[-1].metadata.rng, [[r.data, 1] for r in c]] for c in cuts], "batches differ")
