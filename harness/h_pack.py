"""Rebatching and packing: exact contents, and checkpoints inside packing."""

from harness.common import *  # noqa
from symx.registry import harness

# ------------------------------------------------------------------ P18


@harness("P18", "rows", "0..4 input batches of 1..3 rows (two features, symbolic payloads), target size 1..5, both remainder modes",
         quick_s=120, thorough_s=300, must_reach=("carry",))
def p18_rows(ctx, tier="quick"):
  M = mods()
  sizes = [ctx.cint(f"s{q}", 1, 3 if tier == "quick" else 4) for q in range(ctx.cint("n", 0, 3 if tier == "quick" else 4))]
  b = ctx.cint("b", 1, 5)
  drop = ctx.cbool("drop")
  toks = [ctx.token(f"t{q}") for q in range(sum(sizes))]
  batches, q = [], 0
  for s in sizes:
    batches.append({"x": arr(toks[q:q + s]), "y": {"z": arr([("z", w) for w in range(q, q + s)])}})
    q += s
  it = M.rebatch.RebatchIterDataset(list_iter(batches), batch_size=b, drop_remainder=drop).__iter__()
  got = drain(it)
  n = len(toks)
  cuts = [(a, min(a + b, n)) for a in range(0, n, b)]
  if drop:
    cuts = [c for c in cuts if c[1] - c[0] == b]
  ctx.eq(norm(got), [{"x": toks[a:c], "y": {"z": [["z", w] for w in range(a, c)]}} for a, c in cuts], "rebatched rows differ")
  ctx.check(not take(it, 1), "continues after the end")
  if len(sizes) > 1 and b > 1:
    ctx.reach("carry")


@harness("P18", "empty_batch", "1..3 input batches of 0..2 rows, target 1..3: rows are never lost or invented; an empty input batch may be refused", quick_s=40, must_reach=("refused",))
def p18_empty(ctx):
  M = mods()
  sizes = [ctx.cint(f"s{q}", 0, 2) for q in range(ctx.cint("n", 1, 3))]
  b = ctx.cint("b", 1, 3)
  rows, batches = 0, []
  for s in sizes:
    batches.append({"x": arr(list(range(rows, rows + s)))})
    rows += s
  it = M.rebatch.RebatchIterDataset(list_iter(batches), batch_size=b).__iter__()
  got = []
  try:
    got = drain(it)
  except ValueError:
    ctx.reach("refused")
    ctx.check(0 in sizes, "valid input refused")
    return
  ctx.eq([r for g in norm(got) for r in g["x"]], list(range(rows)), "rows differ")
  ctx.check(all(len(g["x"]) == b for g in got[:-1]), "a batch that is not the last one has another size")


@harness("P18", "two_dim", "1..3 batches of 1..3 rows of width 1..2 (matrix features and nested rows), target 1..4", quick_s=60)
def p18_two_dim(ctx):
  import numpy as np
  M = mods()
  sizes = [ctx.cint(f"s{q}", 1, 3) for q in range(ctx.cint("n", 1, 3))]
  w = ctx.cint("w", 1, 2)
  b = ctx.cint("b", 1, 4)
  total = sum(sizes)
  full = np.arange(total * w).reshape(total, w)
  cuts = np.cumsum([0] + sizes)
  batches = [(full[a:c], full[a:c, 0] * 10) for a, c in zip(cuts, cuts[1:])]
  got = drain(M.rebatch.RebatchIterDataset(list_iter(batches), batch_size=b).__iter__())
  want = [(full[a:a + b], full[a:a + b, 0] * 10) for a in range(0, total, b)]
  ctx.eq(norm(got), norm(want), "rows differ")
  ctx.check(all(isinstance(g, tuple) for g in got), "structure changed")


# ------------------------------------------------------------------ P19


def _pack_ref(lens, caps, bins, strategy, max_seq, align):
  """Rows of each emitted batch: lists of element numbers with start offsets."""
  feats = list(caps)
  batches = []
  cur = None

  def fresh():
    return [{"els": [], "free": {f: 0 for f in feats}} for _ in range(bins)]

  def fits(row, ln):
    if max_seq is not None and len(row["els"]) >= max_seq:
      return False
    return all(row["free"][f] + ln[f] <= caps[f] for f in feats)

  def put(row, e, ln):
    row["els"].append((e, dict(row["free"])))
    for f in feats:
      end = row["free"][f] + ln[f]
      row["free"][f] = -(-end // align[f]) * align[f]

  for e, ln in enumerate(lens):
    if cur is None:
      cur = fresh()
    ok = [r for r in cur if fits(r, ln)]
    if not ok:
      batches.append([r["els"] for r in cur if r["els"]])
      cur = fresh()
      ok = [cur[0]]
    row = ok[0]
    if strategy == "best":
      for r in ok:
        if sum(r["free"].values()) > sum(row["free"].values()):
          row = r
    put(row, e, ln)
  if cur is not None:
    batches.append([r["els"] for r in cur if r["els"]])
  return batches


def _pack_setup(ctx, feats, nmax, cap_lo, cap_hi, opts=True, strategy=None):
  strategy = strategy or ctx.choice("strategy", ["first", "best"])
  caps = {f: ctx.cint(f"cap_{f}", cap_lo, cap_hi) for f in feats}
  bins = ctx.cint("bins", 1, 3)
  n = ctx.cint("n", 0, nmax)
  lens = [{f: ctx.cint(f"len{q}_{f}", 0, caps[f]) for f in feats} for q in range(n)]
  return strategy, caps, bins, lens


def _elements(ctx, lens, meta=False):
  toks, els = [], []
  for q, ln in enumerate(lens):
    t = {f: [ctx.token(f"v{q}_{f}_{w}") for w in range(k)] for f, k in ln.items()}
    toks.append(t)
    e = {f: arr(v) for f, v in t.items()}
    if meta:
      e["id"] = f"el{q}"
    els.append(e)
  return toks, els


def _pack_ds(els, strategy, caps, bins, **kw):
  M = mods()
  cls = M.packing.FirstFitPackIterDataset if strategy == "first" else M.packing.BestFitPackIterDataset
  return cls(list_iter(els), length_struct=dict(caps), num_packing_bins=bins, **kw)


def _expect_row(row, caps, lens, toks, pad):
  out = {}
  for f, cap in caps.items():
    vals, seg, pos = [pad] * cap, [0] * cap, [0] * cap
    for k, (e, start) in enumerate(row, 1):
      for w in range(lens[e][f]):
        vals[start[f] + w], seg[start[f] + w], pos[start[f] + w] = toks[e][f][w], k, w
    out[f], out[f + "_segment_ids"], out[f + "_positions"] = vals, seg, pos
  return out


@harness("P19", "one_feature", "0..4 sequences (thorough 5) of symbolic payloads with lengths 0..capacity, capacity 1..3, 1..3 bins, first-fit or best-fit, no or 1..2 sequences per row",
         quick_s=200, thorough_s=600, must_reach=("second batch",))
def p19_one(ctx, tier="quick"):
  strategy, caps, bins, lens = _pack_setup(ctx, ["x"], 4 if tier == "quick" else 5, 2, 3)
  max_seq = ctx.cint("max_seq", 0, 2) or None
  toks, els = _elements(ctx, lens)
  got = drain(_pack_ds(els, strategy, caps, bins, shuffle_bins=False, max_sequences_per_bin=max_seq).__iter__())
  ref = _pack_ref(lens, caps, bins, strategy, max_seq, {"x": 1})
  ctx.eq(norm(got), [_expect_row(r, caps, lens, toks, 0) for b in ref for r in b], "packed rows differ")
  if len(ref) > 1:
    ctx.reach("second batch")


@harness("P19", "two_features", "0..3 elements of two features with lengths 0..capacity, capacities 1..2, 1..2 bins, first-fit or best-fit; a per-row list of a feature that is not packed",
         quick_s=200, thorough_s=500)
def p19_two(ctx, tier="quick"):
  strategy = ctx.choice("strategy", ["first", "best"])
  caps = {"x": 2, "y": ctx.cint("cap_y", 1, 2)}
  bins = ctx.cint("bins", 1, 2)
  n = ctx.cint("n", 0, 3)
  lens = [{f: ctx.cint(f"len{q}_{f}", 0, caps[f]) for f in caps} for q in range(n)]
  toks, els = _elements(ctx, lens, meta=True)
  got = drain(_pack_ds(els, strategy, caps, bins, shuffle_bins=False, meta_features=("id",)).__iter__())
  ref = _pack_ref(lens, caps, bins, strategy, None, {"x": 1, "y": 1})
  want = []
  for b in ref:
    for r in b:
      want.append(_expect_row(r, caps, lens, toks, 0) | {"id": [f"el{e}" for e, _ in r]})
  ctx.eq(norm(got), want, "packed rows differ")


@harness("P19", "options", "0..3 sequences of length 0..4, capacity 4, 1..2 bins, both strategies: row alignment 1..3, padding value symbolic, rows shuffled with any of 4 seeds (a permutation of the batch's rows), scalar side feature, sequence-shaped meta feature",
         quick_s=200, thorough_s=400)
def p19_options(ctx, tier="quick"):
  kind = ctx.choice("kind", ["align", "padding", "shuffle", "scalar", "seqmeta"])
  strategy = ctx.choice("strategy", ["first", "best"])
  caps = {"x": 4 if kind == "align" else 3}
  bins = ctx.cint("bins", 1, 2)
  n = ctx.cint("n", 1, 3)
  lens = [{"x": ctx.cint(f"len{q}", 0, caps["x"])} for q in range(n)]
  align, pad, kw = {"x": 1}, 0, {}
  if kind == "align":
    align = {"x": ctx.cint("align", 1, 3)}
    kw["pack_alignment_struct"] = dict(align)
  if kind == "padding":
    pad = ctx.token("pad")
    kw["padding_struct"] = {"x": pad}
  toks, els = _elements(ctx, lens)
  if kind == "scalar":
    caps["s"] = ctx.cint("cap_s", 1, 3)
    import numpy as np
    for q in range(n):
      lens[q]["s"] = 1
      toks[q]["s"] = [q + 7]
      els[q]["s"] = np.int64(q + 7)
    align["s"] = 1
  if kind == "seqmeta":
    caps["m"] = 3
    align["m"] = 1
    for q in range(n):
      lens[q]["m"] = 1 + q % 2
      toks[q]["m"] = [q * 10 + w for w in range(1 + q % 2)]
      els[q]["m"] = arr(toks[q]["m"])
    kw["meta_features"] = ("m",)
  ref = _pack_ref(lens, caps, bins, strategy, None, align)
  shuffle = kind == "shuffle"
  if shuffle:
    kw["seed"] = ctx.cint("seed", 0, 3)
  got = norm(drain(_pack_ds(els, strategy, caps, bins, shuffle_bins=shuffle, **kw).__iter__()))
  want = [[_expect_row(r, caps, lens, toks, pad) for r in b] for b in ref]
  if kind == "seqmeta":
    want = [[{k: v for k, v in r.items() if k not in ("m_segment_ids", "m_positions")} for r in b] for b in want]
  if not shuffle:
    ctx.eq(got, [r for b in want for r in b], "packed rows differ")
    return
  ctx.check(len(got) == sum(len(b) for b in want), "number of rows")
  q = 0
  for b in want:
    part = got[q:q + len(b)]
    q += len(b)
    if len(b) == 1:
      ctx.eq(part, b, "rows")
    else:
      ctx.check(disj([conj([deep_eq(part[0], b[0]), deep_eq(part[1], b[1])]), conj([deep_eq(part[0], b[1]), deep_eq(part[1], b[0])])]),
                "shuffled rows are not a permutation of the batch's rows")


@harness("P19", "too_long", "1..2 sequences of length 0..4, capacity 1..3: exactly the streams with a longer sequence are refused", quick_s=30, must_reach=("refused",))
def p19_long(ctx):
  strategy = ctx.choice("strategy", ["first", "best"])
  cap = ctx.cint("cap", 1, 3)
  lens = [{"x": ctx.cint(f"len{q}", 0, 4)} for q in range(ctx.cint("n", 1, 2))]
  toks, els = _elements(ctx, lens)
  it = _pack_ds(els, strategy, {"x": cap}, 1, shuffle_bins=False).__iter__()
  try:
    drain(it)
  except ValueError:
    ctx.reach("refused")
    ctx.check(any(l["x"] > cap for l in lens), "valid stream refused")
    return
  ctx.check(all(l["x"] <= cap for l in lens), "overlong sequence accepted")


# ------------------------------------------------------------------ P20


def _cts_ref(toks, caps, meta, split_full, bos):
  """Rows as lists of pieces; a piece maps features to tokens."""
  feats = list(caps)
  rows, queued = [], []
  row, used = [], {f: 0 for f in feats}

  def emit():
    nonlocal row, used, queued
    if row:
      rows.append(row)
    rows.extend(queued)
    row, used, queued = [], {f: 0 for f in feats}, []

  for t in toks:
    rest = {f: list(t[f]) for f in feats}
    if not split_full and all(len(rest[f]) <= caps[f] for f in feats) and any(len(rest[f]) == caps[f] for f in feats):
      queued.append([rest])
      continue
    while True:
      if any(len(rest[f]) > caps[f] - used[f] for f in meta):
        emit()
        continue
      left = {f: rest[f] if f in meta else rest[f][:caps[f] - used[f]] for f in feats}
      right = {f: rest[f] if f in meta else rest[f][caps[f] - used[f]:] for f in feats}
      more = any(right[f] for f in feats if f not in meta)
      if not more:
        row.append(left)
        for f in feats:
          used[f] += len(left[f])
        break
      if any(left[f] for f in feats if f not in meta):
        row.append(left)
      emit()
      rest = right
  emit()
  out = []
  for r in rows:
    o = {}
    for f in feats:
      vals, seg, pos = [], [], []
      for k, piece in enumerate(r, 1):
        v = list(piece[f])
        if v and bos is not None and f in bos[1]:
          v[0] = bos[0]
        vals += v
        seg += [k] * len(v)
        pos += list(range(len(v)))
      fill = [0] * (caps[f] - len(vals))
      o[f] = vals + fill
      if f not in meta:
        o[f + "_segment_ids"], o[f + "_positions"] = seg + fill, pos + fill
    out.append(o)
  return out


def _cts_ds(els, caps, **kw):
  M = mods()
  return M.cts.ConcatThenSplitIterDataset(list_iter(els), length_struct=dict(caps), **kw)


def _cts_check_stream(ctx, got, toks, f, ordered):
  """Row-wise laws that do not depend on the algorithm."""
  flat = []
  for r in got:
    seg, pos, val = r[f + "_segment_ids"], r[f + "_positions"], r[f]
    used = sum(1 for s in seg if s)
    ctx.check(all(seg[:used]) and not any(seg[used:]), "padding inside a row")
    for w in range(used):
      new = w == 0 or seg[w] != seg[w - 1]
      ctx.eq(pos[w], 0 if new else pos[w - 1] + 1, "position")
    flat += val[:used]
  if ordered:
    ctx.eq(flat, [v for t in toks for v in t[f]], "token stream differs")
  else:
    ctx.check(len(flat) == sum(len(t[f]) for t in toks), "number of tokens differs")


@harness("P20", "one_feature", "0..4 sequences of 0..5 symbolic tokens (thorough 0..7), row length 1..3, full-length sequences split or passed through, with or without beginning-of-sequence token",
         quick_s=200, thorough_s=600, must_reach=("piece of a piece",))
def p20_one(ctx, tier="quick"):
  M = mods()
  cap = ctx.cint("cap", 1, 3)
  n = ctx.cint("n", 0, 3)
  lens = [{"x": ctx.cint(f"len{q}", 0, 5 if tier == "quick" else 8)} for q in range(n)]
  split_full = ctx.cbool("split_full")
  bos = ctx.cbool("bos")
  toks, els = _elements(ctx, lens)
  kw = {}
  if bos:
    kw = dict(bos_handling=M.cts.BOSHandling.REPLACE_FIRST_TOKEN_WITH_BOS, bos_features=("x",), bos_token_id=-1)
  it = _cts_ds(els, {"x": cap}, split_full_length_features=split_full, **kw).__iter__()
  got = norm(drain(it))
  ref = _cts_ref(toks, {"x": cap}, (), split_full, (-1, ("x",)) if bos else None)
  ctx.eq(got, ref, "packed rows differ")
  ctx.check(not take(it, 1), "continues after the end")
  if not bos:
    _cts_check_stream(ctx, got, toks, "x", split_full)
    if split_full:
      for r in got[:-1]:
        ctx.check(all(r["x_segment_ids"]), "a row that is not the last one is padded")
  if any(l["x"] > 2 * cap for l in lens):
    ctx.reach("piece of a piece")


@harness("P20", "two_features", "0..3 elements of two features of 0..3 and 0..2 symbolic tokens, row lengths 1..2 (x) and 1..2 (y), full-length elements split or passed through",
         quick_s=200, thorough_s=500)
def p20_two(ctx, tier="quick"):
  caps = {"x": ctx.cint("cap_x", 1, 2), "y": ctx.cint("cap_y", 1, 2)}
  n = ctx.cint("n", 0, 2 if tier == "quick" else 3)
  lens = [{"x": ctx.cint(f"len{q}_x", 0, 5), "y": ctx.cint(f"len{q}_y", 0, 3)} for q in range(n)]
  split_full = ctx.cbool("split_full")
  toks, els = _elements(ctx, lens)
  got = norm(drain(_cts_ds(els, caps, split_full_length_features=split_full).__iter__()))
  ctx.eq(got, _cts_ref(toks, caps, (), split_full, None), "packed rows differ")
  for f in caps:
    _cts_check_stream(ctx, got, toks, f, split_full)


@harness("P20", "meta", "1..3 elements of one feature of 0..4 symbolic tokens and a meta feature of 0..2, row lengths 2 and 2..3",
         quick_s=150, thorough_s=300)
def p20_meta(ctx, tier="quick"):
  caps = {"x": 2, "m": ctx.cint("cap_m", 2, 3)}
  n = ctx.cint("n", 1, 3 if tier == "thorough" else 2)
  lens = [{"x": ctx.cint(f"len{q}_x", 0, 4), "m": ctx.cint(f"len{q}_m", 0, 2)} for q in range(n)]
  split_full = ctx.cbool("split_full")
  toks, els = _elements(ctx, lens)
  got = norm(drain(_cts_ds(els, caps, meta_features=("m",), split_full_length_features=split_full).__iter__()))
  ctx.eq(got, _cts_ref(toks, caps, ("m",), split_full, None), "packed rows differ")
  _cts_check_stream(ctx, got, toks, "x", split_full)


# ------------------------------------------------------------------ P15


def _law15(name, bounds, build, quick_s=170, max_out=14, **kw):
  @harness("P15", name, bounds + "; state after any number of rows or after the end, 0..2 read on, restored in a fresh, the same or another used iterator, directly or through JSON; second checkpoint",
           quick_s=quick_s, thorough_s=500, must_reach=("mid-stream restore",), **kw)
  def h(ctx):
    checkpoint_law(ctx, build(ctx), max_out)
  return h


def _b15_fit(ctx):
  strategy = ctx.choice("strategy", ["first", "best"])
  cap = 2
  bins = ctx.cint("bins", 1, 2)
  n = ctx.cint("n", 0, 4 if ctx.tier == "quick" else 5)
  lens = [{"x": ctx.cint(f"len{q}", 1, cap)} for q in range(n)]
  toks, els = _elements(ctx, lens)
  shuffle = True if ctx.tier == "quick" and n == 4 else ctx.cbool("shuffle")
  return lambda: _pack_ds(els, strategy, {"x": cap}, bins, shuffle_bins=shuffle, seed=3)


_law15("fit", "0..4 (thorough 5) sequences of length 1..2, rows of 2, 1..2 bins, first-fit or best-fit, rows shuffled or not (4 sequences: shuffled)", _b15_fit)


def _b15_fit_group(ctx):
  """Meta features, grouping, filter below, repeat above."""
  M = mods()
  kind = ctx.choice("kind", ["meta", "group", "filter", "repeat", "limit"])
  bins = 2
  lens = [{"x": ctx.cint(f"len{q}", 1, 2)} for q in range(3)]
  els = [{"x": arr([q + 1] * l["x"])} for q, l in enumerate(lens)]
  kw = dict(shuffle_bins=True, seed=1)
  if kind == "meta":
    for q, e in enumerate(els):
      e["id"] = f"el{q}"
    kw["meta_features"] = ("id",)
  if kind == "group":
    import numpy as np
    for e in els:
      e["x"] = np.asarray(list(e["x"]), np.int64)
    kw["shuffle_bins_group_by_feature"] = "x"

  def mk():
    src = list_iter(els)
    if kind == "filter":
      src = src.filter(lambda e: e["x"][0] != 2)
    ds = M.packing.FirstFitPackIterDataset(src, length_struct={"x": 2}, num_packing_bins=bins, **kw)
    if kind == "repeat":
      return M.repeat.RepeatIterDataset(ds, 2)
    if kind == "limit":
      return M.limit.LimitIterDataset(ds, 2)
    return ds

  return mk


_law15("fit_nested", "3 sequences of length 1..2 in rows of 2, 2 shuffled bins: with a side feature, grouped shuffling, over a filter, under repeat or limit", _b15_fit_group)


def _b15_cts(ctx):
  cap = ctx.cint("cap", 2, 3)
  n = ctx.cint("n", 0, 3)
  deep = ctx.tier == "thorough"
  lens = [{"x": ctx.cint(f"len{q}", 0, (5 if deep or n < 3 else 4) if q == 0 else 3 if deep or n < 3 else 2)} for q in range(n)]
  split_full = ctx.cbool("split_full")
  toks, els = _elements(ctx, lens)
  return lambda: _cts_ds(els, {"x": cap}, split_full_length_features=split_full)


_law15("concat_split", "0..3 sequences of 0..5 tokens (the first) and 0..3 (quick: of 0..4 and 0..2 when there are three), rows of 2..3, full-length sequences split or passed through", _b15_cts, quick_s=240)


def _b15_cts_two(ctx):
  M = mods()
  caps = {"x": 2, "y": 1}
  kind = ctx.choice("kind", ["plain", "meta", "repeat", "filter", "limit"])
  lens = [{"x": ctx.cint(f"len{q}_x", 0, 3), "y": ctx.cint(f"len{q}_y", 0, 1 if kind == "meta" or q and ctx.tier == "quick" else 2)} for q in range(2)]
  toks, els = _elements(ctx, lens)
  kw = {"meta_features": ("y",)} if kind == "meta" else {}

  def mk():
    src = list_iter(els)
    if kind == "filter":
      src = src.filter(lambda e: len(e["x"]) != 1)
    ds = M.cts.ConcatThenSplitIterDataset(src, length_struct=dict(caps), split_full_length_features=False, **kw)
    if kind == "repeat":
      return M.repeat.RepeatIterDataset(ds, 2)
    if kind == "limit":
      return M.limit.LimitIterDataset(ds, 2)
    return ds

  return mk


_law15("concat_split_two", "2 elements of two features of 0..3 and 0..2 (quick: 0..1 in the second) tokens, rows of 2 and 1: plain, second feature meta, over a filter, under repeat or limit", _b15_cts_two, quick_s=200)
