"""Reading record files (P31)."""

import ast
import contextlib
import importlib
import os
import shutil
import tempfile
import types

from harness.common import *  # noqa
from harness.h_workers import workers
from symx import core
from symx.registry import harness

S_TF = ("the file is a layout of records with symbolic lengths, cut at a symbolic point: a read returns the piece's symbolic bounds, the 8 byte number at any other place than a record's start is arbitrary; "
        "open, struct, codecs and the formatting of strings by % are models in a copy of the module made from its current source; counterexamples are replayed on real files")
S_PQ = "pyarrow's ParquetFile is a model with row groups of symbolic sizes whose cells are (row group, row); counterexamples are replayed on real files"


# ------------------------------------------------------------------ TFRecord


class Piece:
  """The bytes [start, start + n) of the file."""

  def __init__(self, file, start, n):
    self.file, self.start, self.n = file, start, n

  def __len__(self):
    return self.n

  def __bool__(self):
    return bool(self.n > 0)

  def __getitem__(self, k):
    if isinstance(k, slice):
      a = 0 if k.start is None else k.start
      b = self.n if k.stop is None else k.stop
      assert k.step in (None, 1)
      a = a + self.n if a < 0 else a
      b = b + self.n if b < 0 else b
      a = self.n if a > self.n else a
      b = self.n if b > self.n else b
      return Piece(self.file, self.start + a, b - a if b > a else 0)
    raise TypeError("single bytes are not modelled")

  def __add__(self, o):
    core.cur().check(o.start == self.start + self.n, "pieces are not adjacent")
    return Piece(self.file, self.start, self.n + o.n)

  def hex(self):
    return "hex"


class Layout:
  """A file of records with the given lengths, cut after `cut` bytes."""

  def __init__(self, ctx, lens, cut):
    self.ctx, self.lens, self.cut = ctx, lens, cut
    self.starts, at = [], 0
    for n in lens:
      self.starts.append(at)
      at = at + 16 + n
    self.total = at
    self.odd = {}
    self.opened, self.closed = 0, 0

  def u64(self, at):
    for s, n in zip(self.starts, self.lens):
      if bool(at == s):
        return n
    return self.ctx.int(f"bytes_at_other_place{len(self.odd)}", 0, 2**64 - 1)

  def open(self, path, mode="r", *a, **k):
    assert mode == "rb", mode
    self.opened += 1
    return Handle(self)


class Handle:

  def __init__(self, file):
    self.file, self.pos = file, 0

  def read(self, n=-1):
    left = self.file.cut - self.pos
    left = left if left > 0 else 0
    if n is None or n < 0:
      n = left
    n = n if n < left else left
    p = Piece(self.file, self.pos, n)
    self.pos = self.pos + n
    return p

  def seek(self, at, whence=0):
    if whence == 1:
      at = self.pos + at
    elif whence == 2:
      at = self.file.cut + at
    if at < 0:
      raise ValueError("negative seek position")
    self.pos = at
    return at

  def tell(self):
    return self.pos

  def close(self):
    self.file.closed += 1

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()


class _Format:
  """A struct format; counts may be symbolic."""

  SIZES = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4, "l": 4, "Q": 8, "q": 8, "s": 1, "x": 1}

  def __init__(self, parts):
    self.items = []
    order, count = None, None
    for p in parts:
      if not isinstance(p, str):
        count = p
        continue
      for c in p:
        if c in "<>=!@":
          order = c
        elif c.isdigit():
          count = (count or 0) * 10 + int(c)
        elif c == " ":
          pass
        else:
          self.items.append((c, 1 if count is None else count, count is not None))
          count = None
    assert order == "<", "only little endian formats are modelled"

  @property
  def size(self):
    t = 0
    for c, n, _ in self.items:
      t = t + self.SIZES[c] * n
    return t

  def unpack_from(self, buf, offset=0):
    out, at = [], buf.start + offset
    for c, n, counted in self.items:
      if c == "s":
        out.append(Piece(buf.file, at, n))
        at = at + n
        continue
      for _ in range(n):
        if c == "Q":
          out.append(buf.file.u64(at))
        elif c != "x":
          out.append(("number", c))
        at = at + self.SIZES[c]
    return tuple(out)

  def unpack(self, buf):
    if not (buf.n == self.size):
      raise StructError(f"unpack requires a buffer of {self.size} bytes")
    return self.unpack_from(buf)


class StructError(Exception):
  pass


def _fmt(f):
  return f if isinstance(f, _Format) else _Format([f] if isinstance(f, str) else f)


class _Struct(_Format):

  def __init__(self, f):
    _Format.__init__(self, [f] if isinstance(f, str) else f)


FAKE_STRUCT = types.SimpleNamespace(
    unpack=lambda f, b: _fmt(f).unpack(b), unpack_from=lambda f, b, offset=0: _fmt(f).unpack_from(b, offset),
    calcsize=lambda f: _fmt(f).size, Struct=_Struct, error=StructError)


def _percent(fmt, args):
  """fmt % args, keeping symbolic numbers apart."""
  if not isinstance(fmt, str):
    return fmt % args
  args = args if isinstance(args, tuple) else (args,)
  if not any(core.is_sym(a) for a in args):
    return fmt % args
  out, k = [], 0
  while "%" in fmt:
    a, _, fmt = fmt.partition("%")
    assert fmt[0] in "dis", "format not modelled"
    out += [a, args[k]]
    k, fmt = k + 1, fmt[1:]
  return [p for p in out + [fmt] if p != ""]


def _joined(*parts):
  """An f-string, keeping symbolic numbers apart."""
  if not any(core.is_sym(p) for p in parts):
    return "".join(str(p) for p in parts)
  return list(parts)


class _Rewrite(ast.NodeTransformer):

  def visit_BinOp(self, n):
    self.generic_visit(n)
    if isinstance(n.op, ast.Mod):
      return ast.copy_location(ast.Call(ast.Name("symx_percent", ast.Load()), [n.left, n.right], []), n)
    return n

  def visit_JoinedStr(self, n):
    # Only plain pieces; the others stay f-strings (they are messages).
    if all(isinstance(v, ast.Constant) or (isinstance(v, ast.FormattedValue) and v.format_spec is None and v.conversion == -1) for v in n.values):
      args = [v if isinstance(v, ast.Constant) else self.visit(v.value) for v in n.values]
      return ast.copy_location(ast.Call(ast.Name("symx_joined", ast.Load()), args, []), n)
    self.generic_visit(n)
    return n


def _tf_module(layout):
  """The module, executed from its current source on the model."""
  real = importlib.import_module("grain._src.python.dataset.sources.tfrecord_dataset")
  with open(real.__file__) as f:
    tree = ast.fix_missing_locations(_Rewrite().visit(ast.parse(f.read())))
  m = types.ModuleType(real.__name__)
  m.__dict__.update(core.SHADOW)
  m.__dict__.update(symx_percent=_percent, symx_joined=_joined)
  exec(compile(tree, real.__file__, "exec"), m.__dict__)
  for k, v in (("struct", FAKE_STRUCT), ("codecs", types.SimpleNamespace(encode=lambda b, e: "hex")), ("open", layout.open)):
    m.__dict__[k] = v
  return m


@contextlib.contextmanager
def tf_file(ctx, lens, cut):
  """A way to create datasets over the file, and to compare what they give."""
  layout = Layout(ctx, lens, cut)
  if ctx.symbolic:
    m = _tf_module(layout)

    def same(rec, k):
      if not isinstance(rec, Piece):
        return False
      return core.conj([rec.start == layout.starts[k] + 12, rec.n == layout.lens[k]])

    yield (lambda: m.TFRecordIterDataset("file")), same, layout
    return
  import struct
  d = tempfile.mkdtemp(prefix="symx")
  try:
    datas = [bytes((7 * k + q) % 251 for q in range(n)) for k, n in enumerate(lens)]
    whole = b"".join(struct.pack("<QI", len(x), 1) + x + struct.pack("<I", 2) for x in datas)
    with open(os.path.join(d, "f"), "wb") as f:
      f.write(whole[:cut])
    m = importlib.import_module("grain._src.python.dataset.sources.tfrecord_dataset")
    yield (lambda: m.TFRecordIterDataset(os.path.join(d, "f"))), (lambda rec, k: rec == datas[k]), layout
  finally:
    shutil.rmtree(d)


def _out(it):
  """One step: ("elem", x), ("end",) or ("error",)."""
  try:
    return ("elem", next(it))
  except StopIteration:
    return ("end",)
  except (core.PathEnd, core.ConcreteFailure):
    raise
  except Exception:  # noqa
    return ("error",)


def _expect(ctx, layout, same, it, k, upto):
  """Reads steps k.. of the file and returns the outcome at which it stopped."""
  for q in range(k, upto):
    complete = q < len(layout.lens) and bool(layout.starts[q] + 16 + layout.lens[q] <= layout.cut)
    o = _out(it)
    if complete:
      ctx.check(o[0] == "elem", f"record {q} is not delivered")
      ctx.check(same(o[1], q), f"record {q} differs")
      continue
    at = layout.starts[q] if q < len(layout.lens) else layout.total
    if at == layout.cut:
      ctx.check(o == ("end",), "the end is not reported")
      return "end"
    ctx.check(o[0] != "elem", "an incomplete record is delivered")
    ctx.check(o == ("error",), "a truncated record ends the stream silently")
    return "error"
  return None


@harness("P31", "tfrecord", "files of 0..3 records (thorough 5) with lengths 0..2^16 each, whole or cut anywhere, all symbolic: the complete records in order, then the end, or an error if the cut is inside a record; a state after any number of records, through JSON, in a fresh or the same iterator after reading on, gives the rest",
         quick_s=120, thorough_s=400, stubs=(S_TF,), must_reach=("end", "error", "restored"))
def p31_tf(ctx, tier="quick"):
  n = ctx.cint("records", 0, 3 if tier == "quick" else 5)
  lens = [ctx.int(f"len{q}", 0, 2**16) for q in range(n)]
  total = sum(lens) + 16 * n
  cut = ctx.int("cut", 0, 2**20)
  ctx.assume(cut <= total)
  with tf_file(ctx, lens, cut) as (build, same, layout):
    it = build().__iter__()
    k = ctx.cint("k", 0, n)
    # The state is taken after k complete records.
    ctx.assume(cut >= (layout.starts[k] if k < n else total))
    ctx.check(_expect(ctx, layout, same, it, 0, k) is None, "a complete record is missing")
    st = it.get_state()
    keep = copy.deepcopy(st)
    ctx.eq(jsonable(it.get_state()), jsonable(st), "two consecutive states differ")
    mode = ctx.choice("mode", ["fresh", "same", "used"])
    if mode == "same":
      end = _expect(ctx, layout, same, it, k, ctx.choice("upto", [k + 1, n + 1]))
      it2 = it
    else:
      it2 = build().__iter__()
      if mode == "used":
        _out(it2)
    ctx.eq(st, keep, "a state changed after it was taken")
    it2.set_state(jsonable(st))
    ctx.eq(it2.get_state(), keep, "the position after restoring differs")
    ctx.reach("restored")
    ctx.reach(_expect(ctx, layout, same, it2, k, n + 1))
    if mode != "same":
      ctx.reach(_expect(ctx, layout, same, it, k, n + 1))


@harness("P31", "tfrecord_pipeline", "files of 0..3 records of 0..3 bytes under batch, filter or interleaved two at a time: checkpoint anywhere restores exactly",
         quick_s=100, thorough_s=300, stubs=(S_TF,), must_reach=("mid-stream restore",))
def p31_tf_pipe(ctx, tier="quick"):
  n = ctx.cint("records", 0, 3)
  kind = ctx.choice("kind", ["batch", "map", "interleave", "prefetch"])
  lens = [1 + q for q in range(n)]
  M = mods()

  def norm_rec(r):
    return ("rec", r.start, r.n) if isinstance(r, Piece) else ("rec", r)

  with tf_file(ctx, lens, sum(lens) + 16 * n) as (mk, same, layout), workers(ctx):
    def build():
      ds = mk().map(norm_rec)
      if kind == "batch":
        return ds.batch(2, batch_fn=list)
      if kind == "interleave":
        return M.interleave.InterleaveIterDataset([ds, mk().map(norm_rec)], cycle_length=2)
      if kind == "prefetch":
        return M.prefetch.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=1)
      return ds

    checkpoint_law(ctx, build, 8, modes=("fresh", "same") if tier == "quick" else ("fresh", "same", "used"))


# ------------------------------------------------------------------- Parquet


class _Cell:
  pass


class PqFile:
  """Stands for pyarrow.parquet.ParquetFile."""

  def __init__(self, path, **kw):
    self._sizes = path.sizes

  @property
  def num_row_groups(self):
    return len(self._sizes)

  @property
  def metadata(self):
    return types.SimpleNamespace(num_row_groups=len(self._sizes), num_rows=sum(self._sizes), row_group=lambda g: types.SimpleNamespace(num_rows=self._sizes[g]))

  def read_row_group(self, g, **kw):
    if core.is_sym(g):
      g = g.__index__()
    if not 0 <= g < len(self._sizes):
      raise ValueError(f"Some index in row_group_indices is {g}")
    return _Table(g, self._sizes[g])


class _Table:

  def __init__(self, g, n):
    self._g, self._n = g, n
    self.num_columns, self.num_rows = 2, n
    self.column_names = ["a", "b"]

  def __len__(self):
    return self._n

  def field(self, i):
    return types.SimpleNamespace(name=self.column_names[i])

  def column(self, i):
    i = self.column_names.index(i) if isinstance(i, str) else i
    return _Column(self.column_names[i], self._g, self._n)


class _Column:

  def __init__(self, name, g, n):
    self.name, self._g, self._n = name, g, n

  def to_numpy(self):
    return self

  def __len__(self):
    return self._n

  def __getitem__(self, i):
    core.cur().check(core.conj([i >= -self._n, i < self._n]), "row outside its row group")
    return (self.name, self._g, i)


@contextlib.contextmanager
def pq_files(ctx, files):
  """Datasets over files with the given row group sizes; cells are (column, row group, row)."""
  m = importlib.import_module("grain._src.python.dataset.sources.parquet_dataset")
  if ctx.symbolic:
    paths = [_Path(k, s) for k, s in enumerate(files)]
    old = m.__dict__["pq"]
    m.__dict__["pq"] = types.SimpleNamespace(ParquetFile=PqFile)
    try:
      yield m, paths, lambda e: e
    finally:
      m.__dict__["pq"] = old
    return
  import pyarrow as pa
  import pyarrow.parquet as pq
  d = tempfile.mkdtemp(prefix="symx")
  try:
    paths = []
    schema = pa.schema([("a", pa.int64()), ("b", pa.int64())])
    for k, sizes in enumerate(files):
      paths.append(os.path.join(d, str(k)))
      with pq.ParquetWriter(paths[-1], schema) as w:
        for g, n in enumerate(sizes):
          rows = [g * 10**6 + q for q in range(n)]
          w.write_table(pa.table({"a": rows, "b": [10**9 + r for r in rows]}, schema=schema))
    yield m, paths, lambda e: {"a": ("a", int(e["a"]) // 10**6, int(e["a"]) % 10**6), "b": ("b", (int(e["b"]) - 10**9) // 10**6, int(e["b"]) % 10**6)}
  finally:
    shutil.rmtree(d)


class _Path(str):

  def __new__(cls, k, sizes):
    p = str.__new__(cls, f"file{k}")
    p.sizes = sizes
    return p

  def __deepcopy__(self, memo):
    return self


def _row(g, i):
  return {"a": ("a", g, i), "b": ("b", g, i)}


@harness("P31", "parquet", "one file of 0..3 row groups (thorough 4) with symbolic sizes 0..300: from the start and from a state at any symbolic row of any row group, the next 3 elements (thorough 4) are the following rows, empty row groups passed over, then the end; states taken in between restore",
         quick_s=120, thorough_s=400, stubs=(S_PQ,), must_reach=("end", "restored", "no rows"))
def p31_pq(ctx, tier="quick"):
  G = ctx.cint("groups", 0, 3 if tier == "quick" else 4)
  sizes = [ctx.int(f"size{q}", 0, 300) for q in range(G)]
  with pq_files(ctx, [sizes]) as (m, paths, norm_e):
    it = m.ParquetIterDataset(paths[0]).__iter__()
    g, i = 0, 0
    if G and ctx.cbool("restore"):
      g = ctx.cint("g", 0, G - 1)
      i = ctx.int("i", 0, 300)
      ctx.assume(i <= sizes[g])
      it.set_state({"row_group": g, "index_within_row_group": i})
      ctx.reach("restored")
    it2 = None
    for _ in range(3 if tier == "quick" else 4):
      while g < G and bool(i >= sizes[g]):
        g, i = g + 1, 0
      o = _out(it)
      if g == G:
        ctx.check(o == ("end",), "the end is not reported")
        ctx.check(_out(it) == ("end",), "continues after the end")
        ctx.reach("end")
        if not G:
          ctx.reach("no rows")
        break
      ctx.check(o[0] == "elem", "a row is missing")
      ctx.eq(norm_e(o[1]), _row(g, i), "row differs")
      i = i + 1
    st = it.get_state()
    it2 = m.ParquetIterDataset(paths[0]).__iter__()
    it2.set_state(jsonable(st))
    ctx.eq(it2.get_state(), st, "position after restoring differs")
    while g < G and bool(i >= sizes[g]):
      g, i = g + 1, 0
    for q in (it, it2):
      o = _out(q)
      if g == G:
        ctx.check(o == ("end",), "the end is not reported")
      else:
        ctx.check(o[0] == "elem", "a row is missing")
        ctx.eq(norm_e(o[1]), _row(g, i), "row differs after restoring")


@harness("P31", "parquet_files", "0..3 files with up to 2 row groups of 0..2 rows, read together or split over 2..3 workers: rows of the files round-robin, each once; state after any number of elements restores exactly",
         quick_s=120, thorough_s=300, stubs=(S_PQ,))
def p31_pq_files(ctx, tier="quick"):
  from harness.h_workers import round_robin
  n = ctx.cint("files", 0, 3)
  files = []
  for f in range(n):
    shape = ctx.choice(f"shape{f}", [[2], [], [1, 0, 1]] if tier != "quick" else [[2], []])
    files.append(shape)
  W = ctx.choice("workers", [0, 2, 3])

  def rows(f):
    return [(f, g, i) for g, s in enumerate(files[f]) for i in range(s)]

  from harness.h_inter import _ref
  want = []
  for w in range(max(W, 1)):
    mine = list(range(n))[w::max(W, 1)]
    rr = [rows(f) for f in mine]
    want.append([rr[c][i] for c, i in _ref([len(r) for r in rr], 16)])
  want = round_robin(want)
  with pq_files(ctx, files) as (m, paths, norm_e), workers(ctx):
    def build():
      ds = m.ParquetIterDataset(list(paths))
      if W:
        ds = ds.mp_prefetch(grain().MultiprocessingOptions(num_workers=W))
      return ds.__iter__()

    it = build()
    got = [norm_e(e) for e in drain(it)]
    # Files are told apart by the order of their rows only.
    ctx.eq([e["a"] for e in got], [("a", g, i) for _, g, i in want], "rows differ")
    k = ctx.cint("k", 0, min(len(want), 3))
    it = build()
    take(it, k)
    st = it.get_state()
    it2 = build()
    it2.set_state(jsonable(st))
    ctx.eq([norm_e(e)["a"] for e in drain(it2)], [("a", g, i) for _, g, i in want[k:]], "restored rows differ")
