"""Arrays in shared memory (P29)."""

import gc
import pickle
import types

from harness.common import *  # noqa
from symx import npmodel, sched
from symx.registry import harness

S_NP = "numpy arrays (shape, strides, offset, symbolic; bytes an unknown function of the address), shared memory blocks and handles are models; counterexamples are replayed with the real ones"
MOD = "grain._src.python.ipc.shared_memory_array"


_copy = {}
_state = types.SimpleNamespace(blocks=[], handles=[])


def _rec_class():
  """SharedMemory that keeps a record of what happens to it."""
  g = globals()
  if "RecShm" not in g:
    from multiprocessing import shared_memory

    class RecShm(shared_memory.SharedMemory):

      def __init__(self, name=None, create=False, size=0, **kw):
        self.state = types.SimpleNamespace(closed=0, block=None)
        super().__init__(name, create, size, **kw)
        b = next((b for b in _state.blocks if b.name == self.name), None)
        if b is None:
          b = types.SimpleNamespace(name=self.name, unlinked=0, size=self.size)
          _state.blocks.append(b)
        self.state.block = b
        _state.handles.append(self.state)

      def close(self):
        self.state.closed += 1
        super().close()

      def unlink(self):
        super().unlink()
        self.state.block.unlinked += 1

    RecShm.__qualname__ = "RecShm"
    RecShm.__module__ = __name__
    g["RecShm"] = RecShm
  return g["RecShm"]


class Kit:
  """The module over models (symbolic) or over numpy and real shared memory."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.sym = ctx.symbolic
    if self.sym:
      npmodel.world = npmodel.World()
      npmodel.reset()
      self.w = npmodel.world
      if "np" in _copy:
        self.np, self.m = _copy["np"], _copy["m"]
        return
      fake = types.ModuleType("mmap")
      fake.mmap = npmodel.Mmap
      shm = types.ModuleType("multiprocessing.shared_memory")
      shm.SharedMemory = npmodel.SharedMemory
      import threading
      import multiprocessing.shared_memory  # noqa: F401
      self.np = npmodel.Np("numpy")
      self.m = sched.load_copy(MOD, {"numpy": self.np, "mmap": fake, "multiprocessing.shared_memory": shm, "threading": threading}, shadow=True)
      _copy.update(np=self.np, m=self.m)
    else:
      import importlib
      from multiprocessing import shared_memory
      import numpy
      self.np = numpy
      self.m = importlib.import_module(MOD)
      _state.blocks.clear()
      _state.handles.clear()
      self.w = _state
      self.m.shared_memory = sched._Mod(shared_memory, SharedMemory=_rec_class())

  def done(self):
    if not self.sym:
      from multiprocessing import shared_memory
      for b in self.w.blocks:
        if not b.unlinked:
          try:
            s = shared_memory.SharedMemory(b.name)
            s.close()
            s.unlink()
          except FileNotFoundError:
            pass
      self.m.shared_memory = shared_memory

  def source(self, kind, shape, dtype):
    np = self.np
    if self.sym:
      if kind == "shm":
        return self.m.SharedMemoryArray(shape, dtype)
      return (npmodel.MaskedArray if kind == "masked" else npmodel.ndarray)(shape, dtype)
    if dtype == object:
      a = np.empty(shape, object)
      a.fill("o")
      return a
    n = int(np.prod(shape)) * np.dtype(dtype).itemsize
    a = np.ndarray(shape, dtype, buffer=bytes((q * 7 + 1) % 251 for q in range(n))) if n else np.zeros(shape, dtype)
    if kind == "masked":
      return np.ma.masked_array(a, mask=np.arange(a.size).reshape(a.shape) % 2 == 0)
    if kind == "shm":
      s = self.m.SharedMemoryArray(shape, dtype)
      s[...] = a
      return s
    return a.copy()

  def derive(self, a, how):
    if how == "self":
      return a
    if how == "copy":
      return a.copy()
    if how == "plain":
      return self.np.asarray(a)
    if how == "T":
      return a.T
    if how == "step":
      return a.step() if self.sym else a[::2]
    k = int(how[4:])
    return a.rows(k) if self.sym else a[k:]

  def transfer(self, a):
    """Pickled here, unpickled elsewhere."""
    if not self.sym:
      return pickle.loads(pickle.dumps(a))
    f, args = a.__reduce_ex__(5)[:2]
    args = [npmodel.SharedMemory(x.name) if isinstance(x, npmodel.SharedMemory) else x for x in args]
    return f(*args)

  def handle(self, a):
    """The shared memory handle whose memory an array uses."""
    if self.sym:
      return a._handle
    b = a
    while b is not None and getattr(b, "shm", None) is None:
      b = getattr(b, "base", None)
      if not isinstance(b, self.np.ndarray):
        return None
    if b is None:
      return None
    return b.shm.state if self.np.may_share_memory(a, b) else None

  def expect(self, a):
    """What an array holds now, for comparison later."""
    if self.sym:
      return a
    return self.np.array(a, subok=True)

  def same(self, want, got, msg):
    ctx = self.ctx
    h = self.handle(got)
    ctx.check(h is None or not h.closed, f"{msg}: memory was released while the array is in use")
    ctx.check(isinstance(got, self.np.ndarray), f"{msg}: no array")
    ctx.check(len(want.shape) == len(got.shape) and conj([a == b for a, b in zip(want.shape, got.shape)]), f"{msg}: shape")
    ctx.check(want.dtype == got.dtype, f"{msg}: type")
    ctx.check(isinstance(want, self.np.ma.MaskedArray) == isinstance(got, self.np.ma.MaskedArray), f"{msg}: the mask is lost")
    if want.dtype.hasobject:
      if not self.sym:
        ctx.check(want.tolist() == got.tolist(), f"{msg}: contents")
      return
    if not self.sym:
      ctx.check(want.tobytes() == got.tobytes(), f"{msg}: contents")
      if isinstance(want, self.np.ma.MaskedArray):
        ctx.check(self.np.array_equal(want.mask, got.mask), f"{msg}: mask")
      return
    if want.shape and disj([d == 0 for d in want.shape]):
      return
    idx = []
    for q, d in enumerate(want.shape):
      i = core.mk(core.cur().fresh_int("idx"))
      core.cur().add(i.e >= 0, i.e < core._ie(d))
      idx.append(i)
    ctx.eq(got.elem(idx), want.elem(idx), f"{msg}: contents")


DTYPES = ["u1", ">i4", "V3", "c16", "V0", object]


def _source(ctx, kit, dtypes, kinds, rank, top):
  dt = ctx.choice("dtype", dtypes)
  r = ctx.cint("rank", 0, rank)
  shape = tuple(ctx.int(f"dim{q}", 0, top) for q in range(r))
  kind = ctx.choice("kind", kinds if dt != object else ["plain"])
  if kind == "shm":
    import numpy
    # The constructor itself is only for arrays that take up memory.
    ctx.assume(conj([numpy.dtype(dt).itemsize > 0, *[d > 0 for d in shape]]))
  a = kit.source(kind, shape, dt)
  how = ctx.choice("derived", ["self", "copy", "plain"] + (["rows1", "rows2", "step", "T"] if r else []))
  if kind == "masked":
    ctx.assume(how in ("self", "copy"))
  return a, kit.derive(a, how)


def _through(ctx, tier, route):
  kit = Kit(ctx)
  try:
    deep = tier == "thorough"
    dts = DTYPES if deep else [">i4", "V3", "V0", object]
    kinds = ["plain", "shm", "masked"] if route == "open" else ["shm"] if route == "pickle" else ["plain", "shm"]
    a, x = _source(ctx, kit, dts if route != "pickle" else ["<i4", "V3"], kinds, 3 if deep else 2, 9)
    ref = kit.expect(x)
    before = len(kit.w.blocks)
    mn = ctx.int("min_size", -3, 2000) if route != "pickle" else 0
    if route == "pickle":
      y = kit.transfer(x)
      kit.same(ref, y, "unpickled array")
      sent = set()
    else:
      s = kit.m.copy_to_shm({"k": [x, "s"], "e": ()}, min_size=mn)
      ctx.check(set(s) == {"k", "e"} and len(s["k"]) == 2 and s["k"][1] == "s", "the structure changed on the way")
      leaf = s["k"][0]
      for b in kit.w.blocks[before:]:
        ctx.check(x.nbytes >= mn, "an array below the minimum size is put into shared memory")
      sent = set() if isinstance(leaf, kit.np.ndarray) else {leaf.name}
      if route == "unlink":
        kit.m.unlink_shm(s)
        y = None
      else:
        out = kit.m.open_from_shm(s)
        ctx.check(out["k"][1] == "s" and out["e"] == (), "other leaves changed on the way")
        y = out["k"][0]
        del out
        kit.same(ref, y, "opened array")
      del s, leaf
    if y is not None:
      order = ctx.choice("drop", ["sender first", "view outlives", "plain"])
      if order == "sender first":
        if not kit.sym:
          del a, x
          gc.collect()
        kit.same(ref, y, "after the sender let go")
      elif order == "view outlives" and len(y.shape) and not kit.np.ndarray is None:
        v = kit.derive(y, "rows1")
        w = kit.expect(kit.derive(ref, "rows1")) if not kit.sym else kit.derive(ref, "rows1")
        del y
        if not kit.sym:
          gc.collect()
        kit.same(w, v, "a part of an array whose whole was dropped")
        del v, w
    a = x = y = None
    if not kit.sym:
      gc.collect()
    ref = None
    for b in kit.w.blocks:
      ctx.check(b.unlinked == (1 if b.name in sent else 0), f"memory block released {b.unlinked} times, sent: {b.name in sent}")
    for h in kit.w.handles:
      ctx.check(h.closed, "a handle on the memory stays open")
  finally:
    kit.done()


@harness("P29", "open", "arrays of rank 0..2 (thorough 3) with symbolic dimensions 0..9, itemsizes 0..16, Python objects; ordinary, in shared memory, or masked; whole, copied, sliced from the front, strided or transposed; any minimum size; sent, opened, used while parts and sender go away, dropped: same shape, type and contents, memory released exactly once and not while in use",
         quick_s=90, thorough_s=250, stubs=(S_NP,))
def p29_open(ctx, tier="quick"):
  _through(ctx, tier, "open")


@harness("P29", "unlink", "the same arrays sent and discarded without being opened: released exactly once", quick_s=60, thorough_s=150, stubs=(S_NP,))
def p29_unlink(ctx, tier="quick"):
  _through(ctx, tier, "unlink")


@harness("P29", "pickle", "arrays in shared memory (whole, copied, sliced, strided, transposed) pickled and unpickled elsewhere: same shape, type and contents", quick_s=60, thorough_s=150, stubs=(S_NP,))
def p29_pickle(ctx, tier="quick"):
  _through(ctx, tier, "pickle")


class _Pool:
  """multiprocessing.pool.ThreadPool on modelled threads."""

  made = []

  def __init__(self, processes=None, *a, **k):
    self.ex = sched.ThreadPoolExecutor(processes or 4)
    self.pending = self.most = 0
    _Pool.made.append(self)

  def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
    self.pending += 1
    self.most = max(self.most, self.pending)

    def run():
      try:
        return func(*args, **(kwds or {}))
      finally:
        self.pending -= 1

    return self.ex.submit(run)

  def close(self):
    pass

  terminate = join = close


def _async_mod():
  """The module on modelled threads, pool, memory and arrays."""
  if "async" not in _copy:
    fake = types.ModuleType("mmap")
    fake.mmap = npmodel.Mmap
    shm = types.ModuleType("multiprocessing.shared_memory")
    shm.SharedMemory = npmodel.SharedMemory
    pool = types.ModuleType("multiprocessing.pool")
    pool.ThreadPool = _Pool
    import multiprocessing.pool  # noqa: F401
    import multiprocessing.shared_memory  # noqa: F401
    m = sched.load_copy(MOD, {"numpy": npmodel.Np("numpy"), "mmap": fake, "multiprocessing.shared_memory": shm, "multiprocessing.pool": pool})
    # Called where an array is dropped: interpreters swallow what finalizers raise.
    _copy["del"] = m.SharedMemoryArray.__dict__.get("__del__")
    if _copy["del"]:
      del m.SharedMemoryArray.__del__
    _copy["async"] = m
    _copy["attrs"] = {k: v for k, v in m.SharedMemoryArray.__dict__.items() if k.startswith("_") and not k.startswith("__") and not callable(v)}
  m = _copy["async"]
  for k, v in _copy["attrs"].items():
    setattr(m.SharedMemoryArray, k, v)
  for k, v in list(m.SharedMemoryArray.__dict__.items()):
    if isinstance(v, sched.Lock):
      setattr(m.SharedMemoryArray, k, sched.Lock())
  return m


@harness("P29", "async_release", "1..3 received arrays dropped by two threads while deletion runs in a pool (1..2 threads, at most 0..2 requests outstanding), or by the dropping thread; the pool enabled once or twice at any time; schedules with at most 1 preemption: every block closed and unlinked exactly once, never more requests outstanding than allowed",
         quick_s=60, thorough_s=200, stubs=(S_NP, "threading and multiprocessing.pool: models, the schedule is a symbolic input"))
def p29_async(ctx, tier="quick"):
  npmodel.world = npmodel.World()
  npmodel.reset()
  w = npmodel.world
  _Pool.made = []
  with sched.installed(ctx, preempt=1 if tier == "quick" else 2) as s:
    m = _async_mod()
    A = m.SharedMemoryArray
    n = ctx.cint("arrays", 1, 3)
    threads, most = ctx.cint("pool", 1, 2), ctx.cint("outstanding", 0, 2)
    when = ctx.choice("enable", ["never", "first", "twice", "between"])
    metas = [m.copy_to_shm([npmodel.ndarray((4,), "i4")])[0] for _ in range(n)]
    if _copy["del"]:
      # What copy_to_shm dropped itself.
      for h in w.handles:
        ctx.check(h.closed == 0 or h.closed == 1, "handle")
    arrs = m.open_from_shm(metas)
    names = {x.name for x in metas}
    keep = ctx.cbool("last one stays the sender's")
    if keep:
      arrs[-1]._unlink_on_del = False

    def drop(k):
      a, arrs[k] = arrs[k], None
      if _copy["del"]:
        _copy["del"](a)

    if when in ("first", "twice"):
      A.enable_async_del(threads, most)
    if when == "twice":
      A.enable_async_del(1, 1)
    t = sched.Thread(target=lambda: [drop(k) for k in range(1, n)], name="dropper")
    t.start()
    if when == "between":
      A.enable_async_del(threads, most)
    drop(0)
    t.join()
    s.run_others()
    ctx.check(len(_Pool.made) == (0 if when == "never" else 1), "one pool")
    for p in _Pool.made:
      ctx.check(p.most <= max(threads, most), f"{p.most} requests outstanding")
    for k, b in enumerate(w.blocks):
      ctx.check(b.unlinked == (0 if keep and k == n - 1 else 1), f"block {k} of {n} unlinked {b.unlinked} times")
    for h in w.handles:
      ctx.check(h.closed or h.created, "a received array's memory stays mapped")
    ctx.check(not s.uncaught, f"a thread died: {s.uncaught}")
    del names
