"""A model of the parts of numpy and of shared memory that array transport uses.

Arrays have symbolic shapes; their bytes are an unknown function of the address.
Anything not modelled ends the path as unsupported (never as a violation).
"""

import types
import weakref

import numpy as real_np
import z3

from symx import core
from symx.core import Pruned

_cnt = [0]


def reset():
  _cnt[0] = 0


def _new():
  _cnt[0] += 1
  return _cnt[0]


class Mem:
  """A run of bytes: unknown ones, or what was last copied there."""

  def __init__(self, handle=None):
    self.id = _new()
    self.addr = self.id * 2**40
    self.F = z3.Function(f"mem{self.id}", z3.IntSort(), z3.IntSort())
    self.rec = None
    self.handle = handle


class Mmap:
  pass


class Buf:
  """memoryview of a shared memory block."""

  def __init__(self, shm):
    self.shm = shm
    self.mem = shm._block.mem
    self.size = shm.size
    self.nbytes = shm.size
    self.obj = shm._mmap

  def __len__(self):
    return self.size


class World:
  """All shared memory of the machine."""

  def __init__(self):
    self.blocks = []
    self.handles = []

  def find(self, name):
    for b in self.blocks:
      if b.name == name and not b.unlinked:
        return b
    raise FileNotFoundError(name)


class Block:

  def __init__(self, world, size):
    self.name = f"psm_{len(world.blocks)}"
    self.size = size
    self.mem = Mem()
    self.unlinked = 0


world = World()


class SharedMemory:

  def __init__(self, name=None, create=False, size=0, *, track=True):
    if not size >= 0:
      raise ValueError("'size' must be a positive integer")
    if create:
      if size == 0:
        raise ValueError("'size' must be a positive number different from zero")
      self._block = Block(world, size)
      world.blocks.append(self._block)
    else:
      self._block = world.find(name)
    self.created = create
    self._mmap = Mmap()
    self.state = types.SimpleNamespace(closed=0, block=self._block, created=create)
    world.handles.append(self.state)

  name = property(lambda self: self._block.name)
  size = property(lambda self: self._block.size)

  @property
  def buf(self):
    return None if self.state.closed else Buf(self)

  def close(self):
    self.state.closed += 1

  def __del__(self):
    if not self.state.closed:
      self.close()

  def unlink(self):
    if self._block.unlinked:
      raise FileNotFoundError(self.name)
    self._block.unlinked += 1

  def __reduce__(self):
    return SharedMemory, (self.name, False, self.size)


class _Flags:

  def __init__(self, c):
    self.c_contiguous = c
    self.contiguous = c

  def __getattr__(self, k):
    raise Pruned(f"numpy model: flags.{k}")

  def __getitem__(self, k):
    if k in ("C_CONTIGUOUS", "C", "CONTIGUOUS"):
      return self.c_contiguous
    raise Pruned(f"numpy model: flags[{k}]")


class _NdMeta(type):

  def __getattr__(cls, k):
    if k.startswith("__"):
      raise AttributeError(k)
    raise Pruned(f"numpy model: ndarray.{k}")


def prod(xs):
  r = 1
  for x in xs:
    r = r * x
  return r


def c_strides(shape, item):
  out, s = [], item
  for d in reversed(shape):
    out.append(s)
    s = s * d
  return tuple(reversed(out))


class ndarray(metaclass=_NdMeta):
  __array_priority__ = 0.0

  def __new__(cls, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
    if order not in (None, "C"):
      raise Pruned("numpy model: order")
    if isinstance(shape, (int, core.SInt)):
      shape = (shape,)
    shape = tuple(shape)
    dtype = real_np.dtype(dtype)
    if buffer is None:
      a = _make(cls, Mem(), 0, shape, strides or c_strides(shape, dtype.itemsize), dtype, None, None)
    else:
      if strides is not None:
        raise Pruned("numpy model: strides over a buffer")
      need = offset + prod(shape) * dtype.itemsize
      if need > buffer.size:
        raise TypeError("buffer is too small for requested array")
      a = _make(cls, buffer.mem, offset, shape, c_strides(shape, dtype.itemsize), dtype, buffer.obj, buffer.shm)
    a.__array_finalize__(None)
    return a

  def __array_finalize__(self, obj):
    pass

  def __getattr__(self, k):
    if k.startswith("__") or k in ("shm", "_unlink_on_del") or k.startswith("_"):
      raise AttributeError(k)
    raise Pruned(f"numpy model: ndarray.{k}")

  ndim = property(lambda self: len(self.shape))
  size = property(lambda self: prod(self.shape))
  nbytes = property(lambda self: prod(self.shape) * self.dtype.itemsize)
  itemsize = property(lambda self: self.dtype.itemsize)

  @property
  def flags(self):
    return _Flags(self._contig())

  def _contig(self):
    if core.disj([d == 0 for d in self.shape]) if self.shape else False:
      return True
    sd = self.dtype.itemsize
    for d, st in zip(reversed(self.shape), reversed(self.strides)):
      if d != 1 and st != sd:
        return False
      sd = sd * d
    return True

  @property
  def ctypes(self):
    return types.SimpleNamespace(data=self._mem.addr + self._off)

  @property
  def __array_interface__(self):
    return {"data": (self._mem.addr + self._off, False), "shape": self.shape, "typestr": self.dtype.str}

  def view(self, dtype=None, type=None):
    cls = type or dtype or self.__class__
    if not isinstance(cls, _NdMeta):
      raise Pruned("numpy model: view as another dtype")
    return _derive(cls, self, self._off, self.shape, self.strides)

  def copy(self, order="C"):
    if order not in ("C", None):
      raise Pruned("numpy model: copy order")
    a = _make(type(self), Mem(), 0, self.shape, c_strides(self.shape, self.dtype.itemsize), self.dtype, None, None)
    a.__array_finalize__(self)
    copyto(a, self)
    return a

  __copy__ = copy

  @property
  def T(self):
    return _derive(type(self), self, self._off, self.shape[::-1], self.strides[::-1], lambda i: i[::-1])

  def rows(self, k):
    """self[k:]"""
    k = k if k <= self.shape[0] else self.shape[0]
    return _derive(type(self), self, self._off + k * self.strides[0], (self.shape[0] - k,) + self.shape[1:], self.strides, lambda i: (i[0] + k,) + i[1:])

  def step(self):
    """self[::2]"""
    return _derive(type(self), self, self._off, ((self.shape[0] + 1) // 2,) + self.shape[1:], (self.strides[0] * 2,) + self.strides[1:], lambda i: (i[0] * 2,) + i[1:])

  def __reduce_ex__(self, protocol):
    c = _make(ndarray, Mem(), 0, self.shape, c_strides(self.shape, self.dtype.itemsize), self.dtype, None, None)
    copyto(c, self)
    return (lambda: c), ()

  def elem(self, idx):
    """The element at an index within the shape, as a number."""
    return self._get(tuple(idx))

  def _no(self, *a, **k):
    raise Pruned("numpy model: operation on an array")

  __getitem__ = __setitem__ = __len__ = __add__ = __mul__ = __iter__ = _no


def disj2(a, b):
  return core.disj([a, b])


def _reader(mem, off, shape, strides, dtype):
  """Reads an array that covers a run of memory, without keeping it alive."""

  def get(idx):
    rec = mem.rec
    if rec is None:
      a = off
      for i, s in zip(idx, strides):
        a = a + i * s
      return core.mk(mem.F(core._ie(a)))
    rshape, rstrides, rdtype, roff, fn = rec
    if len(rshape) == len(shape) and rdtype == dtype and core.conj(
        [roff == off, *[a == b for a, b in zip(rshape, shape)], *[disj2(d <= 1, a == b) for d, a, b in zip(shape, rstrides, strides)]]):
      return fn(idx)
    return core.mk(core.cur().fresh_int("byte"))

  return get


def _make(cls, mem, off, shape, strides, dtype, base, shm):
  a = object.__new__(cls)
  a._mem, a._off, a.shape, a.strides, a.dtype, a.base = mem, off, tuple(shape), tuple(strides), dtype, base
  a._handle = shm.state if isinstance(shm, SharedMemory) else shm
  a._get = _reader(mem, off, a.shape, a.strides, dtype)
  return a


def _derive(cls, src, off, shape, strides, f=lambda idx: idx):
  a = _make(cls, src._mem, off, shape, strides, src.dtype, src, src._handle)
  g = src._get
  a._get = lambda idx: g(f(idx))
  a.__array_finalize__(src)
  return a


def copyto(dst, src, casting="same_kind", where=True):
  if where is not True or len(dst.shape) != len(src.shape):
    raise Pruned("numpy model: copyto with broadcasting")
  if not core.conj([a == b for a, b in zip(dst.shape, src.shape)]):
    raise Pruned("numpy model: copyto with broadcasting")
  if dst.dtype != src.dtype:
    raise Pruned("numpy model: copyto with a cast")
  dst._mem.rec = (dst.shape, dst.strides, dst.dtype, dst._off, src._get)


def asarray(a, dtype=None):
  if dtype is not None and real_np.dtype(dtype) != a.dtype:
    raise Pruned("numpy model: asarray with a cast")
  if type(a) is ndarray:
    return a
  if not isinstance(a, ndarray):
    raise Pruned("numpy model: asarray of something else")
  return _derive(ndarray, a, a._off, a.shape, a.strides)


def array(a, dtype=None, copy=True, subok=False):
  if not copy:
    return asarray(a, dtype)
  c = asarray(a, dtype)
  return ndarray.copy(c)


def ascontiguousarray(a, dtype=None):
  a = asarray(a, dtype)
  if len(a.shape) == 0:
    raise Pruned("numpy model: ascontiguousarray of a scalar")
  return a if a._contig() else a.copy()


def may_share_memory(a, b, max_work=None):
  return isinstance(a, ndarray) and isinstance(b, ndarray) and a._mem is b._mem


def frombuffer(buf, dtype=float, count=-1, offset=0):
  d = real_np.dtype(dtype)
  if count == -1:
    count = (buf.size - offset) // d.itemsize
  if count * d.itemsize + offset > buf.size:
    raise ValueError("buffer is smaller than requested size")
  a = _make(ndarray, buf.mem, offset, (count,), (d.itemsize,), d, buf, buf.shm)
  return a


class MaskedArray(ndarray):
  """Only carries a mask that the plain data does not."""


class Np(types.ModuleType):
  """numpy: arrays are modelled, dtypes and scalars are real."""

  ndarray = ndarray
  _own = dict(ndarray=ndarray, copyto=copyto, asarray=asarray, asanyarray=lambda a: a, array=array, ascontiguousarray=ascontiguousarray,
              may_share_memory=may_share_memory, shares_memory=may_share_memory, frombuffer=frombuffer, prod=prod,
              ma=types.SimpleNamespace(MaskedArray=MaskedArray, masked_array=MaskedArray))

  def __getattr__(self, k):
    if k in self._own:
      return self._own[k]
    v = getattr(real_np, k)
    if isinstance(v, (type, types.ModuleType)) or not callable(v):
      return v
    raise Pruned(f"numpy model: {k}")
