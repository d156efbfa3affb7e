"""Typed arrays with symbolic elements: what stacking and casting do to values."""

import types

import numpy as real_np
import z3

from symx import core
from symx.core import Pruned

_ROUND = z3.Function("float_rounding", z3.IntSort(), z3.IntSort(), z3.IntSort())
_WILD = z3.Function("float_to_int", z3.IntSort(), z3.IntSort())


def irange(dt):
  dt = real_np.dtype(dt)
  if dt.kind == "b":
    return 0, 1
  if dt.kind in "iu":
    ii = real_np.iinfo(dt)
    return int(ii.min), int(ii.max)
  p = 2 ** (real_np.finfo(dt).nmant + 1)  # whole numbers that the type represents exactly
  return -p, p


def cast(v, src, dst):
  """The value v of type src stored as dst (whole numbers and strings)."""
  if src == dst:
    return v
  if dst.kind in "US":
    if src.kind != dst.kind:
      raise Pruned("dtype model: number to string")
    return v[: dst.itemsize // real_np.dtype(dst.kind + "1").itemsize]
  if dst.hasobject:
    return v
  lo, hi = irange(dst)
  if dst.kind == "b":
    return 1 if v != 0 else 0
  if lo <= irange(src)[0] and irange(src)[1] <= hi:
    return v
  if dst.kind in "iu":
    if lo <= v and v <= hi:
      return v
    return (v - lo) % (hi - lo + 1) + lo if src.kind in "iub" else core.mk(_WILD(core._ie(v)))
  if lo <= v and v <= hi:
    return v
  return core.mk(_ROUND(core._ie(v), z3.IntVal(dst.itemsize)))


class Arr:
  """A typed array; `flat` holds the elements in C order."""

  def __init__(self, dtype, shape, flat):
    self.dtype, self.shape, self.flat = real_np.dtype(dtype), tuple(shape), list(flat)
    n = 1
    for d in self.shape:
      n *= d
    if n != len(self.flat):
      raise AssertionError("model array: wrong number of elements")

  ndim = property(lambda self: len(self.shape))
  size = property(lambda self: len(self.flat))
  nbytes = property(lambda self: len(self.flat) * self.dtype.itemsize)
  itemsize = property(lambda self: self.dtype.itemsize)
  base = None

  def __setitem__(self, i, x):
    x = asany(x)
    if x.shape != self.shape[1:]:
      raise ValueError("could not broadcast")
    k = len(x.flat)
    if not 0 <= i < self.shape[0]:
      raise IndexError(i)
    self.flat[i * k:(i + 1) * k] = [cast(v, x.dtype, self.dtype) for v in x.flat]

  def __len__(self):
    return self.shape[0]

  def astype(self, dt, **_):
    dt = real_np.dtype(dt)
    return Arr(dt, self.shape, [cast(v, self.dtype, dt) for v in self.flat])

  def __getattr__(self, k):
    if k.startswith("__"):
      raise AttributeError(k)
    raise Pruned(f"dtype model: ndarray.{k}")


def asany(x, dtype=None):
  if not isinstance(x, Arr):
    raise Pruned("dtype model: array from something else")
  return x if dtype is None else x.astype(dtype)


def empty(shape, dtype=float, **_):
  n = 1
  shape = (shape,) if isinstance(shape, int) else tuple(shape)
  for d in shape:
    n *= d
  return Arr(dtype, shape, [0] * n)


def copyto(dst, src, casting="same_kind", where=True):
  if where is not True or dst.shape != src.shape:
    raise Pruned("dtype model: copyto with broadcasting")
  if not real_np.can_cast(src.dtype, dst.dtype, casting):
    raise TypeError(f"Cannot cast array data from {src.dtype} to {dst.dtype} according to the rule {casting!r}")
  dst.flat[:] = [cast(v, src.dtype, dst.dtype) for v in src.flat]


def result_type(*xs):
  return real_np.result_type(*[x.dtype if isinstance(x, Arr) else x for x in xs])


def stack(xs, axis=0, out=None, *, dtype=None, casting="same_kind"):
  xs = [asany(x) for x in xs]
  if axis != 0:
    raise Pruned("dtype model: axis")
  if len({x.shape for x in xs}) != 1:
    raise ValueError("all input arrays must have the same shape")
  shape = (len(xs),) + xs[0].shape
  res = real_np.dtype(dtype) if dtype is not None else out.dtype if out is not None else result_type(*xs)
  for x in xs:
    if not real_np.can_cast(x.dtype, res, casting):
      raise TypeError(f"Cannot cast array data from {x.dtype} to {res} according to the rule {casting!r}")
  flat = [cast(v, x.dtype, res) for x in xs for v in x.flat]
  if out is None:
    return Arr(res, shape, flat)
  if out.shape != shape:
    raise ValueError("Output array is the wrong shape")
  out.flat[:] = flat
  return out


def concatenate(xs, axis=0, out=None, **kw):
  xs = [asany(x) for x in xs]
  parts = [Arr(x.dtype, x.shape[1:], x.flat[q * (len(x.flat) // x.shape[0]):(q + 1) * (len(x.flat) // x.shape[0])]) for x in xs for q in range(x.shape[0])]
  if axis != 0 or not parts:
    raise Pruned("dtype model: concatenate")
  return stack(parts, out=out, **kw)


def expand_dims(x, axis):
  if axis != 0:
    raise Pruned("dtype model: axis")
  return Arr(x.dtype, (1,) + x.shape, x.flat)


def full(shape, fill_value, dtype=None):
  a = empty(shape, dtype)
  if not isinstance(fill_value, Arr):
    fill_value = Arr(real_np.dtype(dtype) if core.is_sym(fill_value) else real_np.asarray(fill_value).dtype, (), [fill_value])
  a.flat = [cast(fill_value.flat[0], fill_value.dtype, a.dtype)] * len(a.flat)
  return a


class Np(types.ModuleType):
  _own = dict(ndarray=Arr, asarray=asany, asanyarray=asany, array=asany, empty=empty, zeros=empty, copyto=copyto, result_type=result_type,
              stack=stack, concatenate=concatenate, expand_dims=expand_dims, full=full)

  def __getattr__(self, k):
    if k in self._own:
      return self._own[k]
    v = getattr(real_np, k)
    if isinstance(v, (type, types.ModuleType)) or not callable(v) or k in ("can_cast", "promote_types", "iinfo", "finfo"):
      return v
    raise Pruned(f"dtype model: {k}")
