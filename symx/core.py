"""Path-exploring symbolic executor for Python, on z3.

The functions under test are the real ones, imported from /repo: they run in
this interpreter, on proxy values (SInt, SBool, SFloat) that build z3 terms.
Whenever the code asks for the truth of a symbolic condition, or needs a machine
integer out of a symbolic one, the solver says which outcomes are possible under
the path condition and the explorer visits each of them (depth-first, by
re-execution from a decision prefix).  `Ctx.check(cond)` asks the solver for a
model of `path condition and not cond`.

The same harness runs in concrete mode (ConcreteCtx) on a recorded assignment,
with nothing patched: that is how counterexamples are replayed.
"""

from __future__ import annotations

import math
import os
import random
import threading
import time

import z3

z3.set_param("smt.random_seed", 1)


class PathEnd(BaseException):
  """Steers the explorer; never caught by code under test (BaseException)."""


class Infeasible(PathEnd):
  pass


class Pruned(PathEnd):
  """The path was cut by a bound (recorded; the exploration is incomplete)."""


class Violation(PathEnd):
  pass


class ConcreteFailure(Exception):
  pass


_CUR = None  # current Ctx (one at a time; worker threads share it)


def cur():
  if _CUR is None:
    raise RuntimeError("no symbolic context is active")
  return _CUR


def active():
  return _CUR is not None


# --------------------------------------------------------------------------
# proxies
# --------------------------------------------------------------------------


def is_sym(x):
  return isinstance(x, (SInt, SBool, SFloat))


def _ie(x):
  """z3 integer expression of an int-like, or None."""
  if isinstance(x, SInt):
    return x.e
  if isinstance(x, bool):
    return z3.IntVal(int(x))
  if isinstance(x, int):
    return z3.IntVal(x)
  if isinstance(x, SBool):
    return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
  if hasattr(x, "dtype") and hasattr(x, "item") and getattr(x, "shape", None) == ():
    v = x.item()
    if isinstance(v, int):
      return z3.IntVal(v)
    if isinstance(v, SInt):
      return v.e
  return None


def mk(e):
  """Wraps an int expression; constants come back as python ints."""
  e = z3.simplify(e)
  if z3.is_int_value(e):
    return e.as_long()
  return SInt(e)


def mkb(e):
  e = z3.simplify(e)
  if z3.is_true(e):
    return True
  if z3.is_false(e):
    return False
  return SBool(e)


def be(x):
  """z3 bool expression of a bool-like."""
  if isinstance(x, SBool):
    return x.e
  if isinstance(x, SInt):
    return x.e != 0
  return z3.BoolVal(bool(x))


class SBool:
  __slots__ = ("e",)

  def __init__(self, e):
    self.e = e

  def __bool__(self):
    return cur().branch(self.e)

  def __and__(self, o):
    if isinstance(o, (bool, SBool)):
      return mkb(z3.And(self.e, be(o)))
    return self._int() & o

  __rand__ = __and__

  def __or__(self, o):
    if isinstance(o, (bool, SBool)):
      return mkb(z3.Or(self.e, be(o)))
    return self._int() | o

  __ror__ = __or__

  def __xor__(self, o):
    return mkb(z3.Xor(self.e, be(o)))

  __rxor__ = __xor__

  def __invert__(self):
    return mkb(z3.Not(self.e))

  def logical_not(self):  # numpy object arrays
    return mkb(z3.Not(self.e))

  def _int(self):
    return mk(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

  def __int__(self):
    return int(bool(self))

  def __index__(self):
    return int(bool(self))

  def __add__(self, o):
    return self._int() + o

  __radd__ = __add__

  def __mul__(self, o):
    return self._int() * o

  __rmul__ = __mul__

  def __eq__(self, o):
    if isinstance(o, (bool, SBool)):
      return mkb(self.e == be(o))
    return self._int() == o

  def __ne__(self, o):
    return mkb(z3.Not(be(self.__eq__(o))))

  def __hash__(self):
    return hash(bool(self))

  def __repr__(self):
    return f"SBool({self.e})"

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def __reduce__(self):
    return (bool, (bool(self),))


def _floordiv_mod(a, b):
  """Python floor division and modulus of two z3 int expressions."""
  b = z3.simplify(b)
  if z3.is_int_value(b):
    bv = b.as_long()
    if bv == 0:
      raise ZeroDivisionError("integer division or modulo by zero")
    if bv > 0:
      return a / b, a % b
    nb = z3.IntVal(-bv)
    return (-a) / nb, -((-a) % nb)
  c = cur()
  if c.branch(b > 0):
    # Facts that spare the solver non-linear reasoning for small quotients.
    for k in range(-1, 3):
      c.lemma(z3.Implies(z3.And(k * b <= a, a < (k + 1) * b), z3.And(a / b == k, a % b == a - k * b)))
    return a / b, a % b
  if c.branch(b < 0):
    return (-a) / (-b), -((-a) % (-b))
  raise ZeroDivisionError("integer division or modulo by zero")


class SInt:
  __slots__ = ("e",)
  __array_priority__ = 1000

  def __init__(self, e):
    self.e = e

  # arithmetic
  def _bin(self, o, f, refl=False):
    oe = _ie(o)
    if oe is None:
      return NotImplemented
    return mk(f(oe, self.e) if refl else f(self.e, oe))

  def __add__(self, o):
    if isinstance(o, (float, SFloat)):
      return SFloat.of(self) + o
    return self._bin(o, lambda a, b: a + b)

  def __radd__(self, o):
    if isinstance(o, float):
      return SFloat.of(o) + self
    return self._bin(o, lambda a, b: a + b, True)

  def __sub__(self, o):
    if isinstance(o, (float, SFloat)):
      return SFloat.of(self) - o
    return self._bin(o, lambda a, b: a - b)

  def __rsub__(self, o):
    if isinstance(o, float):
      return SFloat.of(o) - self
    return self._bin(o, lambda a, b: a - b, True)

  def __mul__(self, o):
    if isinstance(o, (float, SFloat)):
      return SFloat.of(self) * o
    if isinstance(o, (list, tuple, str, bytes)):
      return self.__index__() * o
    return self._bin(o, lambda a, b: a * b)

  def __rmul__(self, o):
    if isinstance(o, float):
      return SFloat.of(o) * self
    if isinstance(o, (list, tuple, str, bytes)):
      return o * self.__index__()
    return self._bin(o, lambda a, b: a * b, True)

  def __floordiv__(self, o):
    oe = _ie(o)
    if oe is None:
      return NotImplemented
    return mk(_floordiv_mod(self.e, oe)[0])

  def __rfloordiv__(self, o):
    oe = _ie(o)
    if oe is None:
      return NotImplemented
    return mk(_floordiv_mod(oe, self.e)[0])

  def __mod__(self, o):
    oe = _ie(o)
    if oe is None:
      return NotImplemented
    return mk(_floordiv_mod(self.e, oe)[1])

  def __rmod__(self, o):
    if isinstance(o, str):
      return o % (repr(self),)
    oe = _ie(o)
    if oe is None:
      return NotImplemented
    return mk(_floordiv_mod(oe, self.e)[1])

  def __divmod__(self, o):
    oe = _ie(o)
    if oe is None:
      return NotImplemented
    q, r = _floordiv_mod(self.e, oe)
    return mk(q), mk(r)

  def __rdivmod__(self, o):
    oe = _ie(o)
    if oe is None:
      return NotImplemented
    q, r = _floordiv_mod(oe, self.e)
    return mk(q), mk(r)

  def __truediv__(self, o):
    return SFloat.of(self) / o

  def __rtruediv__(self, o):
    return SFloat.of(o) / self

  def __pow__(self, o, mod=None):
    if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 8:
      r = 1
      for _ in range(o):
        r = r * self
      return r if mod is None else r % mod
    return pow(self.__index__(), o if not is_sym(o) else o.__index__(), mod)

  def __rpow__(self, o):
    return o ** self.__index__()

  def __lshift__(self, o):
    return self * (1 << int_of(o))

  def __rlshift__(self, o):
    return o << self.__index__()

  def __rshift__(self, o):
    return self // (1 << int_of(o))

  def __rrshift__(self, o):
    return o >> self.__index__()

  def _bits(self, o, f):
    if isinstance(o, int) and not isinstance(o, bool):
      return f(self, o)
    return NotImplemented

  def __and__(self, o):
    if isinstance(o, int) and not isinstance(o, bool) and o >= 0 and (o & (o + 1)) == 0:
      return self % (o + 1)
    return self.__index__() & int_of(o)

  __rand__ = __and__

  def __or__(self, o):
    return self.__index__() | int_of(o)

  __ror__ = __or__

  def __xor__(self, o):
    return self.__index__() ^ int_of(o)

  __rxor__ = __xor__

  def __neg__(self):
    return mk(-self.e)

  def __pos__(self):
    return self

  def __abs__(self):
    return mk(z3.If(self.e >= 0, self.e, -self.e))

  def __invert__(self):
    return mk(-self.e - 1)

  # comparison
  def _cmp(self, o, f):
    if isinstance(o, (float, SFloat)):
      # Python compares int and float exactly.
      return f(z3.ToReal(self.e), SFloat.of(o).r)
    oe = _ie(o)
    if oe is None:
      return None
    return f(self.e, oe)

  def __lt__(self, o):
    if o == math.inf and isinstance(o, float):
      return True
    r = self._cmp(o, lambda a, b: a < b)
    return NotImplemented if r is None else mkb(r)

  def __le__(self, o):
    if isinstance(o, float) and o == math.inf:
      return True
    r = self._cmp(o, lambda a, b: a <= b)
    return NotImplemented if r is None else mkb(r)

  def __gt__(self, o):
    if isinstance(o, float) and o == math.inf:
      return False
    r = self._cmp(o, lambda a, b: a > b)
    return NotImplemented if r is None else mkb(r)

  def __ge__(self, o):
    if isinstance(o, float) and o == math.inf:
      return False
    r = self._cmp(o, lambda a, b: a >= b)
    return NotImplemented if r is None else mkb(r)

  def __eq__(self, o):
    if o is None or isinstance(o, (str, bytes, tuple, list, dict)):
      return False
    if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
      return False
    r = self._cmp(o, lambda a, b: a == b)
    return NotImplemented if r is None else mkb(r)

  def __ne__(self, o):
    r = self.__eq__(o)
    if r is NotImplemented:
      return r
    return mkb(z3.Not(be(r)))

  def __bool__(self):
    return cur().branch(self.e != 0)

  # leaving the symbolic world: fork over the possible values
  def __index__(self):
    return cur().concretize(self.e)

  def __int__(self):
    return self.__index__()

  def __float__(self):
    return float(self.__index__())

  def __hash__(self):
    return hash(self.__index__())

  def __trunc__(self):
    return self

  def __floor__(self):
    return self

  def __ceil__(self):
    return self

  def __round__(self, n=None):
    return self

  def bit_length(self):
    # Stays symbolic only through comparison forks.
    n = 0
    a = abs(self)
    while True:
      if not a >= (1 << n):
        return n
      n += 1
      if n > 80:
        raise Pruned("bit_length")

  def __format__(self, spec):
    return repr(self)

  def __repr__(self):
    return f"SInt({self.e})"

  def __str__(self):
    return repr(self)

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def __reduce__(self):
    return (int, (self.__index__(),))

  @property
  def real(self):
    return self

  @property
  def imag(self):
    return 0

  @property
  def numerator(self):
    return self

  @property
  def denominator(self):
    return 1

  def is_integer(self):
    return True

  def conjugate(self):
    return self


def int_of(x):
  return x.__index__() if is_sym(x) else x


_EPS = z3.Q(1, 2**53)
_P53 = 2**53


class SFloat:
  """A double known up to rounding.

  Each operation's exact real result is perturbed by a fresh error term bounded
  by the IEEE-754 round-to-nearest relative error (normal range).  Integers of
  magnitude up to 2**53 are exact and rounding never crosses one.  This
  over-approximates the real code: a counterexample that depends on it and does
  not replay is inconclusive, not a violation.
  """

  __slots__ = ("r", "n")
  levels = None  # quotients of positive unknowns: only compared with 0..levels

  def __init__(self, r, n=None):
    self.r = r
    self.n = n  # the integer it is, where that is known

  @classmethod
  def of(cls, x):
    if isinstance(x, SFloat):
      return x
    if isinstance(x, SInt):
      if cur()._check(z3.Or(x.e > _P53, x.e < -_P53))[0] == z3.unsat:
        return cls(z3.ToReal(x.e), x)
      return cls._round(z3.ToReal(x.e))
    if isinstance(x, int) and abs(x) <= 2**53:
      return cls(z3.RealVal(x), x)
    if isinstance(x, (int, float)):
      if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
        raise TypeError("non-finite float in symbolic arithmetic")
      n, d = float(x).as_integer_ratio()
      return cls(z3.Q(n, d))
    if hasattr(x, "item"):
      return cls.of(x.item())
    raise TypeError(f"cannot make a float of {type(x)}")

  @classmethod
  def _round(cls, exact):
    exact = z3.simplify(exact)
    if z3.is_rational_value(exact):
      n, d = exact.numerator_as_long(), exact.denominator_as_long()
      f = n / d
      n, d = f.as_integer_ratio()
      return cls(z3.Q(n, d))
    c = cur()
    f = c.fresh_real("fl")
    a = z3.If(exact >= 0, exact, -exact)
    c.add(f - exact <= a * _EPS, exact - f <= a * _EPS)
    fl = z3.ToInt(exact)
    c.add(
        z3.Implies(
            a <= _P53,
            z3.And(
                z3.ToReal(fl) <= f,
                f <= z3.ToReal(fl) + 1,
                z3.Implies(z3.ToReal(fl) == exact, f == exact),
            ),
        )
    )
    c.used_float = True
    return cls(f)

  def _b(self, o, f, refl=False):
    try:
      o = SFloat.of(o)
    except TypeError:
      return NotImplemented
    if self.n is not None and o.n is not None:
      return SFloat.of(f(o.n, self.n) if refl else f(self.n, o.n))
    return SFloat._round(f(o.r, self.r) if refl else f(self.r, o.r))

  def __add__(self, o):
    return self._b(o, lambda a, b: a + b)

  def __radd__(self, o):
    return self._b(o, lambda a, b: a + b, True)

  def __sub__(self, o):
    return self._b(o, lambda a, b: a - b)

  def __rsub__(self, o):
    return self._b(o, lambda a, b: a - b, True)

  def __mul__(self, o):
    return self._b(o, lambda a, b: a * b)

  def __rmul__(self, o):
    return self._b(o, lambda a, b: a * b, True)

  @staticmethod
  def _div(a, b):
    bs = z3.simplify(b)
    if z3.is_rational_value(bs):
      if bs.numerator_as_long() == 0:
        raise ZeroDivisionError("float division by zero")
    elif cur().branch(b == 0):
      raise ZeroDivisionError("float division by zero")
    return a / b

  def __truediv__(self, o):
    o = SFloat.of(o)
    if isinstance(o.n, int) and o.n > 0 and o.n & (o.n - 1) == 0 and o.n < 2**60:
      # A power of two only moves the exponent (normal range).
      return SFloat(z3.simplify(self.r / o.n))
    return SFloat._quot(self.r, o.r)

  def __rtruediv__(self, o):
    return SFloat._quot(SFloat.of(o).r, self.r)

  @classmethod
  def _quot(cls, a, b):
    if cls.levels is None or z3.is_rational_value(z3.simplify(b)) or cur()._check(z3.Not(z3.And(a >= 0, b > 0)))[0] != z3.unsat:
      return cls._round(cls._div(a, b))
    # Linear consequences of f = fl(a / b): weaker than the definition, so a
    # claim that holds with them holds.
    c = cur()
    f = c.fresh_real("fl")
    c.add(f >= 0)
    for k in range(1, cls.levels + 1):
      c.add(z3.Implies(f < k, a < k * b), z3.Implies(f >= k, a >= (k - z3.Q(k, 10**10)) * b))
    c.used_float = True
    return cls(f)

  def __floordiv__(self, o):
    return (self / o).__floor__()

  def _c(self, o, f):
    if isinstance(o, float) and math.isinf(o):
      return None
    try:
      return mkb(f(self.r, SFloat.of(o).r))
    except TypeError:
      return NotImplemented

  def __lt__(self, o):
    r = self._c(o, lambda a, b: a < b)
    return (o > 0) if r is None else r

  def __le__(self, o):
    r = self._c(o, lambda a, b: a <= b)
    return (o > 0) if r is None else r

  def __gt__(self, o):
    r = self._c(o, lambda a, b: a > b)
    return (o < 0) if r is None else r

  def __ge__(self, o):
    r = self._c(o, lambda a, b: a >= b)
    return (o < 0) if r is None else r

  def __eq__(self, o):
    if o is None:
      return False
    r = self._c(o, lambda a, b: a == b)
    return False if r is None else r

  def __ne__(self, o):
    return mkb(z3.Not(be(self.__eq__(o))))

  def __hash__(self):
    raise Pruned("hash of a symbolic float")

  def __bool__(self):
    return cur().branch(self.r != 0)

  def __floor__(self):
    return mk(z3.ToInt(self.r))

  def __ceil__(self):
    return mk(-z3.ToInt(-self.r))

  def __trunc__(self):
    if cur().branch(self.r >= 0):
      return self.__floor__()
    return self.__ceil__()

  def __round__(self, n=None):
    if n is not None:
      return self
    raise Pruned("round of a symbolic float")

  def __int__(self):
    return int_of(self.__trunc__())

  def __float__(self):
    raise Pruned("float() of a symbolic float")

  def __neg__(self):
    return SFloat(-self.r)

  def __abs__(self):
    return SFloat(z3.If(self.r >= 0, self.r, -self.r))

  def is_integer(self):
    return mkb(z3.ToReal(z3.ToInt(self.r)) == self.r)

  def __format__(self, spec):
    return "SFloat"

  def __repr__(self):
    return f"SFloat({self.r})"

  def __deepcopy__(self, memo):
    return self


# --------------------------------------------------------------------------
# replacements for builtins whose C implementation insists on machine ints
# --------------------------------------------------------------------------

import builtins as _b


def s_len(x, /):
  t = type(x)
  f = getattr(t, "__len__", None)
  if f is None or not _b.hasattr(f, "__code__"):
    return _b.len(x)
  r = f(x)
  if isinstance(r, SInt):
    return r
  return _b.len(x) if not isinstance(r, int) or r < 0 or r > 2**63 - 1 else r


class s_range:
  """range() that accepts symbolic bounds; loops fork as they go."""

  def __new__(cls, *a):
    if not any(is_sym(x) for x in a):
      return _b.range(*a)
    return super().__new__(cls)

  def __init__(self, *a):
    if len(a) == 1:
      self.start, self.stop, self.step = 0, a[0], 1
    elif len(a) == 2:
      self.start, self.stop, self.step = a[0], a[1], 1
    else:
      self.start, self.stop, self.step = a

  def __iter__(self):
    i = self.start
    up = self.step > 0
    while (i < self.stop) if up else (i > self.stop):
      yield i
      i = i + self.step

  def __len__(self):
    if self.step > 0:
      n = (self.stop - self.start + self.step - 1) // self.step
    else:
      n = (self.start - self.stop - self.step - 1) // (-self.step)
    return n if n > 0 else 0

  def __getitem__(self, k):
    if isinstance(k, slice):
      raise Pruned("slice of a symbolic range")
    n = s_len(self)
    if k < 0:
      k = k + n
    if k < 0 or k >= n:
      raise IndexError("range object index out of range")
    return self.start + k * self.step


class _IntMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, int) or isinstance(x, SInt)

  def __subclasscheck__(cls, c):
    return issubclass(c, (int, SInt))

  def __call__(cls, *a, **k):
    if len(a) == 1 and not k:
      x = a[0]
      if isinstance(x, SInt):
        return x
      if isinstance(x, SBool):
        return x._int()
      if isinstance(x, SFloat):
        return x.__trunc__()
    return int(*a, **k)

  def __or__(cls, o):
    return int | o

  def __ror__(cls, o):
    return o | int

  def __eq__(cls, o):
    return o is int or o is cls

  def __hash__(cls):
    return hash(int)


class s_int(metaclass=_IntMeta):
  from_bytes = int.from_bytes


class _FloatMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, (float, SFloat))

  def __call__(cls, *a):
    if len(a) == 1:
      if isinstance(a[0], SFloat):
        return a[0]
      if isinstance(a[0], SInt):
        return SFloat.of(a[0])
    return float(*a)

  def __or__(cls, o):
    return float | o

  def __ror__(cls, o):
    return o | float


class s_float(metaclass=_FloatMeta):
  pass


def _pick(args, better):
  it = iter(args)
  try:
    best = next(it)
  except StopIteration:
    raise ValueError("iterable argument is empty")
  for x in it:
    if better(x, best):
      best = x
  return best


def _minmax(orig, lt):
  def f(*args, **kw):
    if kw:
      return orig(*args, **kw)
    seq = list(args[0]) if len(args) == 1 else args
    if not any(is_sym(x) for x in seq):
      return orig(*args) if len(args) > 1 else orig(seq)
    # Merge integer minima into one term instead of forking.
    if all(_ie(x) is not None for x in seq):
      e = _ie(seq[0])
      for x in seq[1:]:
        xe = _ie(x)
        e = z3.If(xe < e if lt else xe > e, xe, e)
      return mk(e)
    return orig(seq)

  return f


s_min = _minmax(_b.min, True)
s_max = _minmax(_b.max, False)

class SSlice:
  """A slice with symbolic parts; slice.indices as CPython specifies it."""

  def __init__(self, start, stop, step):
    self.start, self.stop, self.step = start, stop, step

  def indices(self, n):
    step = 1 if self.step is None else self.step
    if step == 0:
      raise ValueError("slice step cannot be zero")
    neg_ = bool(step < 0)
    lo, hi = (-1, n - 1) if neg_ else (0, n)

    def clamp(v, dflt):
      if v is None:
        return dflt
      if v < 0:
        v = v + n
        return lo if v < lo else v
      return hi if v > hi else v

    return clamp(self.start, hi if neg_ else lo), clamp(self.stop, lo if neg_ else hi), step

  def __repr__(self):
    return f"slice({self.start}, {self.stop}, {self.step})"


def sym_slice(sl, n=0):
  """The same slice, as SSlice if a part (or the length) is symbolic."""
  if isinstance(sl, slice) and any(is_sym(x) for x in (sl.start, sl.stop, sl.step, n)):
    return SSlice(sl.start, sl.stop, sl.step)
  return sl


class _SliceMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, (slice, SSlice))

  def __call__(cls, *a):
    return slice(*a)

  def __or__(cls, o):
    return slice | o

  def __ror__(cls, o):
    return o | slice


class s_slice(metaclass=_SliceMeta):
  pass


SHADOW = {
    "slice": s_slice,
    "len": s_len,
    "range": s_range,
    "int": s_int,
    "float": s_float,
    "min": s_min,
    "max": s_max,
}

# --------------------------------------------------------------------------
# explorer
# --------------------------------------------------------------------------


class Stats:

  def __init__(self):
    self.paths = 0
    self.pruned = 0
    self.infeasible = 0
    self.queries = 0
    self.unknown = 0
    self.branch_queries = 0
    self.solver_s = 0.0
    self.checks = 0
    self.reach = {}
    self.prune_reasons = {}
    self.samples = []
    self.exhausted = True
    self.functions = set()

  def merge(self, o):
    for k in ("paths", "pruned", "infeasible", "queries", "unknown",
              "branch_queries", "solver_s", "checks"):
      setattr(self, k, getattr(self, k) + getattr(o, k))
    for k, v in o.reach.items():
      self.reach[k] = self.reach.get(k, 0) + v
    for k, v in o.prune_reasons.items():
      self.prune_reasons[k] = self.prune_reasons.get(k, 0) + v
    self.exhausted = self.exhausted and o.exhausted
    self.functions |= o.functions
    self.samples += o.samples


class Cex:

  def __init__(self, msg, assignment, approx):
    self.msg = msg
    self.assignment = assignment
    self.approx = approx


class Ctx:
  """Symbolic context of one path."""

  symbolic = True

  def __init__(self, prefix, stats, explorer):
    self.prefix = prefix
    self.pos = 0
    self.taken = []
    self.stats = stats
    self.explorer = explorer
    self.solver = z3.Solver()
    self.solver.set("timeout", explorer.query_timeout_ms)
    self.inputs = {}
    self.model = None
    self.nfresh = 0
    self.used_float = False
    self.failed = None
    self.conc_count = {}

  # -- solver plumbing
  def add(self, *cs):
    self.solver.add(*cs)
    if self.model is not None:
      for c in cs:
        if not z3.is_true(self.model.eval(c, model_completion=True)):
          self.model = None
          break

  def _check(self, *assumptions):
    t = time.time()
    if assumptions:
      self.solver.push()
      self.solver.add(*assumptions)
    r = self.solver.check()
    m = self.solver.model() if r == z3.sat else None
    if assumptions:
      self.solver.pop()
    dt = time.time() - t
    self.stats.solver_s += dt
    self.stats.queries += 1
    if r == z3.unknown:
      self.stats.unknown += 1
    return r, m

  def get_model(self):
    if self.model is None:
      r, m = self._check()
      if r == z3.unsat:
        raise Infeasible()
      if r == z3.unknown:
        raise Pruned("solver unknown on path condition")
      self.model = m
    return self.model

  def fresh_real(self, name):
    self.nfresh += 1
    return z3.Real(f"_{name}{self.nfresh}")

  def fresh_int(self, name):
    self.nfresh += 1
    return z3.Int(f"_{name}{self.nfresh}")

  def lemma(self, e):
    """Adds a valid fact."""
    self.solver.add(e)

  # -- decisions
  def _tick(self):
    self.explorer.tick()

  def branch(self, e):
    e = z3.simplify(e)
    if z3.is_true(e):
      return True
    if z3.is_false(e):
      return False
    if self.failed is not None:
      raise Infeasible()
    self._tick()
    if self.pos < len(self.prefix):
      d = self.prefix[self.pos]
      self.pos += 1
      v = d
      self.taken.append(d)
      self.add(e if v else z3.Not(e))
      return v
    m = self.get_model()
    mv = z3.is_true(m.eval(e, model_completion=True))
    # The model's side is feasible; ask about the other.
    self.stats.branch_queries += 1
    r, m2 = self._check(z3.Not(e) if mv else e)
    if r == z3.unsat:
      # implied: record so that replays stay aligned
      self.taken.append(mv)
      self.pos += 1
      return mv
    if r == z3.unknown:
      self.explorer.note_unknown()
    self.explorer.push(self.taken + [not mv])
    self.taken.append(mv)
    self.pos += 1
    self.solver.add(e if mv else z3.Not(e))
    return mv

  def concretize(self, e, limit=None):
    e = z3.simplify(e)
    if z3.is_int_value(e):
      return e.as_long()
    if self.failed is not None:
      raise Infeasible()
    self._tick()
    limit = limit or self.explorer.conc_limit
    n = 0
    while True:
      if self.pos < len(self.prefix):
        d = self.prefix[self.pos]
        self.pos += 1
        self.taken.append(d)
        kind, v = d
        n += 1
        if kind == "eq":
          self.add(e == v)
          return v
        self.add(e != v)
        continue
      if n >= limit:
        __import__("os").environ.get("SYMX_DEBUG") and __import__("traceback").print_stack(limit=8)
        raise Pruned(f"more than {limit} values for a machine integer")
      m = self.get_model()
      v = m.eval(e, model_completion=True).as_long()
      self.stats.branch_queries += 1
      r, _ = self._check(e != v)
      if r != z3.unsat:
        if r == z3.unknown:
          self.explorer.note_unknown()
        self.explorer.push(self.taken + [("ne", v)])
      self.taken.append(("eq", v))
      self.pos += 1
      self.solver.add(e == v)
      return v

  # -- harness API
  def int(self, name, lo=None, hi=None):
    v = z3.Int(name)
    self.inputs[name] = ("int", v)
    if lo is not None:
      self.add(v >= lo)
    if hi is not None:
      self.add(v <= hi)
    if lo is not None and lo == hi:
      return lo
    return SInt(v)

  def cint(self, name, lo, hi):
    """A bounded input that the harness needs as a machine integer."""
    x = self.int(name, lo, hi)
    return x if isinstance(x, int) else self.concretize(x.e, limit=hi - lo + 2)

  def bool(self, name):
    v = z3.Bool(name)
    self.inputs[name] = ("bool", v)
    return SBool(v)

  def cbool(self, name):
    return bool(self.bool(name))

  def choice(self, name, options):
    return options[self.cint(name, 0, len(options) - 1)]

  def token(self, name):
    """An arbitrary element payload (the code must not look inside)."""
    return self.int(name)

  def assume(self, c):
    if is_sym(c):
      e = be(c)
      self.solver.add(e)
      self.model = None
      r, m = self._check()
      if r == z3.unsat:
        raise Infeasible()
      self.model = m
    elif not c:
      raise Infeasible()

  def check(self, cond, msg="", **info):
    self.stats.checks += 1
    if self.failed is not None:
      raise Infeasible()
    if not is_sym(cond):
      if cond:
        return
      m = self.get_model()
      self._fail(msg, m)
    e = be(cond)
    r, m = self._check(z3.Not(e))
    if r == z3.unsat:
      return
    if r == z3.unknown:
      self.explorer.note_unknown()
      return
    self._fail(msg, m)

  def eq(self, a, b, msg=""):
    self.check(deep_eq(a, b), msg)

  def _fail(self, msg, m):
    assignment = {}
    for k, (kind, v) in self.inputs.items():
      val = m.eval(v, model_completion=True)
      assignment[k] = val.as_long() if kind == "int" else bool(z3.is_true(val))
    self.failed = Cex(msg, assignment, self.used_float)
    raise Violation(msg)

  def reach(self, tag):
    self.stats.reach[tag] = self.stats.reach.get(tag, 0) + 1

  def current_assignment(self):
    m = self.get_model()
    return {
        k: (m.eval(v, model_completion=True).as_long() if kind == "int" else z3.is_true(m.eval(v, model_completion=True)))
        for k, (kind, v) in self.inputs.items()
    }


class OutOfTime(PathEnd):
  pass


class Explorer:

  def __init__(self, *, budget_s=60.0, max_paths=10**9, query_timeout_ms=20000,
               conc_limit=40, path_s=60.0):
    self.budget_s = budget_s
    self.max_paths = max_paths
    self.query_timeout_ms = query_timeout_ms
    self.conc_limit = conc_limit
    self.path_s = path_s
    self.work = []
    self.rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    self.stats = Stats()
    self.deadline = None
    self.path_deadline = None
    self.poll = None

  def push(self, prefix):
    self.work.append(prefix)

  def pop(self):
    """Some open prefix.

    Any order is right; when the budget ends early a spread over all depths
    covers more than finishing one corner, so depths are drawn at random.
    """
    if len(self.work) > 1 and self.rng.random() < 0.6:
      k = len(self.work)
      best = self.rng.randrange(k)
      for _ in range(3):
        j = self.rng.randrange(k)
        if len(self.work[j]) < len(self.work[best]):
          best = j
      self.work[best], self.work[-1] = self.work[-1], self.work[best]
    return self.work.pop()

  def note_unknown(self):
    self.stats.exhausted = False

  def tick(self):
    now = time.time()
    if now > self.deadline:
      raise OutOfTime()
    if now > self.path_deadline:
      raise Pruned("path time limit")

  def run(self, fn):
    """Explores fn(ctx). Returns a Cex or None."""
    return explore(self, fn, [[]], time.time())


def explore(ex, fn, work, t0):
  """Depth-first exploration of fn from the given decision prefixes."""
  global _CUR
  ex.deadline = t0 + ex.budget_s
  ex.work = work
  while ex.work:
    if time.time() > ex.deadline or ex.stats.paths >= ex.max_paths:
      ex.stats.exhausted = False
      break
    if ex.poll is not None:
      ex.poll(ex)
    prefix = ex.pop()
    ex.path_deadline = time.time() + ex.path_s
    ctx = Ctx(prefix, ex.stats, ex)
    _CUR = ctx
    try:
      fn(ctx)
      if ctx.failed is None:
        ex.stats.paths += 1
        n = ex.stats.paths
        if n <= 2 or (n & (n - 1)) == 0:
          if len(ex.stats.samples) < 12:
            ex.stats.samples.append(ctx.current_assignment())
    except Infeasible:
      if ctx.failed is None:
        ex.stats.infeasible += 1
    except Pruned as p:
      ex.stats.pruned += 1
      ex.stats.exhausted = False
      k = str(p)
      ex.stats.prune_reasons[k] = ex.stats.prune_reasons.get(k, 0) + 1
    except OutOfTime:
      ex.stats.exhausted = False
      break
    except Violation:
      pass
    except RecursionError:
      ex.stats.pruned += 1
      ex.stats.exhausted = False
    except Exception as e:  # an exception the property does not allow
      if ctx.failed is None:
        import traceback

        tb = traceback.format_exc(limit=-8)
        try:
          ctx._fail(f"unexpected {type(e).__name__}: {str(e)[:300]}\n{tb}", ctx.get_model())
        except PathEnd:
          pass
    finally:
      _CUR = None
    if ctx.failed is not None:
      return ctx.failed
  return None


# --------------------------------------------------------------------------
# structural equality producing one solver term
# --------------------------------------------------------------------------


def deep_eq(a, b):
  if is_sym(a) or is_sym(b):
    if a is None or b is None:
      return False
    r = a == b
    return False if r is NotImplemented else r
  if isinstance(a, dict) and isinstance(b, dict):
    if list(sorted(map(repr, a))) != list(sorted(map(repr, b))):
      return False
    return conj([deep_eq(v, b[k]) for k, v in a.items()])
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    if len(a) != len(b):
      return False
    return conj([deep_eq(x, y) for x, y in zip(a, b)])
  if hasattr(a, "dtype") or hasattr(b, "dtype"):
    import numpy as np

    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
      return False
    return conj([deep_eq(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist())])
  try:
    return bool(a == b)
  except Exception:
    return False


def conj(xs):
  es = []
  for x in xs:
    if isinstance(x, (bool, int)) and not is_sym(x):
      if not x:
        return False
      continue
    es.append(be(x))
  if not es:
    return True
  return mkb(z3.And(*es))


def disj(xs):
  es = []
  for x in xs:
    if not is_sym(x):
      if x:
        return True
      continue
    es.append(be(x))
  if not es:
    return False
  return mkb(z3.Or(*es))


def implies(a, b):
  return disj([neg(a), b])


def neg(a):
  if is_sym(a):
    return mkb(z3.Not(be(a)))
  return not a


# --------------------------------------------------------------------------
# concrete mode
# --------------------------------------------------------------------------


class ConcreteCtx:
  symbolic = False

  def __init__(self, assignment):
    self.assignment = assignment
    self.failures = []
    self.checks = 0

  def int(self, name, lo=None, hi=None):
    v = self.assignment.get(name)
    if v is None:
      v = lo if lo is not None else (hi if hi is not None else 0)
    return v

  cint = int

  def bool(self, name):
    return bool(self.assignment.get(name, False))

  cbool = bool

  def choice(self, name, options):
    return options[self.int(name, 0, len(options) - 1)]

  def token(self, name):
    return self.int(name)

  def assume(self, c):
    if not c:
      raise Infeasible()

  def check(self, cond, msg="", **info):
    self.checks += 1
    if not cond:
      raise ConcreteFailure(msg)

  def eq(self, a, b, msg=""):
    if not deep_eq(a, b):
      raise ConcreteFailure(f"{msg}: got {str(a)[:600]!s} expected {str(b)[:600]!s}")

  def reach(self, tag):
    pass
