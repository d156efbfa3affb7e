"""The C++ index shuffle, from clang's intermediate representation of the current source."""

import ctypes
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

import z3

from symx import llvm, registry

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SRC = "grain/_src/python/experimental/index_shuffle/index_shuffle.cc"


def _compile(rounds, native):
  """Returns IR text, or a loaded shared library with the real seed sequence."""
  d = tempfile.mkdtemp(prefix="symx_cxx_")
  try:
    src = os.path.join(d, "w.cc")
    with open(src, "w") as f:
      if not native:
        f.write(f'#include "{HERE}/native/seed_stub.h"\n')
      f.write(f'#define SYMX_ROUNDS {rounds}\n#include "{SRC}"\n#include "{HERE}/native/shuffle_entry.inc"\n')
    if native:
      out = os.path.join(d, "w.so")
      cmd = ["clang++-18", "-std=c++17", "-O2", "-shared", "-fPIC"]
    else:
      out = os.path.join(d, "w.ll")
      cmd = ["clang++-18", "-std=c++17", "-O1", "-fno-exceptions", "-fno-rtti", "-fno-vectorize", "-fno-slp-vectorize", "-S", "-emit-llvm"]
    p = subprocess.run(cmd + [f"-I{REPO}", "-w", src, "-o", out], capture_output=True, text=True)
    if p.returncode:
      raise llvm.Unsupported("does not compile: " + p.stderr[-600:])
    if native:
      lib = ctypes.CDLL(out)
      lib.symx_shuffle.restype = ctypes.c_uint64
      lib.symx_shuffle.argtypes = [ctypes.c_uint64, ctypes.c_uint64, ctypes.c_uint32]
      return lib
    with open(out) as f:
      return f.read()
  finally:
    shutil.rmtree(d, ignore_errors=True)


class Bits:
  """Hash-consed AND/XOR bit graph of bit-vector terms."""

  def __init__(self):
    self.nodes = {}
    self.defs = []
    self.memo = {}

  def mk(self, *d):
    n = self.nodes.get(d)
    if n is None:
      n = self.nodes[d] = len(self.defs)
      self.defs.append(d)
    return n

  @property
  def f(self):
    return self.mk("0")

  def xor(self, a, b, neg=False):
    """XOR of sorted sets of leaves, so that equal sums are the same node."""
    def parts(n):
      d = self.defs[n]
      if d[0] == "0":
        return frozenset(), False
      if d[0] == "x":
        return d[1], d[2]
      return frozenset([n]), False
    pa, na = parts(a)
    pb, nb = parts(b)
    s, g = pa ^ pb, na ^ nb ^ neg
    if not s and not g:
      return self.f
    if len(s) == 1 and not g:
      return next(iter(s))
    return self.mk("x", s, g)

  def inv(self, a):
    return self.xor(a, self.f, True)

  def is1(self, a):
    return self.defs[a] == ("x", frozenset(), True)

  def and_(self, a, b):
    if a == self.f or b == self.f:
      return self.f
    if a == b or self.is1(b):
      return a
    if self.is1(a):
      return b
    if self.inv(a) == b:
      return self.f
    return self.mk("&", min(a, b), max(a, b))

  def of(self, t):
    """Bits of a term, least significant first."""
    k = t.get_id()
    if k in self.memo:
      return self.memo[k][1]
    r = self._of(t)
    self.memo[k] = (t, r)
    return r

  def _of(self, t):
    w = t.size()
    if z3.is_bv_value(t):
      v = t.as_long()
      return [self.inv(self.f) if v >> i & 1 else self.f for i in range(w)]
    kind, ch = t.decl().kind(), t.children()
    if kind == z3.Z3_OP_UNINTERPRETED and not ch:
      return [self.mk("v", str(t), i) for i in range(w)]
    if kind == z3.Z3_OP_BNOT:
      return [self.inv(b) for b in self.of(ch[0])]
    if kind in (z3.Z3_OP_BXOR, z3.Z3_OP_BAND, z3.Z3_OP_BOR):
      out = self.of(ch[0])
      for c in ch[1:]:
        o = self.of(c)
        if kind == z3.Z3_OP_BXOR:
          out = [self.xor(a, b) for a, b in zip(out, o)]
        elif kind == z3.Z3_OP_BAND:
          out = [self.and_(a, b) for a, b in zip(out, o)]
        else:
          out = [self.inv(self.and_(self.inv(a), self.inv(b))) for a, b in zip(out, o)]
      return out
    if kind == z3.Z3_OP_EXTRACT:
      hi, lo = t.params()
      return self.of(ch[0])[lo:hi + 1]
    if kind == z3.Z3_OP_CONCAT:
      out = []
      for c in reversed(ch):
        out += self.of(c)
      return out
    if kind == z3.Z3_OP_ZERO_EXT:
      b = self.of(ch[0])
      return b + [self.f] * (w - len(b))
    if kind in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]):
      b, k = self.of(ch[0]), ch[1].as_long()
      return ([self.f] * min(k, w) + b)[:w] if kind == z3.Z3_OP_BSHL else (b[k:] + [self.f] * w)[:w]
    if kind == z3.Z3_OP_BADD:
      # A sum whose carries are all false is an OR; otherwise ripple.
      out = self.of(ch[0])
      for c in ch[1:]:
        o, carry, res = self.of(c), self.f, []
        for a, b in zip(out, o):
          ab = self.xor(a, b)
          res.append(self.xor(ab, carry))
          g, p = self.and_(a, b), self.and_(ab, carry)
          carry = self.inv(self.and_(self.inv(g), self.inv(p)))
        out = res
      return out
    raise llvm.Unsupported(f"bit graph of {t.decl()}")


def _differences(bits, out, name, nbits, solver):
  """Does equality of all `out` bits force equality of the low bits of `name`?

  Every node gets the variable "its value differs between the two executions".
  The difference of a XOR is the XOR of the differences; an AND of equal inputs
  is equal, otherwise it may do either.  This forgets values, so `unsat` proves
  injectivity for all keys and `sat` decides nothing.
  """
  memo = {}
  cons = []

  def delta(n):
    if n in memo:
      return memo[n]
    d = bits.defs[n]
    if d[0] == "0":
      r = z3.BoolVal(False)
    elif d[0] == "v":
      r = z3.Bool(f"d{d[2]}") if d[1] == name else z3.BoolVal(False)
    elif d[0] == "x":
      r = z3.BoolVal(False)
      for c in sorted(d[1]):
        e = delta(c)
        r = e if z3.is_false(r) else r if z3.is_false(e) else z3.Xor(r, e)
    else:
      a, b = delta(d[1]), delta(d[2])
      if z3.is_false(a) and z3.is_false(b):
        r = a
      else:
        r = z3.Bool(f"n{n}")
        cons.append(z3.Implies(r, z3.Or(a, b)))
    memo[n] = r
    return r

  outs = [z3.Not(delta(o)) for o in out]
  diff = z3.Or(*[z3.Bool(f"d{i}") for i in range(nbits)])
  return solver.check(*outs, *cons, diff)


class Run:

  def __init__(self, rounds, walks, budget):
    self.rounds, self.walks = rounds, walks
    self.end = time.time() + budget
    self.s = z3.Solver()
    self.s.set("timeout", 20000)
    self.res = {"done": True, "paths": 0, "checks": 0, "queries": 0, "solver_s": 0.0, "exhausted": True,
                "functions": [], "samples": [], "cexs": [], "reach": {}, "pruned": 0, "infeasible": 0,
                "branch_queries": 0, "unknown": 0, "prune_reasons": {}}

  def ask(self, *conds):
    t = time.time()
    r = self.s.check(*conds)
    self.res["queries"] += 1
    self.res["solver_s"] = round(self.res["solver_s"] + time.time() - t, 3)
    if r == z3.unknown:
      self.res["unknown"] += 1
    return r

  def skip(self, why):
    self.res["exhausted"] = False
    self.res["prune_reasons"][why] = self.res["prune_reasons"].get(why, 0) + 1

  def cex(self, msg, **kw):
    self.res["cexs"].append({"msg": msg, "approx": False, "assignment": {"rounds": self.rounds, **kw}})

  def go(self):
    funcs = llvm.parse(_compile(self.rounds, False))
    try:
      return self.explore(funcs, None)
    except llvm.Unsupported as e:
      if "symbolic" not in str(e):
        raise
      # max_index steers something the solver cannot follow (floating point):
      # take its values around every power of two, index and keys stay unknown.
      self.skip(f"max_index only around powers of two ({e})")
      for n in sorted({x for k in range(1, 63) for x in (2**k - 1, 2**k, 2**k + 1)} | {2**63 - 1}, key=lambda x: bin(x)[2:].strip("0").count("1")):
        if time.time() > self.end or self.res["cexs"]:
          break
        self.explore(funcs, n)
      return self.res

  def explore(self, funcs, value):
    keys = [z3.BitVec(f"k{i}", 32) for i in range(self.rounds)]
    a, mx, seed = z3.BitVec("a", 64), z3.BitVec("max", 64), z3.BitVec("seed", 32)
    # The Python binding takes signed 64-bit numbers and checks 0 <= index <= max_index.
    pre = [z3.ULE(a, mx), z3.ULE(mx, 2**63 - 1)]
    m = llvm.Machine(funcs, {"symx_key": lambda m, s, sd, i: keys[i]}, self.s, self.walks, tracked=keys, free=keys)
    t = time.time()
    if value is not None:
      pre.append(mx == value)
    out, fails = m.run("symx_shuffle", [a, mx if value is None else value, seed], pre)
    self.res["queries"] += m.queries
    self.res["branch_queries"] += m.queries
    self.res["solver_s"] += round(time.time() - t, 3)
    self.res["functions"] = sorted(set(self.res["functions"]) | m.functions)
    self.res["paths"] += len(out)
    kn = {str(k) for k in keys} | {str(x) for x, _ in m.cuts.values()}
    self.cuts = list(m.cuts.values())

    def split(s):
      own, walk = [], []
      for c in s.pc:
        (walk if {str(v) for v in llvm._vars(c)} & kn else own).append(c)
      return own, walk

    for msg, conds in fails:
      r = self.ask(*conds)
      if r == z3.sat:
        mod = self.s.model()
        self.cex(msg, a=mod.eval(a, True).as_long(), max=mod.eval(mx, True).as_long(), seed=0)
    classes = {}
    for s, r in out:
      own, walk = split(s)
      classes.setdefault(tuple(str(c) for c in own), (own, []))[1].append((len(walk), walk, llvm.bv(r, 64)))
    lib = None
    sizes = {}
    for own, paths in classes.values():
      if time.time() > self.end:
        self.skip("time")
        break
      paths.sort(key=lambda p: p[0])
      own_t = own
      ok = self.one(own_t, paths, a, mx, keys, sizes)
      if ok is True:
        self.res["checks"] += 1
        continue
      # Not shown: look for a failing input, with the keys of real seeds.
      if lib is None:
        lib = _compile(self.rounds, True)
      if not self.hunt(own, paths, a, mx, keys, ok):
        self.skip(ok)
    self.res["reach"] = {"all block sizes": len(sizes)}
    return self.res

  def one(self, own, paths, a, mx, keys, sizes):
    """The argument for one class of max_index; True or what could not be shown."""
    n0, _, r1 = paths[0]
    if n0 == 0:
      # No walk: the result may only be constant (max_index == 0).
      if self.ask(*own, z3.UGT(mx, 0)) == z3.unsat and self.ask(*own, r1 != a) == z3.unsat:
        return True
      return "returns without a walk"
    if [p[0] for p in paths] != list(range(1, len(paths) + 1)):
      return "paths of the walk do not form a loop"
    try:
      key = r1.get_id()
      if key not in sizes:
        bits = Bits()
        b1 = bits.of(r1)
        n = max([i + 1 for i, b in enumerate(b1) if b != bits.f] or [0])
        self.res["queries"] += 1
        t = time.time()
        inj = _differences(bits, b1, "a", n, self.s) == z3.unsat
        self.res["solver_s"] = round(self.res["solver_s"] + time.time() - t, 3)
        # The step must not look at index bits above its range (they are zero).
        steps = [z3.substitute(r1, (a, r1))]
        same = bits.of(steps[0])
        loop = all(bits.of(p[2]) == same for p in paths[1:2])
        for p in paths[2:]:
          steps.append(z3.substitute(r1, (a, steps[-1])))
          loop = loop and bits.of(p[2]) == bits.of(steps[-1])
        sizes[key] = (r1, n, inj, loop, bits)
      _, n, inj, loop, bits = sizes[key]
    except llvm.Unsupported as e:
      return str(e)
    if not inj:
      return "one step of the walk is not shown to be injective"
    if not loop:
      return "later steps of the walk differ from the first"
    if n < 64 and self.ask(*own, z3.UGE(mx, 1 << n)) != z3.unsat:
      return "the step's range does not cover max_index"
    # The walk stops at the first value within max_index, and only there.
    xs = []
    for i, (k, walk, r) in enumerate(paths):
      b = bits.of(r)
      names = set().union(*[{str(v) for v in llvm._vars(c)} for c in walk])
      x = [x for x, t in self.cuts if str(x) in names and t.size() == 64 and bits.of(t) == b]
      if not x:
        return "the returned value is not the one compared with max_index"
      # Every name of one value is the same number.
      xs.append(x[0])
      al = [y == x[0] for y in x[1:]]
      rng = [z3.ULT(v, 1 << n) for v in xs] if n < 64 else []
      want = z3.And(z3.ULE(xs[i], mx), *[z3.UGT(v, mx) for v in xs[:i]])
      if self.ask(*own, *rng, *al, z3.And(*walk) != want) != z3.unsat:
        return "the walk does not stop exactly within max_index"
    return True

  def unused(self, r):
    """Index bits that the result does not depend on."""
    try:
      bits = Bits()
      bits.of(r)
    except llvm.Unsupported:
      return []
    reach, todo = set(), list(bits.of(r))
    while todo:
      n = todo.pop()
      if n in reach:
        continue
      reach.add(n)
      d = bits.defs[n]
      todo += sorted(d[1]) if d[0] == "x" else list(d[1:]) if d[0] == "&" else []
    used = {bits.defs[n][2] for n in reach if bits.defs[n][:2] == ("v", "a")}
    return [k for k in range(63) if k not in used]

  def hunt(self, own, paths, a, mx, keys, why):
    b = z3.BitVec("b", 64)
    found = False
    t0 = time.time()
    for seed in (0, 1, 7, 123456789):
      ks = [(k, z3.BitVecVal(v, 32)) for k, v in zip(keys, _real_keys(seed, self.rounds))]
      pa = [([*own, *[z3.substitute(z3.substitute(c, *self.cuts), *ks) for c in w]], z3.substitute(r, *ks)) for _, w, r in paths]
      for i, (ca, ra) in enumerate(pa):
        if self.ask(*ca, z3.UGT(ra, mx)) == z3.sat:
          mod = self.s.model()
          self.cex("the result lies outside [0, max_index]: " + why, a=mod.eval(a, True).as_long(), max=mod.eval(mx, True).as_long(), seed=seed)
          return True
        for cb, rb in pa[:i + 1]:
          cb = [z3.substitute(c, (a, b)) for c in cb]
          rb = z3.substitute(rb, (a, b))
          if time.time() > min(self.end, t0 + 25):
            return found
          self.s.set("timeout", 5000)
          hit = any(self.ask(*ca, *[z3.substitute(c, (b, a ^ (1 << k))) for c in cb], z3.substitute(ra == rb, (b, a ^ (1 << k))), b == a ^ (1 << k)) == z3.sat
                    for k in (self.unused(paths[0][2]) if seed == 0 else []))
          hit = hit or self.ask(*ca, *cb, a != b, ra == rb) == z3.sat
          self.s.set("timeout", 20000)
          if hit:
            mod = self.s.model()
            self.cex("two indices are sent to the same place: " + why, a=mod.eval(a, True).as_long(),
                     b=mod.eval(b, True).as_long(), max=mod.eval(mx, True).as_long(), seed=seed)
            return True
    return found


def _real_keys(seed, rounds):
  """std::seed_seq{seed}.generate, from the standard library itself."""
  d = tempfile.mkdtemp(prefix="symx_cxx_")
  try:
    src = os.path.join(d, "k.cc")
    with open(src, "w") as f:
      f.write('#include <random>\n#include <cstdint>\nextern "C" void keys(uint32_t s, uint32_t* o, int n) { std::seed_seq q{s}; q.generate(o, o + n); }\n')
    subprocess.run(["clang++-18", "-O1", "-shared", "-fPIC", src, "-o", os.path.join(d, "k.so")], check=True)
    lib = ctypes.CDLL(os.path.join(d, "k.so"))
    o = (ctypes.c_uint32 * rounds)()
    lib.keys(seed, o, rounds)
    return list(o)
  finally:
    shutil.rmtree(d, ignore_errors=True)


def run(tier, budget):
  total = None
  for rounds in ((4,) if tier == "quick" else (4, 6, 8)):
    try:
      res = Run(rounds, 2 if tier == "quick" else 3, budget).go()
    except llvm.Unsupported as e:
      # Code outside the interpreter's reach is reported as not covered.
      res = {"done": True, "paths": 0, "checks": 0, "queries": 0, "solver_s": 0, "exhausted": False, "functions": [],
             "samples": [], "cexs": [], "reach": {}, "prune_reasons": {f"outside the IR interpreter: {str(e)[:200]}": 1}}
    if total is None:
      total = res
      continue
    for k in ("paths", "checks", "queries", "solver_s", "unknown", "branch_queries"):
      total[k] = round(total.get(k, 0) + res.get(k, 0), 3)
    total["exhausted"] = total["exhausted"] and res["exhausted"]
    total["cexs"] += res["cexs"]
    for k, v in res["prune_reasons"].items():
      total["prune_reasons"][k] = total["prune_reasons"].get(k, 0) + v
  return total


def replay(rec):
  a = rec["assignment"]
  lib = _compile(a["rounds"], True)

  import signal
  signal.alarm(60)
  x = lib.symx_shuffle(a["a"], a["max"], a["seed"])
  print(f"index_shuffle({a['a']}, {a['max']}, seed={a['seed']}, rounds={a['rounds']}) = {x}")
  bad = x > a["max"]
  if "b" in a:
    y = lib.symx_shuffle(a["b"], a["max"], a["seed"])
    print(f"index_shuffle({a['b']}, {a['max']}, seed={a['seed']}, rounds={a['rounds']}) = {y}")
    bad = bad or y > a["max"] or (x == y and a["a"] != a["b"])
  return 1 if bad else 0


registry.add(registry.Harness(
    "P01", "cxx_index_shuffle", run,
    "C++ index_shuffle from clang's IR: every index <= max_index < 2**63, every round key, rounds 4 (thorough 4, 6, 8); "
    "walk followed for 2 (3) steps, each shown to be the same injective step, so that the walk closes; C++ key schedule replaced by unknown words",
    engine="custom", replay=replay, quick_s=90, thorough_s=300, validate=False))
