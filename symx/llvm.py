"""Executes LLVM IR (text, as clang prints it) over Z3 bit-vectors.

Enough of the language for integer code: every value is a Python int (known) or
a bit-vector term, addresses are concrete, branches on terms fork.  Undefined
behaviour that the IR makes visible (over-long shifts, division by zero,
`unreachable`, a failing assert) is reported as a violation of the path.
"""

import re
import struct

import z3


class Unsupported(Exception):
  pass


class Fail(Exception):
  """The path reaches something that must not happen."""

  def __init__(self, msg, cond):
    super().__init__(msg)
    self.msg, self.cond = msg, cond


_TY = re.compile(r"i(\d+)$")
_STRIP = re.compile(r",? *![a-zA-Z_.]+( ![0-9]+| !\{[^}]*\})?|#\d+")


def width(ty):
  if ty == "ptr":
    return 64
  m = _TY.match(ty)
  if not m:
    raise Unsupported(f"type {ty}")
  return int(m.group(1))


class Func:

  def __init__(self, name, params, ret):
    self.name, self.params, self.ret = name, params, ret
    self.blocks, self.order = {}, []


_DEF = re.compile(r"^define .*?((?:i\d+|void|ptr|double|float)) @\"?([\w.$]+)\"?\((.*?)\)[^()]*\{$")


def parse(text):
  funcs = {}
  cur = blk = None
  for line in text.splitlines():
    if line.startswith("define "):
      m = _DEF.match(line)
      if not m:
        cur = None
        continue
      params, unnamed = [], 0
      for p in _split(m.group(3)):
        if p in ("", "..."):
          continue
        mm = re.match(r"(\S+).*?(%[\w.]+)?$", p)
        params.append((mm.group(1), mm.group(2) or f"%{unnamed}"))
        unnamed += 1
      cur = Func(m.group(2), params, m.group(1))
      blk = None
      funcs[cur.name] = cur
      continue
    if cur is None:
      continue
    if line.startswith("}"):
      cur = None
      continue
    m = re.match(r"^\"?([\w.$-]+)\"?:", line)
    if m:
      blk = m.group(1)
      cur.blocks[blk] = []
      cur.order.append(blk)
      continue
    s = line.strip()
    if not s or s.startswith(";"):
      continue
    if blk is None:
      # The unnamed entry block is numbered after the parameters.
      blk = str(len(cur.params))
      cur.blocks[blk] = []
      cur.order.append(blk)
    ins = cur.blocks[blk]
    if ins and ins[-1].startswith("switch") and "]" not in ins[-1]:
      ins[-1] += " " + s
    else:
      ins.append(_STRIP.sub("", s).rstrip(", "))
  return funcs


def _split(s):
  out, depth, cur = [], 0, ""
  for ch in s:
    if ch in "([{<":
      depth += 1
    elif ch in ")]}>":
      depth -= 1
    if ch == "," and depth == 0:
      out.append(cur.strip())
      cur = ""
    else:
      cur += ch
  if cur.strip():
    out.append(cur.strip())
  return out


_FLAGS = {"nuw", "nsw", "exact", "disjoint", "inbounds", "nneg", "fast", "nnan", "ninf", "nsz", "tail", "musttail", "notail", "samesign", "nusw"}
_BIN = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"}


def _signed(v, w):
  return v - (1 << w) if v >> (w - 1) else v


def bv(v, w):
  return z3.BitVecVal(v, w) if isinstance(v, int) else v


class State:
  __slots__ = ("frames", "mem", "pc", "nalloc", "forks", "calls")

  def copy(self):
    s = State()
    s.frames = [f.copy() for f in self.frames]
    s.mem = dict(self.mem)
    s.pc = list(self.pc)
    s.nalloc = self.nalloc
    s.forks = dict(self.forks)
    s.calls = list(self.calls)
    return s


class Frame:
  __slots__ = ("fn", "blk", "prev", "ip", "regs", "dest", "rty")

  def copy(self):
    f = Frame()
    f.fn, f.blk, f.prev, f.ip, f.dest, f.rty = self.fn, self.blk, self.prev, self.ip, self.dest, self.rty
    f.regs = dict(self.regs)
    return f


class Machine:
  """Explores all paths of one call."""

  def __init__(self, funcs, externs, solver, fork_limit, tracked=(), free=()):
    self.funcs = funcs
    self.externs = externs
    self.solver = solver
    self.fork_limit = fork_limit
    self.tracked = {str(t) for t in tracked}
    self.free = {str(t) for t in free}
    self.cuts = {}
    self._vmemo = {}
    self.queries = 0
    self.cut = 0
    self.functions = set()

  def run(self, name, args, pc=()):
    """Yields (state, result) per path; a violated path raises through `fails`."""
    s = State()
    s.frames, s.mem, s.pc, s.nalloc, s.forks, s.calls = [], {}, list(pc), 1, {}, []
    self._push(s, name, args, None, None)
    work = [s]
    out = []
    fails = []
    while work:
      s = work.pop()
      try:
        r = self._step_until_fork(s, work)
        if r is not None:
          out.append((s, r[0]))
      except Fail as e:
        conds = s.pc + ([e.cond] if e.cond is not None else [])
        if self.feasible(conds):
          fails.append((e.msg, conds))
    return out, fails

  def feasible(self, conds):
    self.queries += 1
    r = self.solver.check(*[c for c in conds if not isinstance(c, bool)])
    if any(c is False for c in conds):
      return False
    return r != z3.unsat

  def _push(self, s, name, args, dest, rty):
    f = self.funcs[name]
    self.functions.add(name)
    fr = Frame()
    fr.fn, fr.blk, fr.prev, fr.ip, fr.dest, fr.rty = f, f.order[0], None, 0, dest, rty
    fr.regs = {p: a for (_, p), a in zip(f.params, args)}
    s.frames.append(fr)
    s.calls.append(name)

  # -- operands
  def val(self, fr, ty, tok):
    if ty in ("double", "float"):
      return self.fval(fr, tok)
    w = width(ty)
    if tok.startswith("%"):
      return fr.regs[tok]
    if tok in ("null", "false", "zeroinitializer"):
      return 0
    if tok == "true":
      return 1
    if tok in ("undef", "poison"):
      return 0
    if tok.startswith("@"):
      return 1 << 48
    return int(tok) & ((1 << w) - 1)

  def fval(self, fr, tok):
    if tok.startswith("%"):
      return fr.regs[tok]
    if tok.startswith("0x"):
      return struct.unpack(">d", bytes.fromhex(tok[2:].zfill(16)))[0]
    return float(tok)

  # -- memory (bytes at concrete addresses)
  def store(self, s, addr, v, w):
    if not isinstance(addr, int):
      raise Unsupported("symbolic address")
    if addr < 4096:
      raise Fail("write through a null pointer", None)
    n = (w + 7) // 8
    for i in range(n):
      s.mem[addr + i] = (v >> (8 * i)) & 255 if isinstance(v, int) else z3.Extract(min(8 * i + 7, w - 1), 8 * i, v)

  def load(self, s, addr, w):
    if not isinstance(addr, int):
      raise Unsupported("symbolic address")
    if addr < 4096:
      raise Fail("read through a null pointer", None)
    n = (w + 7) // 8
    try:
      bs = [s.mem[addr + i] for i in range(n)]
    except KeyError:
      raise Fail(f"read of uninitialised or foreign memory", None) from None
    if all(isinstance(b, int) for b in bs):
      return sum(b << (8 * i) for i, b in enumerate(bs)) & ((1 << w) - 1)
    t = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if n > 1 else bv(bs[0], 8)
    if not (self.free and self.isfree(t)):
      t = z3.simplify(t)
    if t.size() != w:
      t = z3.Extract(w - 1, 0, t)
    return t

  def alloc(self, s, n):
    a = s.nalloc << 20
    s.nalloc += 1 + (n >> 20 if isinstance(n, int) else 0)
    return a

  # -- arithmetic
  def binop(self, op, a, b, w):
    m = (1 << w) - 1
    if isinstance(a, int) and isinstance(b, int):
      if op in ("shl", "lshr", "ashr") and b >= w:
        raise Fail("shift by the width of the type or more", None)
      if op in ("udiv", "urem", "sdiv", "srem") and b == 0:
        raise Fail("division by zero", None)
      if op == "add":
        r = a + b
      elif op == "sub":
        r = a - b
      elif op == "mul":
        r = a * b
      elif op == "and":
        r = a & b
      elif op == "or":
        r = a | b
      elif op == "xor":
        r = a ^ b
      elif op == "shl":
        r = a << b
      elif op == "lshr":
        r = a >> b
      elif op == "ashr":
        r = _signed(a, w) >> b
      elif op == "udiv":
        r = a // b
      elif op == "urem":
        r = a % b
      else:
        x, y = _signed(a, w), _signed(b, w)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        r = q if op == "sdiv" else x - q * y
      return r & m
    A, B = bv(a, w), bv(b, w)
    if op in ("shl", "lshr", "ashr"):
      if isinstance(b, int):
        if b >= w:
          raise Fail("shift by the width of the type or more", None)
      elif self.feasible([z3.UGE(B, w)]):
        raise Unsupported("symbolic shift amount")
    r = {
        "add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "and": lambda: A & B,
        "or": lambda: A | B, "xor": lambda: A ^ B, "shl": lambda: A << B, "lshr": lambda: z3.LShR(A, B),
        "ashr": lambda: A >> B, "udiv": lambda: z3.UDiv(A, B), "urem": lambda: z3.URem(A, B),
        "sdiv": lambda: A / B, "srem": lambda: z3.SRem(A, B),
    }[op]()
    return self.norm(r)

  def isfree(self, t):
    """Does a term depend on a `free` variable? (memoised; keeps the terms alive)"""
    todo = [t]
    while todo:
      x = todo[-1]
      k = x.get_id()
      if k in self._vmemo:
        todo.pop()
        continue
      ch = x.children()
      if not ch:
        self._vmemo[k] = (x, str(x) in self.free)
        continue
      left = [c for c in ch if c.get_id() not in self._vmemo]
      if left:
        todo += left
      else:
        self._vmemo[k] = (x, any(self._vmemo[c.get_id()][1] for c in ch))
    return self._vmemo[t.get_id()][1]

  def norm(self, t):
    if self.free and self.isfree(t):
      return t
    t = z3.simplify(t)
    return t.as_long() if z3.is_bv_value(t) else t

  def icmp(self, pred, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
      x, y = (_signed(a, w), _signed(b, w)) if pred[0] == "s" else (a, b)
      return int({"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pred if pred in ("eq", "ne") else pred[1:]])
    A, B = self.name(bv(a, w)), self.name(bv(b, w))
    c = {
        "eq": lambda: A == B, "ne": lambda: A != B, "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B),
        "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B), "sgt": lambda: A > B, "sge": lambda: A >= B,
        "slt": lambda: A < B, "sle": lambda: A <= B,
    }[pred]()
    c = z3.simplify(c)
    if z3.is_true(c):
      return 1
    if z3.is_false(c):
      return 0
    return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

  def name(self, t):
    """A compared value that depends on `free` variables gets a name."""
    if not self.free or z3.is_bv_value(t):
      return t
    k = t.get_id()
    if k not in self.cuts:
      if not self.isfree(t):
        return t
      x = z3.BitVec(f"cut{len(self.cuts)}", t.size())
      self.cuts[k] = (x, t)
      self.free.add(str(x))
      self.tracked.add(str(x))
    return self.cuts[k][0]

  # -- execution
  def _step_until_fork(self, s, work):
    while True:
      fr = s.frames[-1]
      ins = fr.fn.blocks[fr.blk][fr.ip]
      fr.ip += 1
      dest = None
      m = re.match(r"^(%[\w.]+) = (.*)$", ins)
      if m:
        dest, ins = m.group(1), m.group(2)
      toks = ins.split(None, 1)
      op, rest = toks[0], toks[1] if len(toks) > 1 else ""
      while op in _FLAGS:
        op, _, rest = rest.partition(" ")
      while rest.split(" ", 1)[0] in _FLAGS:
        rest = rest.split(" ", 1)[1]
      if op in _BIN:
        parts = rest.split(None, 1)
        ty = parts[0]
        a, b = _split(parts[1])
        w = width(ty)
        fr.regs[dest] = self.binop(op, self.val(fr, ty, a), self.val(fr, ty, b), w)
      elif op == "icmp":
        pred, ty, ops = rest.split(None, 2)
        if pred == "samesign":
          pred, ty, ops = rest.split(None, 3)[1:]
        a, b = _split(ops)
        fr.regs[dest] = self.icmp(pred, self.val(fr, ty, a), self.val(fr, ty, b), width(ty))
      elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
        if op == "freeze":
          ty, a = rest.split(None, 1)
          fr.regs[dest] = self.val(fr, ty, a)
          continue
        mm = re.match(r"(\S+) (\S+) to (\S+)", rest)
        ty, a, ty2 = mm.groups()
        v, w, w2 = self.val(fr, ty, a), width(ty), width(ty2)
        if isinstance(v, int):
          v = (_signed(v, w) if op == "sext" else v) & ((1 << w2) - 1)
        elif w2 > w:
          v = self.norm(z3.SignExt(w2 - w, v) if op == "sext" else z3.ZeroExt(w2 - w, v))
        elif w2 < w:
          v = self.norm(z3.Extract(w2 - 1, 0, v))
        fr.regs[dest] = v
      elif op in ("uitofp", "sitofp"):
        mm = re.match(r"(\S+) (\S+) to (\S+)", rest)
        v = self.val(fr, mm.group(1), mm.group(2))
        if not isinstance(v, int):
          raise Unsupported("floating point on a symbolic value")
        fr.regs[dest] = float(v if op == "uitofp" else _signed(v, width(mm.group(1))))
      elif op in ("fptosi", "fptoui"):
        mm = re.match(r"(\S+) (\S+) to (\S+)", rest)
        fr.regs[dest] = int(self.fval(fr, mm.group(2))) & ((1 << width(mm.group(3))) - 1)
      elif op in ("fadd", "fsub", "fmul", "fdiv"):
        ty, ops = rest.split(None, 1)
        a, b = [self.fval(fr, x) for x in _split(ops)]
        fr.regs[dest] = {"fadd": a + b, "fsub": a - b, "fmul": a * b, "fdiv": a / b if b else float("inf")}[op]
      elif op == "fcmp":
        pred, ty, ops = rest.split(None, 2)
        a, b = [self.fval(fr, x) for x in _split(ops)]
        fr.regs[dest] = int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred[1:]])
      elif op == "select":
        parts = [p.rsplit(None, 1) for p in _split(rest)]
        c = self.val(fr, "i1", parts[0][1])
        a, b = self.val(fr, parts[1][0], parts[1][1]), self.val(fr, parts[2][0], parts[2][1])
        if isinstance(c, int):
          fr.regs[dest] = a if c else b
        else:
          w = width(parts[1][0])
          fr.regs[dest] = self.norm(z3.If(c == 1, bv(a, w), bv(b, w)))
      elif op == "phi":
        # All phis of a block read their inputs at the same time.
        news = {}
        fr.ip -= 1
        while True:
          line = fr.fn.blocks[fr.blk][fr.ip]
          m = re.match(r"^(%[\w.]+) = phi (.*)$", line)
          if not m:
            break
          ty, ops = m.group(2).split(None, 1)
          for v, b in re.findall(r"\[ *([^,\]]+), %\"?([\w.$-]+)\"? *\]", ops):
            if b == fr.prev:
              news[m.group(1)] = self.val(fr, ty, v.strip())
              break
          else:
            raise Unsupported(f"phi without input from {fr.prev}: {line}")
          fr.ip += 1
        fr.regs.update(news)
      elif op == "br":
        if rest.startswith("label"):
          self._jump(fr, re.match(r"label %\"?([\w.$-]+)", rest).group(1))
          continue
        mm = re.match(r"i1 (\S+), label %\"?([\w.$-]+)\"?, label %\"?([\w.$-]+)", rest)
        c = self.val(fr, "i1", mm.group(1))
        if isinstance(c, int):
          self._jump(fr, mm.group(2) if c else mm.group(3))
          continue
        cond = z3.simplify(c == 1)
        self._fork(s, work, [(cond, mm.group(2)), (z3.Not(cond), mm.group(3))], (fr.fn.name, fr.blk))
        return None
      elif op == "switch":
        mm = re.match(r"(\S+) (\S+), label %\"?([\w.$-]+)\"? \[(.*)\]", rest)
        ty, v, dflt = mm.group(1), self.val(fr, mm.group(1), mm.group(2)), mm.group(3)
        cases = re.findall(r"i\d+ (-?\d+), label %\"?([\w.$-]+)", mm.group(4))
        w = width(ty)
        cases = [(int(k) & ((1 << w) - 1), l) for k, l in cases]
        if isinstance(v, int):
          self._jump(fr, dict(cases).get(v, dflt))
          continue
        alts = [(v == z3.BitVecVal(k, w), l) for k, l in cases]
        alts.append((z3.And(*[v != z3.BitVecVal(k, w) for k, _ in cases]), dflt))
        self._fork(s, work, alts, (fr.fn.name, fr.blk))
        return None
      elif op == "alloca":
        fr.regs[dest] = self.alloc(s, 1 << 16)
      elif op == "getelementptr":
        parts = _split(rest)
        base = self.val(fr, *parts[1].rsplit(None, 1)) if parts[1].startswith("ptr") else None
        if base is None or len(parts) != 3 or not _TY.match(parts[0]):
          raise Unsupported(ins)
        ity, iv = parts[2].rsplit(None, 1)
        i = self.val(fr, ity, iv)
        if not isinstance(i, int) or not isinstance(base, int):
          raise Unsupported("symbolic address")
        fr.regs[dest] = (base + _signed(i, width(ity)) * (width(parts[0]) // 8)) & (2**64 - 1)
      elif op == "load":
        parts = _split(rest)
        fr.regs[dest] = self.load(s, self.val(fr, "ptr", parts[1].rsplit(None, 1)[1]), width(parts[0]))
      elif op == "store":
        parts = _split(rest)
        ty, v = parts[0].rsplit(None, 1)
        self.store(s, self.val(fr, "ptr", parts[1].rsplit(None, 1)[1]), self.val(fr, ty, v), width(ty))
      elif op == "ret":
        v = None
        if rest != "void":
          ty, a = rest.split(None, 1)
          v = self.val(fr, ty, a)
        s.frames.pop()
        if not s.frames:
          return (v,)
        if fr.dest is not None:
          s.frames[-1].regs[fr.dest] = v
      elif op == "call":
        self._call(s, fr, dest, rest)
      elif op == "unreachable":
        raise Fail("reaches unreachable code", None)
      else:
        raise Unsupported(ins)

  def _jump(self, fr, label):
    fr.prev, fr.blk, fr.ip = fr.blk, label, 0

  def _fork(self, s, work, alts, where):
    names = {str(v) for c, _ in alts for v in _vars(c)}
    tracked = bool(self.tracked & names)
    # Both ways of a branch on a `free` variable are followed unasked.
    free = bool(self.free & names)
    key = (len(s.frames), where)
    n = s.forks.get(key, 0)
    live = alts if free else [(c, l) for c, l in alts if self.feasible(s.pc + [c])]
    # A loop whose condition depends on the data is followed to a limit.
    if tracked and len(live) > 1:
      s.forks[key] = n + 1
      if n + 1 > self.fork_limit:
        self.cut += 1
        return
    for i, (c, l) in enumerate(live):
      t = s if i == len(live) - 1 else s.copy()
      t.pc = t.pc + [c]
      self._jump(t.frames[-1], l)
      work.append(t)

  def _call(self, s, fr, dest, rest):
    mm = re.match(r"(?:(?:noundef|nonnull|signext|zeroext|noalias|range\([^)]*\)|dereferenceable\(\d+\)|align \d+) )*(\S+)(?: \([^)]*\))? @\"?([\w.$]+)\"?\((.*)\)[^)]*$", rest)
    if not mm:
      raise Unsupported("call " + rest)
    rty, name, args = mm.groups()
    vals, tys = [], []
    for a in _split(args):
      parts = a.split()
      ty, tok = parts[0], parts[-1]
      if ty == "metadata":
        continue
      tys.append(ty)
      vals.append(self.val(fr, ty, tok))
    if name in self.funcs and name not in self.externs:
      self._push(s, name, vals, dest, rty)
      return
    r = self._extern(s, name, tys, vals)
    if dest is not None:
      fr.regs[dest] = r

  def _extern(self, s, name, tys, v):
    if name in self.externs:
      return self.externs[name](self, s, *v)
    if name == "_Znwm":
      return self.alloc(s, v[0])
    if name in ("_ZdlPv", "_ZdlPvm") or name.startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.experimental.noalias")):
      return None
    if name.startswith("llvm.memset"):
      if not isinstance(v[2], int):
        raise Unsupported("memset of symbolic size")
      for i in range(v[2]):
        s.mem[v[0] + i] = v[1]
      return None
    if name.startswith(("llvm.memcpy", "llvm.memmove")):
      got = [s.mem.get(v[1] + i) for i in range(v[2])]
      for i, b in enumerate(got):
        if b is None:
          s.mem.pop(v[0] + i, None)
        else:
          s.mem[v[0] + i] = b
      return None
    if name == "__assert_fail" or name.startswith(("_ZSt", "abort", "__cxa")):
      raise Fail(f"{name} is called (a failing assert or a thrown error)", None)
    base = name.rsplit(".", 1)[0] if name.startswith("llvm.") else name
    if base in ("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin"):
      w = width(tys[0])
      c = self.icmp(("u" if base[5] == "u" else "s") + ("ge" if base.endswith("max") else "le"), v[0], v[1], w)
      if isinstance(c, int):
        return v[0] if c else v[1]
      return self.norm(z3.If(c == 1, bv(v[0], w), bv(v[1], w)))
    if base in ("llvm.fshl", "llvm.fshr"):
      w = width(tys[0])
      if not isinstance(v[2], int):
        raise Unsupported("symbolic funnel shift")
      k = v[2] % w
      cat = z3.Concat(bv(v[0], w), bv(v[1], w))
      if base == "llvm.fshl":
        return self.norm(z3.Extract(2 * w - 1 - k, w - k, cat))
      return self.norm(z3.Extract(w - 1 + k, k, cat))
    if base in ("llvm.bswap", "llvm.bitreverse"):
      w = width(tys[0])
      k = 8 if base == "llvm.bswap" else 1
      parts = [z3.Extract(i + k - 1, i, bv(v[0], w)) for i in range(0, w, k)]
      r = z3.Concat(*parts)
      return self.norm(r)
    if base in ("llvm.ctlz", "llvm.cttz", "llvm.ctpop"):
      w = width(tys[0])
      if isinstance(v[0], int):
        bits = format(v[0], f"0{w}b")
        return {"llvm.ctlz": len(bits) - len(bits.lstrip("0")), "llvm.cttz": len(bits) - len(bits.rstrip("0")), "llvm.ctpop": bits.count("1")}[base]
      x = v[0]
      bit = lambda i: z3.Extract(i, i, x) == 1
      if base == "llvm.ctpop":
        return self.norm(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)]))
      r = z3.BitVecVal(w, w)
      for i in (range(w) if base == "llvm.ctlz" else reversed(range(w))):
        r = z3.If(bit(i), z3.BitVecVal(w - 1 - i if base == "llvm.ctlz" else i, w), r)
      return self.norm(r)
    if base in ("log2", "llvm.log2", "ceil", "llvm.ceil", "floor", "llvm.floor", "log", "llvm.log", "sqrt", "llvm.sqrt", "pow", "llvm.pow"):
      import math
      x = v[0]
      f = base.replace("llvm.", "")
      return {"log2": lambda: math.log2(x) if x > 0 else -math.inf, "ceil": lambda: float(math.ceil(x)), "floor": lambda: float(math.floor(x)),
              "log": lambda: math.log(x) if x > 0 else -math.inf, "sqrt": lambda: math.sqrt(x), "pow": lambda: x ** v[1]}[f]()
    raise Unsupported("call of " + name)


def _vars(t, seen=None):
  seen = set() if seen is None else seen
  if t.get_id() in seen:
    return set()
  seen.add(t.get_id())
  if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
    return {t}
  out = set()
  for c in t.children():
    out |= _vars(c, seen)
  return out
