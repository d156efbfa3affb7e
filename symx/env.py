"""Loads the real grain from /repo, in symbolic or in concrete mode.

Symbolic mode only changes two things around the unmodified code:
  * the module globals of grain's modules get versions of len/range/int/float/
    min/max that accept symbolic integers (their C versions insist on machine
    integers), and
  * the compiled `index_shuffle` extension, which no Python-level engine can
    look into, is replaced by an arbitrary function constrained only by its
    contract; the C++ behind it is checked on its own (see harness/h_cxx.py).
Concrete mode changes nothing (the extension is compiled from the current tree).
"""

import hashlib
import importlib
import importlib.util
import os
import subprocess
import sys
import sysconfig
import tempfile
import types
import warnings

REPO = os.environ.get("GRAIN_REPO", "/repo")
EXT_DIR = "grain/_src/python/experimental/index_shuffle"
EXT_MOD = "grain._src.python.experimental.index_shuffle.python.index_shuffle_module"

sys.dont_write_bytecode = True
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")

_scratch = None


def scratch():
  """A per-process scratch directory, removed at exit."""
  global _scratch
  if _scratch is None:
    import atexit
    import shutil

    _scratch = tempfile.mkdtemp(prefix="symx_")
    pid = os.getpid()

    def rm(d=_scratch):
      if os.getpid() == pid:
        shutil.rmtree(d, ignore_errors=True)

    atexit.register(rm)
  return _scratch


def _ensure_proto():
  p = os.path.join(REPO, "grain/proto/execution_summary.proto")
  if os.path.exists(os.path.join(REPO, "grain/proto/execution_summary_pb2.py")) or not os.path.exists(p):
    return
  out = os.path.join(scratch(), "proto")
  os.makedirs(out, exist_ok=True)
  subprocess.run(
      [sys.executable, "-m", "grpc_tools.protoc", "-I.", f"--python_out={out}", "grain/proto/execution_summary.proto"],
      cwd=REPO, check=True, capture_output=True)
  name = "grain.proto.execution_summary_pb2"
  spec = importlib.util.spec_from_file_location(name, os.path.join(out, "grain/proto/execution_summary_pb2.py"))
  mod = importlib.util.module_from_spec(spec)
  sys.modules[name] = mod
  spec.loader.exec_module(mod)
  import grain.proto as gp
  gp.execution_summary_pb2 = mod


def build_ext():
  """Compiles the current C++ sources of index_shuffle; returns the .so path."""
  base = os.path.join(REPO, EXT_DIR)
  srcs = []
  for root, _, files in os.walk(base):
    for f in sorted(files):
      if f.endswith(".cc") and not f.endswith("_test.cc"):
        srcs.append(os.path.join(root, f))
  import hashlib
  import pybind11

  h = hashlib.sha256(pybind11.__version__.encode())
  for root, _, files in sorted(os.walk(base)):
    for f in sorted(files):
      if f.endswith((".cc", ".h")):
        with open(os.path.join(root, f), "rb") as fh:
          h.update(f.encode() + b"\0" + fh.read())
  cache = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence", ".build")
  os.makedirs(cache, exist_ok=True)
  so = os.path.join(cache, h.hexdigest()[:24] + ".so")
  if os.path.exists(so):
    return so
  tmp = so + f".{os.getpid()}.tmp"
  subprocess.run(
      ["g++", "-std=c++17", "-O2", "-g0", "-fPIC", "-shared", "-fvisibility=hidden", "-w", f"-I{REPO}",
       "-I" + pybind11.get_include(), "-I" + sysconfig.get_path("include"), *srcs,
       "-o", tmp, "-labsl_strings", "-labsl_strings_internal", "-labsl_raw_logging_internal"],
      check=True, capture_output=True)
  os.replace(tmp, so)
  return so


def load_real_ext():
  so = build_ext()
  spec = importlib.util.spec_from_file_location(EXT_MOD, so)
  mod = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(mod)
  return mod


class _LazyExt(types.ModuleType):
  """Compiles the extension when it is first used."""

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    real = self.__dict__.get("_real")
    if real is None:
      del sys.modules[EXT_MOD]
      real = load_real_ext()
      sys.modules[EXT_MOD] = self
      self.__dict__["_real"] = real
    return getattr(real, name)


def _contract_index_shuffle(real=None):
  """An arbitrary permutation family, by contract.

  For symbolic arguments: result is a fresh value r with 0 <= r <= max_index and,
  against every earlier call on this path with the same (max_index, seed,
  rounds), r == r' exactly when index == index'.
  """
  import z3
  from symx import core

  def index_shuffle(index, max_index, seed, rounds):
    c = core.cur()
    ok = core.conj([
        index >= 0, index <= max_index, seed >= 0, seed < 2**32,
        rounds >= 4, rounds <= 1024, rounds % 2 == 0])
    if not ok:
      raise ValueError("index_shuffle called outside its contract")
    key = [core._ie(x) for x in (index, max_index, seed, rounds)]
    calls = c.__dict__.setdefault("_shuffle_calls", [])
    r = c.fresh_int("perm")
    c.solver.add(r >= 0, r <= key[1])
    for k2, r2 in calls:
      same = z3.And(*[a == b for a, b in zip(key[1:], k2[1:])])
      c.solver.add(z3.Implies(same, (r == r2) == (key[0] == k2[0])))
    c.model = None
    calls.append((key, r))
    return core.mk(r)

  return index_shuffle


_loaded = None


def load(symbolic=True, shuffle="contract"):
  """Imports grain; returns a namespace of its modules."""
  global _loaded
  if _loaded is not None:
    return _loaded
  warnings.simplefilter("ignore")
  import logging

  logging.disable(logging.CRITICAL)
  sys.path.insert(0, REPO)
  # The editable-install finder would resolve to the same tree; drop it so that
  # GRAIN_REPO decides.
  sys.meta_path[:] = [f for f in sys.meta_path if "editable" not in getattr(f, "__module__", "") and "__editable__" not in repr(f)]
  try:
    from absl import logging as alog
    alog.set_verbosity(alog.FATAL)
    alog._warn_preinit_stderr = 0
  except Exception:
    pass
  if symbolic:
    fake = types.ModuleType(EXT_MOD)
    fake.index_shuffle = _contract_index_shuffle()
    sys.modules[EXT_MOD] = fake
  else:
    sys.modules[EXT_MOD] = _LazyExt(EXT_MOD)
  import grain  # noqa

  _ensure_proto()
  pkg = importlib.import_module("grain._src.python.experimental.index_shuffle.python")
  pkg.index_shuffle_module = sys.modules[EXT_MOD]
  import grain.experimental  # noqa
  import grain.python  # noqa

  for m in (
      "grain._src.python.samplers", "grain._src.python.data_loader",
      "grain._src.python.dataset.elastic_iterator",
      "grain._src.python.dataset.transformations.interleave",
      "grain._src.python.dataset.transformations.packing_concat_then_split",
      "grain._src.python.dataset.transformations.process_prefetch",
      "grain._src.python.ipc.queue",
      "grain._src.python.ipc.variable_size_queue",
      "grain._src.core.parallel",
      "grain._src.core.sharding",
  ):
    try:
      importlib.import_module(m)
    except ImportError:
      pass
  # Modules that the package imports lazily.
  d = os.path.join(REPO, "grain/_src/python/dataset/transformations")
  for f in sorted(os.listdir(d)):
    if f.endswith(".py") and not f.endswith("_test.py") and f != "__init__.py" and not f.startswith("testing"):
      try:
        importlib.import_module("grain._src.python.dataset.transformations." + f[:-3])
      except ImportError:
        pass
  assert os.path.realpath(grain.__file__).startswith(os.path.realpath(REPO)), grain.__file__
  if symbolic:
    from symx import core

    import builtins

    shadow_builtins = types.ModuleType("builtins")
    shadow_builtins.__dict__.update(builtins.__dict__)
    shadow_builtins.__dict__.update(core.SHADOW)
    for name, mod in list(sys.modules.items()):
      if name.startswith("grain.") and mod is not None and hasattr(mod, "__dict__"):
        if mod.__dict__.get("builtins") is builtins:
          mod.__dict__["builtins"] = shadow_builtins
        for k, v in core.SHADOW.items():
          if k not in mod.__dict__:
            mod.__dict__[k] = v
  _loaded = grain
  return grain


# --------------------------------------------------------------------------
# which functions of the tree were executed symbolically
# --------------------------------------------------------------------------

_funcs = set()


def start_tracing():
  mon = sys.monitoring
  tool = 3
  try:
    mon.use_tool_id(tool, "symx")
  except ValueError:
    return
  prefix = os.path.join(os.path.realpath(REPO), "grain") + os.sep

  def on_start(code, off):
    f = code.co_filename
    if f.startswith(prefix):
      _funcs.add(f"{f[len(os.path.realpath(REPO)) + 1:]}:{code.co_qualname}")
    return mon.DISABLE

  mon.register_callback(tool, mon.events.PY_START, on_start)
  mon.set_events(tool, mon.events.PY_START)


def take_functions():
  r = set(_funcs)
  return r


def reset_functions():
  _funcs.clear()
  try:
    sys.monitoring.restart_events()
  except Exception:
    pass
