"""Which harnesses decide which property."""

import dataclasses
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# property id -> harness modules
MODULES = {}


@dataclasses.dataclass
class Harness:
  pid: str
  name: str
  fn: object
  bounds: str
  params: dict = dataclasses.field(default_factory=dict)
  quick_s: float = 60
  thorough_s: float = 240
  thorough_only: bool = False
  engine: str = "py"
  replay: object = None
  stubs: tuple = ()
  must_reach: tuple = ()
  query_timeout_ms: int = 20000
  conc_limit: int = 40
  path_s: float = 60
  replay_timeout: float = 120
  hang_is_violation: bool = False
  validate: bool = True
  env: dict = dataclasses.field(default_factory=dict)

  def budget(self, tier):
    return self.quick_s if tier == "quick" else self.thorough_s


_REG = {}
_loaded = False


def harness(pid, name, bounds, **kw):
  def deco(fn):
    _REG.setdefault(pid, []).append(Harness(pid, name, fn, bounds, **kw))
    return fn
  return deco


def add(h):
  _REG.setdefault(h.pid, []).append(h)


def _load_all():
  global _loaded
  if _loaded:
    return
  _loaded = True
  d = os.path.join(HERE, "harness")
  for f in sorted(os.listdir(d)):
    if f.startswith("h_") and f.endswith(".py"):
      importlib.import_module(f"harness.{f[:-3]}")


def load(pid):
  _load_all()
  return _REG.get(pid, [])


def all_ids():
  _load_all()
  return sorted(_REG)


def modules_for(pid):
  return [importlib.import_module(h.fn.__module__) for h in load(pid)]


def known_findings(pid):
  p = os.path.join(HERE, "known_findings.txt")
  if not os.path.exists(p):
    return []
  pre = f"finding: property={pid} "
  with open(p) as f:
    return [l[len(pre):].strip() for l in f if l.startswith(pre)]
