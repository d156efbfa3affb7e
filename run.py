#!/opt/venv/bin/python
"""run.py check <ID> [--tier quick|thorough] | replay <file> | list"""

import argparse
import gc
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import symx  # noqa: E402  (adds z3 to the path)
from symx import registry  # noqa: E402

EVID = os.path.join(HERE, "evidence")
MAX_SPURIOUS = 40


def _worker(pid, idx, tier, conn, deadline, work):
  """Explores one harness; sends a result dict."""
  try:
    from symx import core, env

    h = registry.load(pid)[idx]
    for k, v in h.env.items():
      os.environ[k] = v
    if h.engine == "py":
      env.load(True)
      for m in registry.modules_for(pid):
        getattr(m, "prepare", lambda: None)()
      env.start_tracing()
    t0 = time.time()
    if h.engine == "custom":
      res = h.fn(tier, deadline - t0)
      res["wall_s"] = time.time() - t0
      conn.send(res)
      conn.close()
      return
    total = core.Stats()
    cexs = []
    seen = set()
    from functools import partial

    gc.collect()
    gc.freeze()
    share = _Share(conn)

    def explorer():
      e = core.Explorer(budget_s=deadline - time.time(), query_timeout_ms=h.query_timeout_ms,
                        conc_limit=h.conc_limit, path_s=h.path_s)
      e.poll = share.poll
      return e

    ex = explorer()
    cex = core.explore(ex, partial(_call, h, tier), work or [[]], time.time())
    total.merge(ex.stats)
    while cex is not None:
      key = cex.msg.split("\n")[0]
      cexs.append({"msg": cex.msg, "assignment": cex.assignment, "approx": cex.approx})
      if len(cexs) >= MAX_SPURIOUS:
        break
      # Ask the parent whether it reproduces before going on.
      conn.send({"cex": cexs[-1]})
      ans = conn.recv()
      while ans == "split":
        conn.send({"split": []})
        ans = conn.recv()
      if ans == "stop":
        break
      # Spurious: keep exploring the remaining work.
      if deadline - time.time() <= 1:
        total.exhausted = total.exhausted and not ex.work
        break
      ex2 = explorer()
      cex = core.explore(ex2, partial(_call, h, tier), ex.work, time.time())
      total.merge(ex2.stats)
      ex = ex2
    conn.send({
        "done": True,
        "paths": total.paths, "pruned": total.pruned, "infeasible": total.infeasible,
        "queries": total.queries, "branch_queries": total.branch_queries,
        "unknown": total.unknown, "checks": total.checks,
        "solver_s": round(total.solver_s, 3), "exhausted": total.exhausted,
        "prune_reasons": total.prune_reasons, "reach": total.reach,
        "samples": total.samples, "functions": sorted(env.take_functions()),
        "wall_s": time.time() - t0,
    })
  except BaseException:  # noqa
    conn.send({"error": traceback.format_exc()})
  finally:
    conn.close()
    os._exit(0)


class _Share:
  """Hands part of the open work to the parent when it asks for it."""

  def __init__(self, conn):
    self.conn = conn
    self.next = 0.0

  def poll(self, ex):
    now = time.time()
    if now < self.next:
      return
    self.next = now + 0.1
    while self.conn.poll():
      if self.conn.recv() == "split":
        give, keep = ex.work[0::2], ex.work[1::2]
        if len(ex.work) < 4:
          give, keep = [], ex.work
        ex.work = keep
        self.conn.send({"split": give})


def _call(h, tier, ctx):
  ctx.tier = tier
  if h.params:
    import inspect
    if "tier" in inspect.signature(h.fn).parameters:
      return h.fn(ctx, tier=tier, **h.params)
    return h.fn(ctx, **h.params)
  import inspect
  if "tier" in inspect.signature(h.fn).parameters:
    return h.fn(ctx, tier=tier)
  return h.fn(ctx)


def replay(path, quiet=False):
  """Runs a recorded assignment against the real, unpatched code.

  Exit status: 1 if the property fails there, 0 if it holds, 3 if it cannot run.
  """
  with open(path) as f:
    rec = json.load(f)
  hs = [h for h in registry.load(rec["property"]) if h.name == rec["harness"]]
  if not hs:
    print("no such harness", rec["harness"])
    return 3
  h = hs[0]
  for k, v in h.env.items():
    os.environ[k] = v
  if h.engine == "custom":
    return h.replay(rec)
  from symx import core, env

  env.load(False)
  results = []
  for a in rec.get("assignments", [rec.get("assignment")]):
    ctx = core.ConcreteCtx(a)
    try:
      _call(h, rec.get("tier", "quick"), ctx)
      results.append("holds")
    except core.Infeasible:
      results.append("outside the assumptions")
    except core.PathEnd as e:
      results.append(f"path end {e!r}")
    except Exception as e:  # noqa
      results.append("FAILS: " + "".join(traceback.format_exception(e, limit=-6))[-1800:])
  for a, r in zip(rec.get("assignments", [rec.get("assignment")]), results):
    if not quiet or r.startswith("FAILS"):
      print(json.dumps(a), "->", r)
  bad = [i for i, r in enumerate(results) if r.startswith("FAILS")]
  if "assignments" in rec:
    print("RESULT " + json.dumps({"n": len(results), "bad": bad, "outside": sum(1 for r in results if r.startswith("outside"))}))
  sys.stdout.flush()
  return 1 if bad else 0


def _run_replay(path, timeout=120):
  try:
    p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "replay", path],
                       capture_output=True, text=True, timeout=timeout, cwd=HERE)
    return p.returncode, p.stdout + p.stderr[-2000:]
  except subprocess.TimeoutExpired as e:
    return 124, f"replay timed out after {timeout}s (hang)\n{(e.stdout or b'')[-500:]!r}"


def _merge(results, i, msg):
  """Adds up what the workers of one harness report."""
  r = results.get(i)
  if r is None:
    results[i] = msg
    return
  for k in ("paths", "pruned", "infeasible", "queries", "branch_queries", "unknown", "checks", "solver_s"):
    if k in msg:
      r[k] = round(r.get(k, 0) + msg[k], 3)
  for k in ("prune_reasons", "reach"):
    for t, v in msg.get(k, {}).items():
      d = r.setdefault(k, {})
      d[t] = d.get(t, 0) + v
  r["samples"] = (r.get("samples", []) + msg.get("samples", []))[:24]
  r["functions"] = sorted(set(r.get("functions", [])) | set(msg.get("functions", [])))
  r["exhausted"] = bool(r.get("exhausted", True)) and bool(msg.get("exhausted", False))
  r["wall_s"] = max(r.get("wall_s", 0), msg.get("wall_s", 0))
  if "error" in msg:
    r["error"] = msg["error"]


def check(pid, tier, only=None, jobs=None):
  t0 = time.time()
  seed = int(os.environ.get("VERIF_SEED", "1"))
  os.makedirs(EVID, exist_ok=True)
  hs = registry.load(pid)
  todo = [i for i, h in enumerate(hs) if (only is None or h.name in only) and (tier == "thorough" or not h.thorough_only)]
  jobs = jobs or int(os.environ.get("SYMX_JOBS", "8"))
  mp = multiprocessing.get_context("spawn")
  running = {}
  results = {}
  violations, spurious, errors, inconclusive = [], [], [], []
  nrep = 0
  pending = [(i, None, None) for i in sorted(todo, key=lambda i: -hs[i].budget(tier))]
  wid = 0
  last_ask = {}
  while pending or running:
    now = time.time()
    while pending and len(running) < jobs:
      i, work, deadline = pending.pop(0)
      deadline = deadline or now + hs[i].budget(tier)
      a, b = mp.Pipe()
      p = mp.Process(target=_worker, args=(pid, i, tier, b, deadline, work))
      p.start()
      b.close()
      wid += 1
      running[wid] = (i, p, a, deadline)
    if len(running) < jobs and not pending:
      # Idle cores: ask a worker with time left to share its open work.
      cand = [w for w, (i, p, a, dl) in running.items()
              if hs[i].engine == "py" and dl - now > 10 and now - last_ask.get(w, now - 2.5) > 2]
      for w in cand[:jobs - len(running)]:
        last_ask[w] = now
        try:
          running[w][2].send("split")
        except (BrokenPipeError, OSError):
          pass
    for w, (i, p, conn, deadline) in list(running.items()):
      if w not in running:
        continue
      got = False
      try:
        if conn.poll(0.01):
          msg = conn.recv()
          got = True
        elif not p.is_alive() and not conn.poll(0.05):
          _merge(results, i, {"error": f"worker died with status {p.exitcode}"})
          errors.append((hs[i].name, f"worker died with status {p.exitcode}"))
          del running[w]
          continue
      except (EOFError, ConnectionResetError):
        _merge(results, i, {"error": "worker closed its pipe"})
        errors.append((hs[i].name, "worker closed its pipe"))
        p.join(1)
        del running[w]
        continue
      if not got:
        if time.time() > deadline + 120:
          p.kill()
          errors.append((hs[i].name, "worker did not finish"))
          _merge(results, i, {"error": "timeout"})
          del running[w]
        continue
      if "split" in msg:
        if msg["split"]:
          pending.append((i, msg["split"], deadline))
        continue
      if "cex" in msg or "cexs" in msg:
        stop = False
        for cex in ([msg["cex"]] if "cex" in msg else msg["cexs"]):
          nrep += 1
          rp = os.path.join(EVID, f"replay-{pid}-{hs[i].name}-{nrep}.json")
          rec = {"property": pid, "harness": hs[i].name, "tier": tier, **cex}
          with open(rp, "w") as f:
            json.dump(rec, f, indent=1, default=str)
          rc, out = _run_replay(rp, hs[i].replay_timeout)
          if rc == 1 or (rc == 124 and hs[i].hang_is_violation):
            violations.append((hs[i].name, cex["msg"], rp, out))
            stop = True
          else:
            spurious.append((hs[i].name, cex["msg"], cex.get("approx", False), rc, out[-600:]))
            os.unlink(rp)
        if "cex" in msg:
          try:
            conn.send("stop" if stop else "go")
          except (BrokenPipeError, OSError):
            pass
        if "cexs" not in msg:
          continue
      if "error" in msg:
        errors.append((hs[i].name, msg["error"]))
      _merge(results, i, msg)
      p.join(2)
      if p.is_alive():
        p.kill()
      running.pop(w, None)
      if violations and not os.environ.get("SYMX_KEEP_GOING"):
        # One confirmed violation settles the check.
        for j, p2, c2, _ in list(running.values()):
          p2.kill()
          results.setdefault(j, {"skipped": "stopped after a violation"})
        running.clear()
        pending.clear()
  # Cross-validation of the encoding: path samples on the real code.
  nval = 0
  if not violations:
    from concurrent.futures import ThreadPoolExecutor

    def validate(i):
      rp = os.path.join(EVID, f"samples-{pid}-{hs[i].name}.json")
      with open(rp, "w") as f:
        json.dump({"property": pid, "harness": hs[i].name, "tier": tier, "assignments": results[i]["samples"]}, f)
      return i, rp, _run_replay(rp, hs[i].replay_timeout)

    vs = [i for i in todo if hs[i].engine == "py" and results.get(i, {}).get("samples") and hs[i].validate]
    with ThreadPoolExecutor(jobs) as pool:
      for i, rp, (rc, out) in pool.map(validate, vs):
        if rc == 1:
          violations.append((hs[i].name, "path sample fails on the real code", rp, out))
        elif rc == 0:
          for line in out.splitlines():
            if line.startswith("RESULT "):
              d = json.loads(line[7:])
              nval += d["n"] - d["outside"]
          os.unlink(rp)
        else:
          errors.append((hs[i].name, f"replaying samples: status {rc}: {out[-1500:]}"))
  # Vacuity guards.
  for i in todo:
    r = results.get(i, {})
    if violations or "error" in r or "skipped" in r:
      continue
    if hs[i].engine == "py" and (r.get("paths", 0) == 0 or r.get("checks", 0) == 0):
      errors.append((hs[i].name, f"vacuous: {r.get('paths')} paths, {r.get('checks')} checks, prunes {r.get('prune_reasons')}"))
    for tag in hs[i].must_reach:
      if not r.get("reach", {}).get(tag):
        errors.append((hs[i].name, f"vacuous: never reached {tag!r}"))
  hard_spurious = [s for s in spurious if not s[2] and not s[1].startswith("unexpected ")]
  level_cov = {
      "explanation": (
          "Bounded symbolic execution of the real code with an SMT solver (z3): every path the solver finds feasible "
          "within the stated bounds is executed and each assertion is discharged as an unsat query over all values of the "
          "symbolic inputs on that path. Counterexamples are replayed on the unpatched code before being reported."),
      "harnesses": {},
      "paths": 0, "assertions_discharged": 0, "solver_queries": 0, "solver_s": 0.0,
      "unknown_queries": 0, "pruned_paths": 0,
      "samples_replayed_on_real_code": nval,
      "functions_encoded": [],
      "samples": [],
  }
  funcs = set()
  for i in todo:
    r = results.get(i, {})
    h = hs[i]
    level_cov["harnesses"][h.name] = {
        "bounds": h.bounds, "exhausted_within_bounds": bool(r.get("exhausted")) and not r.get("error"),
        **{k: r.get(k) for k in ("paths", "pruned", "infeasible", "checks", "queries", "unknown", "solver_s", "prune_reasons", "reach", "wall_s", "detail") if k in r},
        **({"error": r["error"]} if "error" in r else {}),
        **({"stubs": h.stubs} if h.stubs else {}),
    }
    level_cov["paths"] += r.get("paths", 0)
    level_cov["assertions_discharged"] += r.get("checks", 0)
    level_cov["solver_queries"] += r.get("queries", 0)
    level_cov["solver_s"] += r.get("solver_s", 0)
    level_cov["unknown_queries"] += r.get("unknown", 0)
    level_cov["pruned_paths"] += r.get("pruned", 0)
    funcs |= set(r.get("functions", []))
    if r.get("samples"):
      level_cov["samples"].append({"harness": h.name, "inputs": r["samples"][0]})
  level_cov["functions_encoded"] = sorted(funcs)
  level_cov["solver_s"] = round(level_cov["solver_s"], 2)
  level_cov["violations"] = [{"harness": v[0], "msg": v[1][:1500], "replay": v[2]} for v in violations]
  level_cov["spurious_counterexamples"] = [{"harness": s[0], "msg": s[1][:300]} for s in spurious][:10]
  if errors:
    level_cov["errors"] = [{"harness": a, "what": b[-600:]} for a, b in errors]
  assumptions = sorted({s for i in todo for s in hs[i].stubs} | {f"{hs[i].name}: {hs[i].bounds}" for i in todo})
  ev = {
      "property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": level_cov,
      "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
      "violations": len(violations),
  }
  with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
    json.dump(ev, f, indent=1, default=str)
  for kf in registry.known_findings(pid):
    print(f"KNOWN-FINDING: property={pid} {kf}")
  for name, what in errors:
    print(f"ERROR harness={name}: {what[-2500:]}")
  for s in spurious[:6]:
    print(f"NOT-REPRODUCED harness={s[0]} rc={s[3]}: {s[1][:900]}\n   {s[4][-300:]}")
  print(f"{pid} {tier}: {len(todo)} harnesses, {level_cov['paths']} paths, {level_cov['assertions_discharged']} assertions, "
        f"{level_cov['solver_queries']} queries, solver {level_cov['solver_s']}s, "
        f"exhausted {sum(1 for i in todo if results.get(i, {}).get('exhausted'))}/{len(todo)}, wall {ev['wall_s']}s")
  if violations:
    for v in violations:
      print(f"-- {v[0]}: {v[1][:1500]}\n{v[3][-1500:]}")
      print(f"VIOLATION property={pid} replay={v[2]}")
    return 1
  if errors or hard_spurious:
    return 3
  return 0


def main():
  ap = argparse.ArgumentParser()
  sub = ap.add_subparsers(dest="cmd", required=True)
  c = sub.add_parser("check")
  c.add_argument("pid")
  c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  c.add_argument("--only", action="append")
  c.add_argument("--jobs", type=int)
  r = sub.add_parser("replay")
  r.add_argument("file")
  sub.add_parser("list")
  sub.add_parser("setup")
  a = ap.parse_args()
  if a.cmd == "check":
    rc = check(a.pid, a.tier, a.only, a.jobs)
  elif a.cmd == "replay":
    rc = replay(a.file)
    sys.stdout.flush()
    os._exit(rc)
  else:
    for pid in registry.all_ids():
      for h in registry.load(pid):
        print(pid, h.name, h.bounds)
    rc = 0
  sys.stdout.flush()
  sys.exit(rc)


if __name__ == "__main__":
  main()
