"""Runner: generates cases with Hypothesis, applies the oracles of one property, shrinks failures to a replay file.

A check module (checks/<ID>.py) defines PROPERTY, RULE, LANES (list of Lane).  A case is a JSON-able value drawn from the
lane's strategy; lane.check(case, rec) raises when the property is broken.  A case is a pure function of its drawn
content: all generators (C++, torch, numpy, python) are reset from the case before each evaluation.
"""
import argparse
import ctypes
import hashlib
import importlib
import importlib.machinery
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
REPO = os.environ.get("VERIF_REPO", "/repo")
CRASH = (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL)
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
QUICK = float(os.environ.get("VERIF_QUICK", "1.6"))      # multiple of the lanes' quick budgets


class _Only:
    names = ("hypothesis", "sortedcontainers", "_hypothesis_globals", "_hypothesis_ftz_detector")

    def find_spec(self, name, path=None, target=None):
        if name in self.names:
            return importlib.machinery.PathFinder.find_spec(name, [HYP])
        return None


class Violation(AssertionError):
    """The property is broken by this case."""


class HarnessError(RuntimeError):
    """The check itself cannot run (never reported as a violation)."""


class Skip(Exception):
    """The case is outside the property's domain (counted)."""


class Rec:
    """What one case covered."""

    def __init__(self):
        self.labels, self.nontrivial, self.known = [], False, []

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def hit(self, cond=True):
        """Mark the case as non-trivial."""
        self.nontrivial = self.nontrivial or bool(cond)


class Lane:
    def __init__(self, name, strategy, check, quick, thorough=None, explicit=(), seedable=True, shards=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 20
        self.explicit, self.shards = list(explicit), shards


_lib = None


def reset(seed):
    """Reset every generator."""
    import numpy as np
    import torch
    seed = int(seed) % (2 ** 31 - 7) + 1
    if _lib is not None:
        _lib.verif_reset(seed)
    torch.manual_seed(seed)
    np.random.seed(seed % (2 ** 32))
    random.seed(seed)


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


def evaluate(lane, case):
    rec = Rec()
    reset(int(case_hash(case)[:12], 16))
    lane.check(json.loads(json.dumps(case)), rec)
    return rec


def _short(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
    return f"{type(exc).__name__}: {str(exc)[:1200]} [{where}]"


def work(lane, shard, nshards, n, seed, out, tier):
    """One unit: run in a forked child; writes a JSON result."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45 if tier == "quick" else 240
    res = {"lane": lane.name, "evals": 0, "nontrivial": [], "labels": {}, "samples": [], "fail": None, "error": None,
           "known": {}, "skips": 0}
    seen = set()
    t0 = time.time()

    cur = open(out + ".cur", "w")  # pylint: disable=consider-using-with

    def one(case):
        res["evals"] += 1
        cur.seek(0)
        cur.truncate()
        cur.write(json.dumps(case, default=str))
        cur.flush()
        t1 = time.time()
        try:
            rec = evaluate(lane, case)
            if os.environ.get("VERIF_SLOW") and time.time() - t1 > float(os.environ["VERIF_SLOW"]):
                print("SLOW", round(time.time() - t1, 2), json.dumps(case, default=str), flush=True)
        except HarnessError:
            raise
        except Skip:
            res["skips"] += 1
            hypothesis.reject()
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as exc:
            res["fail"] = {"case": case, "why": _short(exc), "seed": seed}
            raise
        for x in rec.known:
            res["known"].setdefault(x[0], x[1])
        for x in rec.labels:
            res["labels"][x] = res["labels"].get(x, 0) + 1
        if rec.nontrivial:
            h = case_hash(case)[:16]
            if h not in seen:
                seen.add(h)
                if len(res["samples"]) < 2 and len(json.dumps(case, default=str)) < 3000:
                    res["samples"].append({"lane": lane.name, "case": case, "labels": rec.labels[:12]})

    try:
        if shard == 0:
            for case in lane.explicit:
                one(case)
        if lane.strategy is not None and n > 0:
            @hypothesis.seed(seed * 1000003 + shard * 7919 + int(hashlib.sha256(lane.name.encode()).hexdigest()[:6], 16))
            @settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.target, Phase.shrink), print_blob=False,
                      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])
            @given(lane.strategy)
            def test(case):
                one(case)
            test()
    except BaseException as exc:  # pylint: disable=broad-except
        if res["fail"] is None:
            res["error"] = _short(exc) if not isinstance(exc, SystemExit) else "exit"
            res["error"] += "\n" + traceback.format_exc()[-3000:]
    res["nontrivial"] = sorted(seen)
    res["wall"] = time.time() - t0
    with open(out + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(out + ".tmp", out)


def load_known(pid):
    out = {}
    path = os.path.join(HERE, "known_findings.json")
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f)["findings"]:
                if e["property"] == pid and e["status"] == "known":
                    out[e["id"]] = e["what"]
    return out


def prepare():
    global _lib
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO + "/src")
    sys.meta_path.insert(0, _Only())
    from vlib import native
    paths = native.build()
    sys.meta_path.insert(0, native.Finder(paths))
    import torch
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    import aihwkit
    if not os.path.realpath(aihwkit.__file__).startswith(os.path.realpath(REPO) + "/"):
        raise HarnessError(f"aihwkit imported from {aihwkit.__file__}")
    from aihwkit.simulator import rpu_base
    if rpu_base.__file__ != paths["aihwkit.simulator.rpu_base"]:
        raise HarnessError(f"rpu_base imported from {rpu_base.__file__}")
    _lib = ctypes.CDLL(paths["aihwkit.simulator.rpu_base"])
    _lib.verif_reset.argtypes = [ctypes.c_ulonglong]
    import warnings
    warnings.filterwarnings("ignore")


def write_replay(pid, fail, lane):
    d = os.path.join(HERE, "build", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{lane}-{case_hash(fail['case'])[:10]}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "lane": lane, "case": fail["case"], "why": fail["why"]}, f, indent=1, default=str)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--lane")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = 840 if tier == "quick" else 6 * 3600
    try:
        prepare()
        mod = importlib.import_module(f"checks.{pid}")
        lanes = [x for x in mod.LANES if a.lane in (None, x.name)]
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        print(f"ERROR: check of {pid} cannot start", flush=True)
        return 3
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        lane = {x.name: x for x in mod.LANES}[r["lane"]]
        try:
            rec = evaluate(lane, r["case"])
        except (HarnessError, Skip) as exc:
            print("ERROR", _short(exc))
            return 3
        except Exception as exc:  # pylint: disable=broad-except
            traceback.print_exc()
            print(_short(exc))
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        print("replay passes", rec.labels, rec.known)
        return 0

    outdir = os.path.join(HERE, "build", "run", f"{pid}.{os.getpid()}")
    os.makedirs(outdir, exist_ok=True)
    units = []
    for lane in lanes:
        n = max(1, int((lane.quick * QUICK if tier == "quick" else lane.thorough) * a.scale))
        sh = lane.shards or min(NPROC, max(1, n // 10))
        for s in range(sh):
            k = n // sh + (1 if s < n % sh else 0)
            units.append((lane, s, sh, k if lane.strategy is not None else 0))
    # interleave so that the slow lanes start first in declared order
    running, results, todo = {}, [], list(units)
    failed_at = None
    errors = []
    while todo or running:
        while todo and len(running) < NPROC and failed_at is None:
            lane, s, sh, k = todo.pop(0)
            out = os.path.join(outdir, f"{lane.name}.{s}.json")
            pidc = os.fork()
            if pidc == 0:
                try:
                    work(lane, s, sh, k, seed, out, tier)
                except BaseException:  # pylint: disable=broad-except
                    traceback.print_exc()
                    os._exit(4)
                os._exit(0)
            running[pidc] = (lane, out, s)
        if failed_at is not None:
            todo = []
        try:
            got, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            got, status = 0, 0
        if got in running:
            lane, out, s = running.pop(got)
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                os.remove(out)
                results.append(r)
                if r["fail"]:
                    failed_at = failed_at or time.time()
                if r["error"]:
                    errors.append((lane.name, s, r["error"]))
            elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in CRASH and os.path.exists(out + ".cur"):
                # the code under test crashed the process on this (unshrunk) case
                with open(out + ".cur") as f:
                    case = json.loads(f.read() or "null")
                results.append({"lane": lane.name, "evals": 0, "nontrivial": [], "labels": {}, "samples": [],
                                "error": None, "known": {}, "skips": 0, "wall": 0.0,
                                "fail": {"case": case, "why": f"process died with signal {os.WTERMSIG(status)}"}})
                failed_at = failed_at or time.time()
            elif failed_at is None:
                errors.append((lane.name, s, f"worker died, status {status}"))
        else:
            time.sleep(0.01)
        if failed_at is not None and time.time() - failed_at > (20 if tier == "quick" else 120) or time.time() - t0 > limit:
            for p in running:
                os.kill(p, signal.SIGKILL)
            for p in list(running):
                os.waitpid(p, 0)
            if failed_at is None:
                errors.append(("-", 0, "time limit"))
            running, todo = {}, []
    try:
        for x in os.listdir(outdir):
            os.remove(os.path.join(outdir, x))
        os.rmdir(outdir)
    except OSError:
        pass

    known = load_known(pid)
    fails = [(r["lane"], r["fail"]) for r in results if r["fail"]]
    seen_known = {}
    for r in results:
        for k, w in r["known"].items():
            seen_known.setdefault(k, (r["lane"], w))
    for k, (lane, w) in list(seen_known.items()):
        if k not in known:
            fails.append((lane, {"case": w.get("case") if isinstance(w, dict) else w, "why": f"{k}: {w}"}))
    nontriv, labels, samples, evals, per = set(), {}, [], 0, {}
    for r in results:
        nontriv |= {r["lane"] + x for x in r["nontrivial"]}
        evals += r["evals"]
        p = per.setdefault(r["lane"], {"evaluations": 0, "nontrivial": 0, "out_of_domain": 0, "cpu_s": 0})
        p["evaluations"] += r["evals"]
        p["nontrivial"] += len(r["nontrivial"])
        p["out_of_domain"] += r["skips"]
        p["cpu_s"] = round(p["cpu_s"] + r["wall"], 1)
        for k, v in r["labels"].items():
            labels[f"{r['lane']}:{k}"] = labels.get(f"{r['lane']}:{k}", 0) + v
    for lane in lanes:
        samples += [s for r in results if r["lane"] == lane.name for s in r["samples"]][:2]
    wall = round(time.time() - t0, 2)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nontriv), "rule": mod.RULE,
                       "samples": samples[:12] or ["none"], "lanes": per,
                       "labels": dict(sorted(labels.items(), key=lambda x: -x[1])[:150]),
                       "known_findings_seen": sorted(seen_known)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": wall, "violations": len(fails)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    data = json.dumps(ev, indent=1, default=str)
    while len(data) > 60000 and ev["coverage"]["samples"]:
        ev["coverage"]["samples"].pop()
        data = json.dumps(ev, indent=1, default=str)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        f.write(data)
    if a.stats:
        for k, v in sorted(labels.items()):
            print(f"   {k}: {v}")
    for k, p in per.items():
        print(f"  {pid} {k}: {p}")
    for k in sorted(seen_known):
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {k}: {known[k]}")
    print(f"{pid} {tier} seed={seed}: {evals} cases, {len(nontriv)} distinct non-trivial, {len(fails)} violation(s), {wall} s",
          flush=True)
    if fails:
        lane, fail = fails[0]
        path = write_replay(pid, fail, lane)
        print(f"  {lane}: {fail['why']}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR", *e)
        return 3
    missing = [k for k in known if k not in seen_known]
    if missing and a.lane is None:
        print("note: listed finding(s) did not show:", missing)
    return 0


if __name__ == "__main__":
    from vlib import core as _core   # one module identity for the check modules
    sys.exit(_core.main())
