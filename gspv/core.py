"""Shared runner: workload cases, monitors (oracle evaluations), verdicts, evidence.

A check is a module exposing
    ID      property id
    RULE    how cases are made and what makes one non-trivial
    FIXED   list of case functions f(m) run once each (directed scenarios)
    RANDOM  list of (f, quick_count, thorough_count); f(m) draws from m.rng
    MIN     minimal number of oracle evaluations below which a run is inconclusive
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")
WORKERS = 6
BUDGET = {"quick": 240.0, "thorough": 700.0}
QUICK, THOROUGH = 6, 8      # multiples of the counts the checks state
CASE_LIMIT = 60     # seconds of processor time; a case normally takes a small fraction of a second


class Violation(Exception):
    """The monitored execution contradicts the property."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Stuck(BaseException):
    """A case exceeded the watchdog: a call does not return."""


def _alarm(signum, frame):
    raise Stuck()


class Monitor:
    """What one case observes: counts oracle evaluations and keeps its event log."""

    def __init__(self, rng, tier):
        self.rng = rng
        self.tier = tier
        self.evaluations = 0
        self.kinds = {}
        self.log = []
        self.distinct = set()

    # -- observation ---------------------------------------------------
    def event(self, *what):
        if len(self.log) < 400:
            self.log.append(" ".join(_short(w) for w in what))

    def seen(self, *key):
        """Mark a distinct, non-trivial behaviour as observed."""
        self.distinct.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])

    def count(self, kind="check"):
        self.evaluations += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1

    # -- oracle --------------------------------------------------------
    def check(self, condition, message, key=None):
        self.count()
        if not bool(condition):
            raise Violation(message, key)

    def eq(self, got, expected, message, key=None):
        self.count()
        same = type(got) is not np.ndarray and type(expected) is not np.ndarray
        ok = (got == expected) if same else np.array_equal(got, expected)
        if not bool(ok):
            raise Violation(f"{message}: got {_short(got)}, expected {_short(expected)}", key)

    def close(self, got, expected, message, tol=1e-5, key=None):
        """Equal shapes and values within tol (relative to the magnitude in play)."""
        self.count()
        g = np.asarray(got, dtype=np.float64)
        e = np.asarray(expected, dtype=np.float64)
        if g.shape != e.shape:
            raise Violation(f"{message}: shape {g.shape}, expected {e.shape}", key)
        if g.size == 0:
            return
        finite = np.isfinite(e)
        if not np.array_equal(np.isfinite(g), finite):
            raise Violation(f"{message}: got {_short(g)}, expected {_short(e)}", key)
        scale = max(1.0, float(np.abs(e[finite]).max()) if finite.any() else 1.0)
        if finite.any() and float(np.abs(g[finite] - e[finite]).max()) > tol * scale:
            raise Violation(f"{message}: got {_short(g)}, expected {_short(e)}", key)

    def raises(self, exceptions, func, message, key=None):
        self.count()
        try:
            result = func()
        except exceptions:
            return
        except Exception as error:
            raise Violation(f"{message}: raised {type(error).__name__}: {error}", key)
        raise Violation(f"{message}: no error, returned {_short(result)}", key)

    # -- random helpers ------------------------------------------------
    def pick(self, seq):
        seq = list(seq)
        return seq[int(self.rng.integers(len(seq)))]

    def chance(self, p=0.5):
        return bool(self.rng.random() < p)

    def integer(self, low, high):
        """Integer in [low, high] as a python int."""
        return int(self.rng.integers(low, high + 1))

    def real(self, low, high):
        return float(self.rng.uniform(low, high))


def _short(x, limit=300):
    if isinstance(x, np.ndarray):
        s = np.array2string(np.asarray(x), precision=5, threshold=24).replace("\n", "")
    else:
        s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= limit else s[:limit] + "…"


def known_findings(pid):
    """Mechanism keys of the findings recorded (not repaired) for this property."""
    found = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as stream:
            for line in stream:
                line = line.strip()
                if line.startswith("known: "):
                    words = line[len("known: "):].split(" ", 2)
                    prop = words[0].split("=", 1)[1]
                    key = words[1].split("=", 1)[1]
                    if prop == pid:
                        found[key] = words[2]
    return found


def cases(module, tier):
    """All cases of a check, in order: (label, function)."""
    todo = [(f"fixed:{f.__name__}", f) for f in getattr(module, "FIXED", [])]
    for func, quick, thorough in getattr(module, "RANDOM", []):
        n = min(thorough, getattr(module, "QUICK", QUICK) * quick) if tier == "quick" else THOROUGH * thorough
        todo += [(f"{func.__name__}:{i}", func) for i in range(n)]
    return todo


def run_case(module, tier, seed, label, func):
    rng = np.random.default_rng([seed, zlib.crc32(module.ID.encode()), zlib.crc32(label.encode())])
    m = Monitor(rng, tier)
    failure = None
    from . import env
    env.fresh()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                func(m)
    except Violation as error:
        failure = (str(error), error.key)
    except Exception as error:
        trace = traceback.format_exc().strip().splitlines()
        m.log.extend(trace[-12:])
        failure = (f"unexpected {type(error).__name__}: {error}", None)
        m.count("exception")
    except Stuck:
        failure = (f"a call did not return: case stopped after {CASE_LIMIT} s of processor time", "stuck")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        env.clean()
    return m, failure


def _worker(args):
    name, tier, seed, part, parts, deadline = args
    module = importlib.import_module(name)
    out = {"evaluations": 0, "kinds": {}, "distinct": set(), "failures": [], "samples": [],
           "cases": 0, "skipped": 0}
    for index, (label, func) in enumerate(cases(module, tier)):
        if index % parts != part:
            continue
        if time.time() > deadline:
            out["skipped"] += 1
            continue
        m, failure = run_case(module, tier, seed, label, func)
        out["cases"] += 1
        out["evaluations"] += m.evaluations
        for kind, n in m.kinds.items():
            out["kinds"][kind] = out["kinds"].get(kind, 0) + n
        out["distinct"] |= m.distinct
        if failure:
            if len(out["failures"]) < 5:
                out["failures"].append((label, failure[0], failure[1], m.log))
            else:
                out["failures"].append((label, failure[0], failure[1], []))
        elif m.log and len(out["samples"]) < 2:
            out["samples"].append({"case": label, "oracle_evaluations": m.evaluations,
                                   "events": m.log[:8]})
    return out


def main(argv):
    # Whatever the code under test writes under a relative name stays in a scratch folder
    with tempfile.TemporaryDirectory(prefix="gspv-") as scratch:
        try:
            return run(argv, scratch)
        finally:
            os.chdir(ROOT)


def run(argv, scratch):
    pid = argv[0]
    name = f"gspv.{pid.lower()}"
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if tier not in BUDGET:
        tier = "quick"

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1], encoding="utf-8") as stream:
            replay = json.load(stream)
        os.chdir(scratch)
        module = importlib.import_module(name)
        for label, func in cases(module, replay["tier"]):
            if label == replay["case"]:
                m, failure = run_case(module, replay["tier"], replay["seed"], label, func)
                print("\n".join(m.log))
                print("case", label, "->", failure)
                return 1 if failure else 0
        print("no such case")
        return 2

    start = time.time()
    deadline = start + BUDGET[tier]
    os.chdir(scratch)
    module = importlib.import_module(name)
    total = len(cases(module, tier))
    parts = max(1, min(WORKERS, total // 8, int(os.environ.get("GSPV_WORKERS", WORKERS))))
    jobs = [(name, tier, seed, i, parts, deadline) for i in range(parts)]
    if parts == 1:
        outs = [_worker(jobs[0])]
    else:
        with multiprocessing.get_context("fork").Pool(parts) as pool:
            outs = pool.map(_worker, jobs, chunksize=1)

    evaluations = sum(o["evaluations"] for o in outs)
    kinds = {}
    for o in outs:
        for kind, n in o["kinds"].items():
            kinds[kind] = kinds.get(kind, 0) + n
    distinct = set().union(*(o["distinct"] for o in outs))
    done = sum(o["cases"] for o in outs)
    skipped = sum(o["skipped"] for o in outs)
    samples = [s for o in outs for s in o["samples"]][:3]
    failures = [f for o in outs for f in o["failures"]]
    known = known_findings(pid)
    fresh = [f for f in failures if f[2] not in known]

    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done,
            "oracle_evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": module.RULE,
            "samples": samples or [{"case": f[0], "violation": f[1]} for f in failures[:3]],
            "observations_by_kind": kinds,
            "cases_planned": total, "cases_skipped_for_time": skipped,
            "known_findings_met": sorted({f[2] for f in failures if f[2] in known}),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - start, 3),
        "violations": len(fresh),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w", encoding="utf-8") as stream:
        json.dump(evidence, stream, indent=1)

    for key, text in known.items():
        print(f"KNOWN-FINDING: property={pid} {text}")
    if fresh:
        folder = os.path.join(EVIDENCE, "replay")
        os.makedirs(folder, exist_ok=True)
        for label, message, key, log in fresh[:3]:
            path = os.path.join(folder, f"{pid}-{label.replace(':', '_')}.json")
            with open(path, "w", encoding="utf-8") as stream:
                json.dump({"property": pid, "tier": tier, "seed": seed, "case": label,
                           "violation": message, "events": log}, stream, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  case {label}: {message}")
        return 1
    minimum = getattr(module, "MIN", 50)
    if evaluations < minimum or not distinct:
        print(f"INCONCLUSIVE property={pid}: only {evaluations} oracle evaluations")
        return 2
    print(f"OK property={pid} tier={tier} seed={seed} cases={done} oracle_evaluations={evaluations} "
          f"distinct={len(distinct)} wall={time.time()-start:.1f}s")
    return 0
