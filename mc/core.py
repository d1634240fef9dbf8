"""
Runner shared by all checks: counting of states / transitions / traces, parallel
exploration of a finite space, violations, known findings, evidence.

A check module defines
    PROPERTY = "Cxx"
    ASSUMPTIONS = [...]
    def explore(run: Run) -> None
and calls run.parallel(worker, units): `units` is the complete list of work units of
the bounded space, and worker(unit) explores one unit and returns a Result.
"""
import concurrent.futures as cf
import contextlib
import hashlib
import json
import multiprocessing as mp
import os
import pathlib
import signal
import sys
import time
import traceback
from typing import Any, Callable, Dict, Iterable, List, Optional

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")


class Violation(Exception):
    """The implementation was observed to break the property."""

    def __init__(self, what: str, case: Any = None):
        super().__init__(what)
        self.what = what
        self.case = case


class Timeout(Exception):
    pass


@contextlib.contextmanager
def time_limit(seconds: float, what: str = "call"):
    """Bounds one call of the implementation (a call that never returns is a violation)."""

    def handler(signum: int, frame: Any) -> None:
        raise Timeout(f"{what} did not return within {seconds}s")

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def digest(obj: Any) -> int:
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big"
    )


class Result:
    """What one work unit explored."""

    def __init__(self) -> None:
        self.states: set = set()
        self.outcomes: set = set()
        self.transitions = 0
        self.traces = 0
        self.samples: List[Any] = []
        self.violations: List[Dict[str, Any]] = []
        self.known: Dict[str, int] = {}

    def state(self, key: Any) -> bool:
        d = digest(key)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def outcome(self, key: Any) -> None:
        """Observation made on the implementation: counts how diverse these are"""
        self.outcomes.add(digest(key))

    def step(self, n: int = 1) -> None:
        self.transitions += n

    def trace(self, n: int = 1) -> None:
        self.traces += n

    def sample(self, case: Any) -> None:
        if len(self.samples) < 3:
            self.samples.append(case)

    def violation(self, what: str, case: Any = None) -> None:
        if len(self.violations) < 5:
            self.violations.append({"what": what, "case": jsonable(case)})

    def known_finding(self, key: str) -> None:
        self.known[key] = self.known.get(key, 0) + 1


def jsonable(x: Any) -> Any:
    try:
        json.dumps(x)
        return x
    except TypeError:
        if isinstance(x, dict):
            return {str(k): jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, set, frozenset)):
            return [jsonable(v) for v in x]
        return repr(x)


def _call(args: Any) -> Any:
    worker, unit = args
    res = Result()
    try:
        worker(unit, res)
    except Violation as v:
        res.violation(v.what, v.case)
    except Timeout as e:
        res.violation(f"never returns: {e}", unit)
    except Exception as e:
        if raised_by_implementation(e):
            res.violation(
                "unexpected exception of the implementation: "
                + traceback.format_exc()[-1500:],
                unit,
            )
        else:
            return ("error", traceback.format_exc(), unit)
    return ("ok", res, unit)


def raised_by_implementation(e: BaseException) -> bool:
    """
    True if the code under test (or a library it calls) raised, and not the harness:
    among the frames of the harness and of the code under test, the innermost is
    one of the latter.
    """
    last = None
    for frame in traceback.extract_tb(e.__traceback__):
        if frame.filename.startswith(str(REPO / "src")):
            last = "impl"
        elif frame.filename.startswith(str(ROOT)):
            last = "harness"
    return last == "impl"


class Run:
    def __init__(self, prop: str, tier: str, seed: int):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.total = Result()
        self.units = 0
        self.errors: List[str] = []
        self.notes: Dict[str, Any] = {}
        self.stopped = False

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def merge(self, res: Result) -> None:
        t = self.total
        t.states |= res.states
        t.outcomes |= res.outcomes
        t.transitions += res.transitions
        t.traces += res.traces
        for s in res.samples:
            if len(t.samples) < 6:
                t.samples.append(jsonable(s))
        t.violations.extend(res.violations)
        for k, n in res.known.items():
            t.known[k] = t.known.get(k, 0) + n

    def local(self, worker: Callable[[Any, Result], None], unit: Any = None) -> None:
        self.parallel(worker, [unit], processes=1)

    def parallel(
        self,
        worker: Callable[[Any, Result], None],
        units: Iterable[Any],
        processes: Optional[int] = None,
    ) -> None:
        """Explores every unit; stops early only once violations have been found"""
        units = list(units)
        if self.stopped:
            return
        n = processes or min(8, os.cpu_count() or 1, max(1, len(units)))
        self.units += len(units)

        def handle(out: Any) -> None:
            kind, payload, unit = out
            if kind == "error":
                self.errors.append(f"unit {str(unit)[:300]}:\n{payload}")
            else:
                self.merge(payload)

        jobs = [(worker, u) for u in units]
        # VERIF_SEED only permutes the order of the exploration, never its content
        if self.seed and len(jobs) > 1:
            import random

            random.Random(self.seed).shuffle(jobs)
        if n == 1:
            for j in jobs:
                handle(_call(j))
                if len(self.total.violations) >= 5 or len(self.errors) > 5:
                    self.stopped = True
                    return
        else:
            ctx = mp.get_context("fork")
            with cf.ProcessPoolExecutor(n, mp_context=ctx) as pool:
                futures = [pool.submit(_call, j) for j in jobs]
                for f in cf.as_completed(futures):
                    handle(f.result())
                    if len(self.total.violations) >= 5 or len(self.errors) > 5:
                        self.stopped = True
                        children = mp.active_children()
                        pool.shutdown(wait=False, cancel_futures=True)
                        for p in children:
                            p.terminate()
                        return


def known_findings(prop: str) -> List[str]:
    """Keys of the recorded (unrepaired) findings of the property: 'finding: property=<id> key=<key> <what>'"""
    res = []
    path = ROOT / "known_findings.txt"
    for line in path.read_text().splitlines() if path.exists() else []:
        if line.startswith(f"finding: property={prop} "):
            res.append(line[len(f"finding: property={prop} "):])
    return res


def main(prop: str) -> int:
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    import importlib
    import logging

    logging.disable(logging.CRITICAL)
    module = importlib.import_module(f"mc.checks.{prop.lower()}")
    run = Run(prop, tier, seed)
    module.explore(run)
    t = run.total

    listed = known_findings(prop)
    listed_keys = {}
    for l in listed:
        key = l.split(" ", 1)[0].split("=", 1)[1]
        listed_keys[key] = l.split(" ", 1)[1]
    for key in t.known:
        if key not in listed_keys:
            t.violations.append({"what": f"finding not listed: {key}", "case": None})

    wall = round(time.time() - start, 2)
    coverage = {
        "states": len(t.states),
        "transitions": t.transitions,
        "traces_validated_against_impl": t.traces,
        "distinct_outcomes_observed": len(t.outcomes),
        "work_units": run.units,
        "exhaustive": not run.stopped and not run.errors,
        "bounds": getattr(module, "BOUNDS", {}).get(tier, ""),
        "samples": t.samples or ["(none)"],
    }
    coverage.update(run.notes)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": wall,
        "violations": len(t.violations),
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))

    for key, n in sorted(t.known.items()):
        if key in listed_keys:
            print(f"KNOWN-FINDING: property={prop} {key}: {listed_keys[key]} ({n} cases)")

    if t.violations:
        (ROOT / "replay").mkdir(exist_ok=True)
        path = ROOT / "replay" / f"{prop}.json"
        path.write_text(
            json.dumps({"property": prop, "violations": t.violations}, indent=1)
        )
        for v in t.violations[:3]:
            print("  what:", str(v["what"])[:1500])
            print("  case:", str(v["case"])[:1500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if run.errors:
        print("CHECK ERROR", *run.errors[:3], sep="\n", file=sys.stderr)
        return 2
    print(
        f"OK property={prop} tier={tier} states={len(t.states)} transitions={t.transitions}"
        f" traces={t.traces} outcomes={len(t.outcomes)} units={run.units} wall={wall}s"
    )
    return 0
