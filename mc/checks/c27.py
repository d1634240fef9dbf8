"""
C27: the command line, run in process on every command of a bounded grammar over scratch
studies; the printed status and cost are compared with a closed-form optimum.
"""
import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
from pathlib import Path
from typing import Any, Dict, List, Optional, Tuple
from unittest import mock

from andromede.main.main import main_cli
from mc.core import Result, Run, time_limit

PROPERTY = "C27"
ASSUMPTIONS = ["durations and numbers of scenarios are positive", "the printed cost of a problem which has no optimum is not specified"]
BOUNDS = {
    "quick": "one or two libraries in both orders, 3 systems (feasible, infeasible, coupled by an energy limit), study folder or separate files, absolute or relative paths; durations {absent,1..4} x scenario counts {absent,1..3} on series of 3 timesteps and 2 scenarios; durations up to 401 on 400 timesteps, and up to 25 scenarios; all orders of the options; all subsets of {--study,--models,--component,--timeseries}; each file or folder missing in turn; libraries, components and series damaged in 10 ways",
    "thorough": "the same with all the orders of options for each duration and scenario count",
}

CORE = """library:
  id: core
  port-types:
    - id: flow
      fields:
        - id: flow
  models:
    - id: node
      ports:
        - id: p
          type: flow
      binding-constraints:
        - id: balance
          expression: sum_connections(p.flow) = 0
    - id: demand
      parameters:
        - id: load
          time-dependent: true
          scenario-dependent: true
      ports:
        - id: p
          type: flow
      port-field-definitions:
        - port: p
          field: flow
          definition: -load
"""
PROD = """library:
  id: prod
  dependencies:
    - core
  models:
    - id: generator
      parameters:
        - id: cost
          time-dependent: false
          scenario-dependent: false
        - id: cap
          time-dependent: true
          scenario-dependent: false
        - id: energy
          time-dependent: false
          scenario-dependent: false
      variables:
        - id: g
          lower-bound: 0
          upper-bound: cap
      ports:
        - id: p
          type: flow
      port-field-definitions:
        - port: p
          field: flow
          definition: g
      constraints:
        - id: stock
          expression: sum(g) <= energy
      objective: expec(sum(cost * g))
    - id: ens
      parameters:
        - id: price
          time-dependent: false
          scenario-dependent: true
        - id: limit
          time-dependent: false
          scenario-dependent: false
      variables:
        - id: e
          lower-bound: 0
          upper-bound: limit
      ports:
        - id: p
          type: flow
      port-field-definitions:
        - port: p
          field: flow
          definition: e
      objective: expec(sum(price * e))
"""
LOAD = [[5.0, 8.0], [11.0, 2.0], [3.0, 7.0]]
CAP = [4.0, 6.0, 5.0]
PRICE = [100.0, 170.0]
COST = 3.0
SYSTEMS = {"free": (1e6, 50.0), "limited": (7.0, 50.0), "infeasible": (1e6, 1.0)}  # energy, limit of unsupplied energy


def merged() -> str:
    return CORE + PROD[PROD.index("    - id: generator"):]


def system(kind: str, split: bool) -> str:
    energy, limit = SYSTEMS[kind]
    prod = "prod" if split else "core"

    def comp(cid: str, model: str, params: List[Tuple[str, bool, bool, Any]]) -> str:
        s = f"    - id: {cid}\n      model: {model}\n"
        if params:
            s += "      parameters:\n"
        for p, t, sc, v in params:
            s += f"        - id: {p}\n          time-dependent: {str(t).lower()}\n          scenario-dependent: {str(sc).lower()}\n          value: {v}\n"
        return s

    out = "system:\n  nodes:\n" + comp("n", "core.node", [])
    out += "  components:\n" + comp("d", "core.demand", [("load", True, True, "load")])
    out += comp("g", f"{prod}.generator", [("cost", False, False, COST), ("cap", True, False, "cap"), ("energy", False, False, energy)])
    out += comp("e", f"{prod}.ens", [("price", False, True, "price"), ("limit", False, False, limit)])
    out += "  connections:\n"
    for c in "dge":
        out += f"    - component1: n\n      port1: p\n      component2: {c}\n      port2: p\n"
    return out


def expected(kind: str, T: int, S: int) -> Optional[float]:
    """Optimal average cost; None if infeasible"""
    energy, limit = SYSTEMS[kind]
    res = 0.0
    for s in range(S):
        d = [LOAD[t][s] for t in range(T)]
        most = sum(min(d[t], CAP[t]) for t in range(T))
        if any(d[t] - min(d[t], CAP[t]) > limit for t in range(T)):
            return None
        g = min(most, energy)
        res += COST * g + PRICE[s] * (sum(d) - g)
    return res / S


def write_study(root: Path, kind: str, split: bool) -> None:
    models, series = root / "input" / "models", root / "input" / "components" / "series"
    models.mkdir(parents=True)
    series.mkdir(parents=True)
    if split:
        # the alphabetical order is not the one of the dependencies
        (models / "b_core.yml").write_text(CORE)
        (models / "a_prod.yml").write_text(PROD)
    else:
        (models / "all.yml").write_text(merged())
    (root / "input" / "components" / "components.yml").write_text(system(kind, split))
    (series / "load.txt").write_text("".join(" ".join(map(str, r)) + "\n" for r in LOAD))
    (series / "cap.txt").write_text("".join(f"{v}\n" for v in CAP))
    (series / "price.txt").write_text(" ".join(map(str, PRICE)) + "\n")


class Out:
    def __init__(self, status: Optional[int], cost: Optional[float], error: Optional[BaseException]):
        self.status, self.cost, self.error = status, cost, error

    def __repr__(self) -> str:
        return f"status={self.status} cost={self.cost} error={self.error!r}"


def call(argv: List[str]) -> Out:
    out, err = io.StringIO(), io.StringIO()
    error: Optional[BaseException] = None
    # the solver itself reports on the file descriptor
    saved, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    with mock.patch.object(sys, "argv", ["andromede"] + argv), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            with time_limit(60, "command line"):
                main_cli()
        except SystemExit as e:
            error = e if e.code not in (0, None) else None
        except Exception as e:
            error = e
    os.dup2(saved, 2)
    os.close(saved)
    os.close(null)
    text = out.getvalue()
    st, co = re.search(r"status\s*:\s*(-?\d+)", text), re.search(r"cost\s*:\s*(\S+)", text)
    return Out(int(st.group(1)) if st else None, float(co.group(1)) if co else None, error)


@contextlib.contextmanager
def scratch() -> Any:
    d = Path(tempfile.mkdtemp(prefix="c27_"))
    old = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def options(root: Path, layout: str, split: bool, reverse: bool) -> List[List[str]]:
    if layout == "study":
        return [["--study", str(root)]]
    files = ["b_core.yml", "a_prod.yml"] if split else ["all.yml"]
    if reverse:
        files.reverse()
    i = root / "input"
    return [["--models"] + [str(i / "models" / f) for f in files], ["--component", str(i / "components" / "components.yml")], ["--timeseries", str(i / "components" / "series")]]


def judge(res: Result, out: Out, kind: str, T: int, S: int, case: Any) -> None:
    res.step()
    res.state(str(case))
    res.outcome(repr(out))
    if T > len(LOAD) or S > len(PRICE):
        if out.error is None or out.status is not None or out.cost is not None:
            res.violation(f"series too short for the request, but: {out}", case)
        return
    exp = expected(kind, T, S)
    if out.error is not None:
        res.violation(f"the command fails: {out}", case)
    elif exp is None:
        if out.status in (None, 0):
            res.violation(f"infeasible problem, but: {out}", case)
    elif out.status != 0 or out.cost is None or abs(out.cost - exp) > 1e-6 * max(1, abs(exp)):
        res.violation(f"expected status 0 and cost {exp}: {out}", case)
    else:
        res.trace()
        res.sample({**case, "cost": exp})


def w_runs(unit: Any, res: Result) -> None:
    kind, split, layout, relative, reverse, orders = unit
    with scratch() as d:
        write_study(d / "s", kind, split)
        root = Path("s") if relative else d / "s"
        opts = options(root, layout, split, reverse)
        for T, S in itertools.product([None, 1, 2, 3, 4], [None, 1, 2, 3]):
            o = opts + ([["--duration", str(T)]] if T else []) + ([["--scenario", str(S)]] if S else [])
            perms = list(itertools.permutations(o)) if orders or (T, S) == (2, 2) else [tuple(o)]
            for perm in perms:
                argv = [x for g in perm for x in g]
                judge(res, call(argv), kind, T or 1, S or 1, {"system": kind, "argv": argv})


def w_long(unit: Any, res: Result) -> None:
    """Longer series: all that is asked for is solved, and nothing else"""
    global LOAD, CAP, PRICE
    kind, rows, runs = unit
    kept = LOAD, CAP, PRICE
    n = 40 if rows < 100 else 2
    LOAD = [[4.0 + (7 * t + 3 * s) % 9 for s in range(n)] for t in range(rows)]
    CAP = [3.0 + (5 * t) % 7 for t in range(rows)]
    PRICE = [100.0 + 11 * s for s in range(n)]
    try:
        with scratch() as d:
            write_study(d / "s", kind, True)
            for T, S in runs:
                argv = ["--study", str(d / "s"), "--duration", str(T), "--scenario", str(S)]
                judge(res, call(argv), kind, T, S, {"system": kind, "rows": rows, "duration": T, "scenarios": S})
                if res.violations:
                    return
    finally:
        LOAD, CAP, PRICE = kept


def w_refused(unit: Any, res: Result) -> None:
    """Inconsistent or missing arguments or files: reported, nothing solved"""
    split, what = unit
    with scratch() as d:
        root = d / "s"
        write_study(root, "free", split)
        i = root / "input"
        dur = ["--duration", "2", "--scenario", "2"]
        sep = options(root, "files", split, False)
        cases: List[Tuple[Any, List[str], bool]] = []
        if what == "options":
            all_o = [["--study", str(root)]] + sep
            for n in range(5):
                for sub in itertools.combinations(range(4), n):
                    ok = sub == (0,) or (0 not in sub and {1, 2, 3} <= set(sub))
                    cases.append((sub, [x for k in sub for x in all_o[k]] + dur, ok))
            cases.append(("unknown option", all_o[0] + dur + ["--foo", "1"], False))
            cases.append(("not a number", all_o[0] + ["--duration", "two"], False))
            cases.append(("not a number", all_o[0] + ["--scenario", "two"], False))
            cases.append(("no value", all_o[0] + ["--duration"], False))
            for c, argv, ok in cases:
                out = call(argv)
                res.step()
                res.state((unit, c, argv))
                res.outcome(repr(out))
                if ok:
                    judge(res, out, "free", 2, 2, {"argv": argv})
                elif out.error is None or out.status is not None or out.cost is not None:
                    res.violation(f"refusal expected: {out}", {"argv": argv})
            return

        def damage() -> None:
            models = i / "models"
            lib = models / ("a_prod.yml" if split else "all.yml")
            comp = i / "components" / "components.yml"
            series = i / "components" / "series"
            text = comp.read_text()
            if what == "no library":
                lib.unlink()
            elif what == "no components":
                comp.unlink()
            elif what.startswith("no series "):
                (series / f"{what[10:]}.txt").unlink()
            elif what == "no series":
                shutil.rmtree(series)
            elif what == "no models":
                shutil.rmtree(models)
            elif what == "library twice":
                (models / "c_again.yml").write_text(lib.read_text())
            elif what == "unknown model":
                comp.write_text(text.replace(".ens\n", ".none\n"))
            elif what == "unknown library":
                comp.write_text(text.replace("model: core.demand", "model: other.demand"))
            elif what == "unknown port":
                comp.write_text(text.replace("component2: d\n      port2: p", "component2: d\n      port2: q"))
            elif what == "unknown component":
                comp.write_text(text.replace("component2: d\n", "component2: z\n"))
            elif what == "missing parameter":
                comp.write_text(text.replace("        - id: limit\n          time-dependent: false\n          scenario-dependent: false\n          value: 50.0\n", ""))
            elif what == "component twice":
                comp.write_text(text.replace("    - id: e\n", "    - id: d\n"))
            elif what == "broken expression":
                lib.write_text(lib.read_text().replace("sum(g) <= energy", "sum(g) <= powers"))
            elif what == "wide series":
                (series / "cap.txt").write_text("1 2\n3 4\n5 6\n")
            elif what == "text series":
                (series / "load.txt").write_text("a b\nc d\ne f\n")
            else:
                raise KeyError(what)

        damage()
        assert what  # every damage is applied to both layouts
        for layout in ("study", "files"):
            o = options(root, layout, split, False)
            if layout == "files" and what == "library twice":
                o[0].append(str(i / "models" / "c_again.yml"))
            argv = [x for g in o for x in g] + dur
            out = call(argv)
            res.step()
            res.state((unit, layout))
            res.outcome((unit, repr(out)))
            if out.error is None or out.status is not None or out.cost is not None:
                res.violation(f"{what}: refusal expected: {out}", {"argv": argv})


DAMAGES = [
    "no library", "no components", "no series load", "no series cap", "no series price", "no series", "no models", "library twice", "unknown model", "unknown library",
    "unknown port", "unknown component", "missing parameter", "component twice", "broken expression", "wide series", "text series",
]


def explore(run: Run) -> None:
    units = []
    for kind, split, layout, relative in itertools.product(SYSTEMS, (False, True), ("study", "files"), (False, True)):
        for reverse in (False, True) if split and layout == "files" else (False,):
            units.append((kind, split, layout, relative, reverse, run.thorough))
    run.parallel(w_runs, units)
    long = [(k, 30, [(t, s)]) for k in ("free", "limited") for t in (9, 10, 24, 25, 31) for s in (1, 9, 10, 11, 25)]
    long += [(k, 400, [(t, 1)]) for k in ("limited", "free") for t in (99, 100, 167, 168, 169, 336, 337, 365, 400, 401)]
    run.parallel(w_long, long)
    run.parallel(w_refused, [(split, w) for split in (False, True) for w in ["options"] + DAMAGES])
