"""
C22: running the external Benders programs. All sequences of runs, up to a depth, over all the
outcomes of the external program (a stand-in written in a scratch directory), against a
reference state machine: what is run and where, what is reported, what is presented as the
solution, and the state of the process afterwards.
"""
import contextlib
import io
import json
import os
import pathlib
import sys
import tempfile
from itertools import product
from typing import Any, Dict, List, Optional, Tuple

from andromede.simulation import TimeBlock, build_problem
from andromede.simulation.benders_decomposed import BendersDecomposedProblem
from andromede.simulation.output_values import BendersDecomposedSolution, BendersMergedSolution
from andromede.simulation.strategy import InvestmentProblemStrategy, OperationalProblemStrategy
from mc.benders import TreeNode, node_system, tree_data
from mc.core import Result, Run, raised_by_implementation, time_limit
from mc.impl import build_database, build_system_network
from mc.lpcheck import chunks

PROPERTY = "C22"
ASSUMPTIONS = [
    "the external programs are stand-ins: scripts which do what a program can do as seen from its caller (exit code, signal, files)",
    "a missing program is not reported as a failure: the existing tests expect it; it must give no solution",
]
BOUNDS = {
    "quick": "all sequences of 3 runs over 8 outcomes (missing, a directory in its place, success, silent success, truncated solution, failure before or after writing a solution, killed by a signal, not executable) and 2 modes (decomposed, merged), 4 layouts (relative or absolute folder, other output folder, other files); all pairs of solutions of a 3-valued space",
    "thorough": "all sequences of 4 runs",
}

OUTCOMES = ("missing", "directory", "ok", "silent", "truncated", "fail", "fail_after", "signal", "noexec")
LAYOUTS = [
    {"emplacement": "outputs/lp", "output_path": "expansion"},
    {"emplacement": "{abs}/deep/er", "output_path": "res"},
    {"emplacement": ".", "output_path": "expansion"},
    {"emplacement": "x y", "output_path": "a/b", "struct_filename": "st.txt"},
]


def solution(n: int, merged: bool) -> Dict[str, Any]:
    s: Dict[str, Any] = {
        "investment_cost": 10.0 + n,
        "operational_cost": 100.0 + n,
        "overall_cost": 110.0 + 2 * n,
        "values": {"cand": float(n), "other": 2.0 * n},
        "problem_status": f"STATUS{n}",
        "optimality_gap": n + 0.5,
        "relative_gap": n + 0.25,
        "stopping_criterion": f"stop {n}",
    }
    if merged:
        s.update({"lb": n + 1.0, "ub": n + 2.0})
    else:
        s["iteration"] = n + 3
    return {"solution": s, "run_duration": n + 0.75}


def script(outcome: str, out: str, payload: str, log: pathlib.Path) -> str:
    write = f"mkdir -p '{os.path.dirname(out)}'; printf '%s' '{payload}' > '{out}'\n"
    body = {
        "ok": write + "exit 0\n",
        "silent": "exit 0\n",
        "truncated": f"mkdir -p '{os.path.dirname(out)}'; printf '%s' '{payload[: len(payload) // 2]}' > '{out}'\nexit 0\n",
        "fail": "exit 1\n",
        "fail_after": write + "exit 3\n",
        "signal": write + "kill -KILL $$\n",
        "noexec": "exit 0\n",
    }[outcome]
    return f'#!/bin/sh\necho "$(basename "$0") $(pwd -P) $* $(ls options.json)" >> \'{log}\'\necho some output\n' + body


def install(name: str, outcome: str, n: int, merged: bool, out: str, log: pathlib.Path) -> None:
    path = pathlib.Path("bin") / name
    if path.is_dir():
        path.rmdir()
    elif path.exists():
        path.unlink()
    if outcome == "missing":
        return
    if outcome == "directory":
        path.mkdir()
        return
    path.write_text(script(outcome, out, json.dumps(solution(n, merged)), log))
    path.chmod(0o644 if outcome == "noexec" else 0o755)


_PROBLEMS: List[Any] = []


def problems() -> Tuple[Any, List[Any]]:
    if not _PROBLEMS:
        n = TreeNode("root", None, 1.0, [(0, [0])], 1, ["N", "D", "C"])
        data = tree_data([n], 1, 1)
        sys_ = node_system(n, data)
        net, db = build_system_network(sys_), build_database(sys_)
        kw = {"solver_id": "GLOP", "decision_tree_node": "root"}
        _PROBLEMS.append(build_problem(net, db, TimeBlock(0, [0]), 1, problem_name="master", build_strategy=InvestmentProblemStrategy(), **kw))
        _PROBLEMS.append(build_problem(net, db, TimeBlock(0, [0]), 1, problem_name="subproblem", build_strategy=OperationalProblemStrategy(), **kw))
    return _PROBLEMS[0], [_PROBLEMS[1]]


def read_fields(s: Any) -> Any:
    out = [s.investment_cost, s.operational_cost, s.overall_cost, dict(s.candidates), s.status, s.absolute_gap, s.relative_gap, s.stopping_criterion]
    if isinstance(s, BendersMergedSolution):
        return ("merged", *out, s.lower_bound, s.upper_bound)
    if isinstance(s, BendersDecomposedSolution):
        return ("decomposed", *out, s.nb_iterations, s.duration)
    return ("?", *out)


def expected_fields(n: int, merged: bool) -> Any:
    d = solution(n, merged)
    s = d["solution"]
    out = [s["investment_cost"], s["operational_cost"], s["overall_cost"], s["values"], s["problem_status"], s["optimality_gap"], s["relative_gap"], s["stopping_criterion"]]
    return ("merged", *out, s["lb"], s["ub"]) if merged else ("decomposed", *out, s["iteration"], d["run_duration"])


def expected(outcome: str) -> str:
    """Reference state machine: what a run reports"""
    return {
        "missing": "True", "directory": "True", "silent": "True", "ok": "True+solution", "truncated": "raises",
        "noexec": "raises", "fail": "False", "fail_after": "False", "signal": "False",
    }[outcome]


def observe(before_cwd: str, before_env: Dict[str, str]) -> Optional[str]:
    if os.getcwd() != before_cwd:
        return f"the working directory is left at {os.getcwd()} instead of {before_cwd}"
    if dict(os.environ) != before_env:
        return "the environment was changed"
    return None


def history(hist: Any, layout: Dict[str, str], res: Result) -> Optional[str]:
    master, subs = problems()
    base = os.path.realpath(os.getcwd())
    kw = {k: v.format(abs=base) for k, v in layout.items()}
    bp = BendersDecomposedProblem(master, subs, **kw)
    emplacement = os.path.normpath(os.path.join(base, kw["emplacement"]))
    out = f"{kw['output_path']}/out.json"
    log = pathlib.Path(base) / "log.txt"
    os.mkdir("bin")
    for name in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.pop(name, None)  # set by run.sh
    for i, (outcome, merged) in enumerate(hist):
        name, other = ("merge_mps", "benders") if merged else ("benders", "merge_mps")
        install(name, outcome, 10 * i + 1, merged, out, log)
        install(other, "ok", 10 * i + 7, merged, out, log)  # the program which is not asked for
        log.write_text("")
        env = dict(os.environ)
        opts = {"solver_name": ("XPRESS", "COIN", "CBC")[i % 3], "log_level": i}
        buf = io.StringIO()
        with time_limit(60):
            try:
                with open(os.devnull, "w") as null:
                    old, sys.stdout = sys.stdout, null
                    try:
                        got = str(bp.run(should_merge=merged, show_debug=bool(i % 2), **opts))
                    finally:
                        sys.stdout = old
            except Exception as e:
                if not raised_by_implementation(e):
                    raise
                got = "raises"
        res.step()
        res.trace()
        res.state(tuple(hist[: i + 1]))
        what = observe(base, env)
        if what:
            return f"step {i}: {what}"
        if got == "True" and bp.solution is not None:
            got = "True+solution"
            f = read_fields(bp.solution)
            if f != expected_fields(10 * i + 1, merged):
                return f"step {i} ({outcome}, merged={merged}): presents {f}, but this run gave {expected_fields(10 * i + 1, merged) if outcome == 'ok' else 'nothing'}"
        elif got != "True" and bp.solution is not None:
            return f"step {i} ({outcome}, merged={merged}): the run failed, but a solution is presented: {read_fields(bp.solution)}"
        res.outcome((got, outcome, merged))
        want = expected(outcome)
        # a program that could not be started or understood is a failure, raised or reported
        ok = {want} | ({"False"} if want == "raises" else {"raises"} if want == "False" else set())
        if got not in ok:
            return f"step {i} ({outcome}, merged={merged}): reports {got} instead of {want}"
        ran = log.read_text().split("\n")[:-1]
        must = [f"{name} {emplacement} options.json options.json"] if outcome not in ("missing", "directory", "noexec") else []
        if ran != must:
            return f"step {i} ({outcome}, merged={merged}): ran {ran} instead of {must}"
        o = json.loads((pathlib.Path(emplacement) / "options.json").read_text())
        if (o["SOLVER_NAME"], o["LOG_LEVEL"], o["JSON_FILE"]) != (opts["solver_name"], opts["log_level"], out):
            return f"step {i}: options {o} for {opts}"
    return None


def worker(unit: Any, res: Result) -> None:
    for li, hist in unit:
        home = os.getcwd()
        with tempfile.TemporaryDirectory() as tmp:
            os.chdir(tmp)
            try:
                d = history(hist, LAYOUTS[li], res)
            finally:
                os.chdir(home)
        if d:
            res.violation(d, {"history": hist, "layout": LAYOUTS[li]})
            return
    res.sample({"history": unit[0][1], "layout": LAYOUTS[unit[0][0]]})


def equality_worker(unit: Any, res: Result) -> None:
    """== and is_close of solutions: all pairs"""

    def make(cost: float, vals: Any) -> Dict[str, Any]:
        d = solution(1, False)
        d["solution"].update({"overall_cost": cost, "values": dict(vals), "lb": 0.0, "ub": 0.0})
        return d

    costs = (100.0, 100.0 * (1 + 1e-8), 150.0)
    values = [(), (("a", 1.0),), (("a", 1.0 + 1e-8),), (("a", 2.0),), (("b", 1.0),), (("a", 1.0), ("b", 1.0))]
    space = [(c, v, k) for c in costs for v in values for k in (BendersDecomposedSolution, BendersMergedSolution)]

    def near(x: float, y: float, tol: float) -> bool:
        return abs(x - y) <= tol * max(abs(x), abs(y))

    for (c1, v1, k1), (c2, v2, k2) in product(space, space):
        a, b = k1(make(c1, v1)), k2(make(c2, v2))
        res.state((c1, v1, k1.__name__, c2, v2, k2.__name__))
        res.trace()
        same = c1 == c2 and v1 == v2
        res.outcome((a == b, a.is_close(b)))
        if (a == b) != same:
            res.violation(f"solutions compare {'equal' if a == b else 'different'}", {"pair": [(c1, v1), (c2, v2)]})
            return
        for tol in (1e-9, 1e-6):
            close = near(c1, c2, tol) and dict(v1).keys() == dict(v2).keys() and all(near(dict(v1)[k], dict(v2)[k], tol) for k in dict(v1))
            res.step()
            if a.is_close(b, rel_tol=tol) != close:
                res.violation(f"is_close({tol}) is {not close}", {"pair": [(c1, v1), (c2, v2)]})
                return


def explore(run: Run) -> None:
    run.local(equality_worker)
    n = 4 if run.thorough else 3
    acts = [(o, m) for o in OUTCOMES for m in (False, True)]
    units: List[Any] = []
    for i, h in enumerate(product(acts, repeat=n)):
        units.append((0 if i % 7 else 1, list(h)))
    for h in product(acts, repeat=2):
        units += [(li, list(h)) for li in range(len(LAYOUTS))]
    run.parallel(worker, chunks(units, 50))
