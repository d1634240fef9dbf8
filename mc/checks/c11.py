"""
C11: scenario builder. Each year of the simulation uses, for each parameter, the scenario
that the scenario builder file gives to the group of that parameter (or, by default, of its
component); parameters without group use the scenario of the year's number.
"""
import io
import pathlib
import shutil
import tempfile
from itertools import permutations, product
from typing import Any, Dict, List, Optional

from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
from andromede.simulation import TimeBlock, build_problem
from andromede.study.parsing import parse_scenario_builder, parse_yaml_components
from andromede.study.resolve_components import (
    build_network,
    build_scenarized_data_base,
    resolve_system,
)
from mc import names
from mc.core import Result, Run, raised_by_implementation, time_limit
from mc.impl import read_lp
from mc.lpcheck import chunks
from mc.spec import num

PROPERTY = "C11"
ASSUMPTIONS = ["a line repeated word for word in the scenario builder file is not examined"]
BOUNDS = {
    "quick": "all maps {0,1,2}->{0,1,2} for 2 groups (27x27 pairs), all assignments of {none,g,h} to 1 component, 1 node and their 3+2 parameters (by component and by parameter), both file orders, all missing groups and years, scenarios which the series do not have (one past the end, -1); each year of each group given two scenarios; 1..13, 30 and 101 years under 3 maps; pairs of look-alike names of groups",
    "thorough": "the same, all pairs of maps with all group assignments of the component",
}

LIB = """
library:
  id: lib
  models:
    - id: M
      parameters:
        - {id: p, time-dependent: true, scenario-dependent: true}
        - {id: q, time-dependent: false, scenario-dependent: true}
        - {id: r, time-dependent: true, scenario-dependent: false}
      variables:
        - {id: x}
      constraints:
        - {id: c1, expression: x >= p}
        - {id: c2, expression: x >= q}
        - {id: c3, expression: x >= r}
"""
T, NS = 2, 3


def series(comp: str, prm: str) -> List[List[float]]:
    base = {"c": 1000.0, "n": 2000.0}[comp] + {"p": 100.0, "q": 200.0, "r": 300.0}[prm]
    if prm == "p":
        return [[base + 10 * t + s for s in range(NS)] for t in range(T)]
    if prm == "q":
        return [[base + s for s in range(NS)]]
    return [[base + 10 * t] for t in range(T)]


def system_yaml(groups: Dict[Any, Optional[str]]) -> str:
    out = ["system:"]
    for section, cid in (("nodes", "n"), ("components", "c")):
        out += [f"  {section}:", f"    - id: {cid}", "      model: lib.M"]
        if groups.get(cid):
            out.append(f"      scenario-group: {groups[cid]}")
        out.append("      parameters:")
        for prm in ("p", "q", "r"):
            out += [f"        - id: {prm}", f"          value: {cid}-{prm}"]
            if prm in "pr":
                out.append("          time-dependent: true")
            if prm in "pq":
                out.append("          scenario-dependent: true")
            if groups.get((cid, prm)):
                out.append(f"          scenario-group: {groups[(cid, prm)]}")
    return "\n".join(out) + "\n"


_LIBS = None


def libs() -> Any:
    global _LIBS
    if _LIBS is None:
        _LIBS = resolve_library([parse_yaml_library(io.StringIO(LIB))])
    return _LIBS


def expected_rows(groups: Dict[Any, Optional[str]], maps: Dict[str, Dict[int, int]]) -> Optional[List[Any]]:
    """None: must be refused"""
    rows = []
    for cid in ("n", "c"):
        for prm in ("p", "q", "r"):
            g = groups.get((cid, prm)) or groups.get(cid)
            if g is not None and g not in maps:
                return None
            if g is not None and prm != "r" and any(not 0 <= maps[g].get(y, 0) < NS for y in range(NS)):
                return None
            vals = series(cid, prm)
            for t in range(T):
                for y in range(NS):
                    if prm == "r":
                        v = vals[t][0]
                    else:
                        if g is not None and y not in maps[g]:
                            return None
                        s = maps[g][y] if g is not None else y
                        v = vals[t][s] if prm == "p" else vals[0][s]
                    rows.append((cid, t, y, v))
    return sorted(rows)


def run_case(groups: Dict[Any, Optional[str]], lines: List[Any], scratch: pathlib.Path, res: Result) -> None:
    maps: Dict[str, Dict[int, int]] = {}
    for g, y, s in lines:
        maps.setdefault(g, {})[y] = s
    case = {"groups": groups, "scenario builder": lines}
    res.state((sorted(groups.items(), key=repr), tuple(lines)))
    res.trace()
    (scratch / "sb.csv").write_text("".join(f"{g}, {y}, {s}\n" for g, y, s in lines))
    exp = expected_rows(groups, maps)
    if len({(g, y) for g, y, _ in lines}) < len(lines):
        exp = None  # a year with two scenarios
    try:
        with time_limit(60):
            inp = parse_yaml_components(io.StringIO(system_yaml(groups)))
            db = build_scenarized_data_base(inp, parse_scenario_builder(scratch / "sb.csv"), scratch)
            net = build_network(resolve_system(inp, libs()))
            lp = read_lp(build_problem(net, db, TimeBlock(1, list(range(T))), NS, solver_id="GLOP"))
    except Exception as e:
        if not raised_by_implementation(e):
            raise
        if exp is not None:
            res.violation(f"valid scenario builder refused: {e!r}", case)
        res.outcome(("refused", type(e).__name__))
        return
    if exp is None:
        res.violation("scenario builder with an unknown group or year, or a year given two scenarios, accepted", case)
        return
    got = []
    for coefs, lb, ub in lp.rows:
        ((cid, _, t, y),) = coefs.keys()
        # x - p >= 0  <=> x >= p
        got.append((cid, t, y, num(lb)))
    res.step(len(got))
    res.outcome(tuple(sorted(got)))
    if sorted(got) != exp:
        bad = [g for g in sorted(got) if g not in exp][:3]
        miss = [g for g in exp if g not in got][:3]
        res.violation(f"scenario of the year: got {bad}, expected {miss}", case)


def worker(unit: Any, res: Result) -> None:
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="vc11-"))
    try:
        for cid in ("c", "n"):
            for prm in ("p", "q", "r"):
                (scratch / f"{cid}-{prm}.txt").write_text(
                    "\n".join(" ".join(map(repr, r)) for r in series(cid, prm)) + "\n"
                )
        for groups, lines in unit:
            run_case(groups, lines, scratch, res)
            if len(res.violations) >= 2:
                return
        res.sample({"groups": unit[0][0], "scenario builder": unit[0][1]})
    finally:
        shutil.rmtree(scratch)


def years_worker(unit: Any, res: Result) -> None:
    """Any number of years and scenarios"""
    global NS
    old = NS
    try:
        for n, rule in unit:
            NS = n
            mg = {y: rule(y, n) for y in range(n)}
            worker([({"c": "g", ("c", "q"): "h"}, lines_of({"g": mg, "h": {y: n - 1 - y for y in range(n)}}, n % 3))], res)
    finally:
        NS = old


def same(y: int, n: int) -> int:
    return y


def rotated(y: int, n: int) -> int:
    return (y + n // 2 + 1) % n


def halved(y: int, n: int) -> int:
    return y // 2


def lines_of(maps: Dict[str, Dict[int, int]], order: int = 0) -> List[Any]:
    ls = [(g, y, s) for g, m in maps.items() for y, s in m.items()]
    if order == 1:
        ls = sorted(ls, key=lambda x: (x[1], x[0]))
    if order == 2:
        ls = ls[::-1]
    return ls


def explore(run: Run) -> None:
    cases = []
    allmaps = [dict(enumerate(m)) for m in product(range(NS), repeat=NS)]
    # every pair of maps, component in g and node in h
    for i, (mg, mh) in enumerate(product(allmaps, allmaps)):
        cases.append(({"c": "g", "n": "h"}, lines_of({"g": mg, "h": mh}, i % 3)))
        if run.thorough:
            for groups in ({"c": "h", ("c", "p"): "g"}, {("c", "q"): "g", ("n", "p"): "h"}, {"n": "g", ("n", "q"): "h", "c": "g"}):
                cases.append((groups, lines_of({"g": mg, "h": mh}, i % 3)))
    # every assignment of groups
    mg, mh = {0: 2, 1: 0, 2: 1}, {0: 1, 1: 1, 2: 0}
    keys = ["c", ("c", "p"), ("c", "q"), ("c", "r"), "n", ("n", "p"), ("n", "q")]
    for vals in product((None, "g", "h"), repeat=len(keys)):
        if not run.thorough and vals[3] is not None and vals[5] is not None:
            continue
        groups = {k: v for k, v in zip(keys, vals) if v}
        cases.append((groups, lines_of({"g": mg, "h": mh}, len(cases) % 3)))
    # missing groups and years
    for groups in ({"c": "z"}, {("c", "q"): "z"}, {"n": "z"}, {("n", "p"): "z"}, {"c": "g"}, {("n", "q"): "h"}):
        for drop in range(3):
            m = {y: s for y, s in mg.items() if y != drop}
            cases.append((groups, lines_of({"g": m, "h": m})))
            cases.append((groups, lines_of({"g": m})))
    # scenarios which do not exist
    for groups in ({"c": "g"}, {("c", "p"): "g"}, {("c", "q"): "g"}, {("n", "p"): "g"}, {("n", "q"): "g"}):
        for year, scenario in product(range(NS), (NS, NS + 7, -1)):
            cases.append((groups, lines_of({"g": {**mg, year: scenario}, "h": mh})))
    # a year with two scenarios
    for groups in ({"c": "g"}, {("c", "p"): "g"}, {("c", "q"): "g"}, {("n", "p"): "g"}, {"c": "h", "n": "g"}):
        for year, scenario in product(range(NS), range(NS)):
            if scenario != mg[year]:
                ls = lines_of({"g": mg, "h": mh}, len(cases) % 3)
                cases.append((groups, ls + [("g", year, scenario)]))
                cases.append((groups, [("g", year, scenario)] + ls))
    # names of groups
    for group in names.PLAIN + [["a-b", "a_b"], ["a.b", "ab"], ["G 1", "G1"]]:
        for x, y in permutations(group, 2):
            for groups in ({"c": x, "n": y}, {"c": x, ("c", "q"): y}):
                cases.append((groups, lines_of({x: mg, y: mh}, len(cases) % 3)))
            cases.append(({"c": x}, lines_of({y: mg})))
    run.parallel(years_worker, [[(n, rule)] for n in list(range(1, 14)) + [30, 101] for rule in (same, rotated, halved)])
    run.parallel(worker, chunks(cases, 60))
