"""
C10: data. The value used at (timestep of the block, scenario) is the value the data gives
for that absolute timestep and scenario; data that does not fit the declared indexing, or
that is missing, is refused.
"""
import io
import pathlib
import shutil
import tempfile
from itertools import permutations, product
from typing import Any, Dict, List

import pandas as pd

from andromede.simulation import TimeBlock, build_problem
from andromede.study.data import load_ts_from_txt
from andromede.study.parsing import parse_yaml_components
from andromede.study.resolve_components import build_data_base
from mc import names
from mc.core import Result, Run, raised_by_implementation, time_limit
from mc.impl import build, build_data, build_database, build_system_network, read_lp
from mc.lpcheck import chunks, lit, par, var
from mc.spec import ConsSpec, ModelSpec, Reference, SystemSpec, VarSpec, diff_lp

PROPERTY = "C10"
ASSUMPTIONS = ["time series files are whitespace separated numbers, one line per timestep and one column per scenario"]
BOUNDS = {
    "quick": "5 kinds of data x 4 declared indexings; all blocks of 1..3 timesteps out of 5 (any order); all scenario maps {0,1,2}->{0,1,2}; all file shapes up to 3x3; every missing (component, parameter); negative timesteps; each value of each file missing or not a number; all pairs of 16 ways to write a number in a file, to 16 digits; one system with each pair of 38 look-alike names for two components or parameters",
    "thorough": "blocks of 1..4 timesteps out of 6",
}

H = 6


def ts_values(off: float = 0.0) -> List[List[float]]:
    return [[off + 10.0 * (t + 1) + s + 0.25 for s in range(3)] for t in range(H)]


def data_kinds(mapping: Any = None) -> Dict[str, Any]:
    return {
        "const": ("const", 3.75),
        "time": ("time", {t: 7.0 * (t + 1) + 0.5 for t in range(H)}),
        "scen": ("scen", [100.0, 200.5, -300.0], mapping),
        "ts": ("ts", ts_values(), mapping),
    }


def fits(kind: str, time: bool, scen: bool) -> bool:
    """The indices along which the data varies must be declared by the parameter"""
    return {"const": True, "time": time, "scen": scen, "ts": time and scen}[kind]


def mk(time: bool, scen: bool, data: Any, comp_kind: str = "component", extra: bool = False) -> SystemSpec:
    m = ModelSpec(
        "M",
        params={"p": (time, scen), "q": (True, True)},
        vars={
            "x": VarSpec(),
            "b": VarSpec(time, scen, lb=("neg", ("mul", par("p"), par("p"))), ub=("mul", par("p"), par("p"))),
        },
        cons=[
            ConsSpec("c", ("add", ("mul", par("p"), var("x")), par("q")), lb=par("p")),
            ConsSpec("d", ("sub", ("shift", par("p"), lit(1)), var("x")), ub=lit(1.0)),
        ],
        obj_op=("expec", ("tsum", ("mul", par("p"), var("x")))),
    )
    return SystemSpec(
        {"M": m},
        [("c", "M", comp_kind), ("other", "M", "component")],
        {("c", "p"): data, ("c", "q"): ("const", 1.0), ("other", "p"): ("const", 8.0), ("other", "q"): ("const", 9.0)},
    )


def attempt(f: Any, res: Result) -> Any:
    try:
        with time_limit(60):
            return ("ok", f())
    except Exception as e:
        if not raised_by_implementation(e):
            raise
        res.outcome(("refused", type(e).__name__))
        return ("refused", e)


def lookup_worker(unit: Any, res: Result) -> None:
    for kind, time, scen, block, mapping, S, ck in unit:
        d = data_kinds(mapping)[kind]
        sys = mk(time, scen, d, ck)
        res.state((kind, time, scen, tuple(block), repr(mapping), S, ck))
        res.trace()
        case = {"data": kind, "declared": (time, scen), "block": block, "mapping": mapping, "S": S, "kind": ck}
        out = attempt(lambda: read_lp(build(sys, list(block), S)), res)
        if not fits(kind, time, scen):
            if out[0] == "ok":
                res.violation("data that varies along undeclared indices was accepted", case)
            continue
        if out[0] != "ok":
            res.violation(f"valid data refused: {out[1]!r}", case)
            continue
        res.step(len(out[1].rows))
        diff = diff_lp(Reference(sys, list(block), S).lp(), out[1])
        res.outcome(repr(sorted(map(repr, out[1].rows))))
        if diff:
            res.violation(diff, case)
            return
    res.sample(unit[0])


def tree_worker(unit: Any, res: Result) -> None:
    """Data per node of the decision tree"""
    for ka, kb, time, scen, node in unit:
        k = data_kinds()
        other = {"const": ("const", -1.5), "time": ("time", {t: -2.0 * t - 1 for t in range(H)}), "scen": ("scen", [5.0, 6.0, 7.0], None), "ts": ("ts", ts_values(1000.0), None)}
        sys = mk(time, scen, ("tree", {"a": k[ka], "b": other[kb], "": k["const"]}))
        case = {"tree": (ka, kb), "declared": (time, scen), "node": node}
        res.state(("tree", ka, kb, time, scen, node))
        res.trace()
        res.step()
        out = attempt(lambda: read_lp(build(sys, [1, 2], 2, decision_tree_node=node)), res)
        ok = fits(ka, time, scen) and fits(kb, time, scen)
        if not ok:
            if out[0] == "ok":
                res.violation("tree data that varies along undeclared indices was accepted", case)
            continue
        if node not in ("a", "b", ""):
            if out[0] == "ok":
                res.violation("data missing for the tree node", case)
            continue
        if out[0] != "ok":
            res.violation(f"valid data refused: {out[1]!r}", case)
            continue
        diff = diff_lp(Reference(sys, [1, 2], 2, tree_node=node).lp(), out[1])
        if diff:
            res.violation(diff, case)
            return


def missing_worker(unit: Any, res: Result) -> None:
    """Absent parameter, too short series: refused, never replaced by something else"""
    for ck in ("component", "node"):
        full = mk(True, True, data_kinds()["ts"], ck)
        for key in full.data:
            sys = mk(True, True, data_kinds()["ts"], ck)
            del sys.data[key]
            res.state(("missing", key, ck))
            res.trace()
            res.step()
            if attempt(lambda: build(sys, [0, 1], 2), res)[0] == "ok":
                res.violation("missing data was accepted", {"missing": key, "kind": ck})
    for kind, block in product(("time", "ts"), ([-1], [0, -1], [-2, 0, 1], [1, 2, -3])):
        d0: Any = ("time", {t: 1.0 + t for t in range(4)}) if kind == "time" else ("ts", [[1.0 + 5 * t + s for s in range(2)] for t in range(4)], None)
        res.state(("negative", kind, tuple(block)))
        res.trace()
        res.step()
        if attempt(lambda: build(mk(True, kind == "ts", d0), block, 2), res)[0] == "ok":
            res.violation("data of a negative timestep was accepted", {"kind": kind, "block": block})
    for kind, T, S in product(("time", "scen", "ts"), range(1, 4), range(1, 4)):
        for nt, ns in product(range(1, 4), range(1, 4)):
            d: Any = {
                "time": ("time", {t: 1.0 + t for t in range(nt)}),
                "scen": ("scen", [1.0 + s for s in range(ns)], None),
                "ts": ("ts", [[1.0 + 5 * t + s for s in range(ns)] for t in range(nt)], None),
            }[kind]
            enough = (kind == "scen" or nt >= T) and (kind == "time" or ns >= S)
            st = {"time": (True, False), "scen": (False, True), "ts": (True, True)}[kind]
            sys = mk(*st, d)
            res.state(("short", kind, T, S, nt, ns))
            res.trace()
            res.step()
            out = attempt(lambda: read_lp(build(sys, list(range(T)), S)), res)
            case = {"kind": kind, "T": T, "S": S, "timesteps": nt, "scenarios": ns}
            if enough and out[0] != "ok":
                res.violation(f"valid data refused: {out[1]!r}", case)
            elif enough and diff_lp(Reference(sys, list(range(T)), S).lp(), out[1]):
                res.violation("wrong values", case)
            elif not enough and out[0] == "ok":
                res.violation("too short data was accepted", case)


SEPS = [" ", "\t", "   ", " \t "]


def file_worker(unit: Any, res: Result) -> None:
    """Through YAML and series files: flags x content"""
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="vc10-"))
    try:
        for time, scen, nt, ns, sep, value_kind, blank in unit:
            case = {"flags": (time, scen), "shape": (nt, ns), "sep": sep, "value": value_kind, "trailing": blank}
            res.state(repr(case))
            res.trace()
            res.step()
            vals = [[10.0 * (t + 1) - 0.5 * s - 7 for s in range(ns)] for t in range(nt)]
            (scratch / "serie.txt").write_text("\n".join(sep.join(repr(v) for v in r) for r in vals) + blank)
            value = {"file": "serie", "number": "4.5", "absent": "nothere"}[value_kind]
            y = (
                "system:\n  components:\n    - id: c\n      model: lib.M\n      parameters:\n"
                f"        - id: p\n          value: {value}\n"
                f"          time-dependent: {str(time).lower()}\n          scenario-dependent: {str(scen).lower()}\n"
            )
            out = attempt(lambda: build_data_base(parse_yaml_components(io.StringIO(y)), scratch), res)
            if value_kind == "number":
                valid = not time and not scen
            elif value_kind == "absent":
                valid = False
            else:
                valid = (time and scen) or (time and ns == 1) or (scen and not time and nt == 1)
            if not valid:
                if out[0] == "ok":
                    res.violation("inconsistent parameter value accepted", case)
                continue
            if out[0] != "ok":
                res.violation(f"valid parameter refused: {out[1]!r}", case)
                continue
            data = out[1].get_data("c", "p")
            for t, s in product(range(nt), range(ns)):
                got = data.get_value(t if time else None, s if scen else None)
                want = 4.5 if value_kind == "number" else vals[t][s]
                if value_kind == "number" and (t or s):
                    continue
                res.step()
                res.outcome(got)
                if got != want:
                    res.violation(f"value at ({t},{s}): {got} instead of {want}", case)
                    return
    finally:
        shutil.rmtree(scratch)


TEXTS = ["0.1", "7", "-3", "123456.789", "16777217", "0.1234567890123", "1e-7", "-3.25E+05", "+2.5", "007", "9007199254740991", "12345678.123", ".5", "4.", "-0.0", "1e300"]


def text_worker(unit: Any, res: Result) -> None:
    """Series files in which numbers are written in various ways, with 1 to 16 digits"""
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="vc10-"))
    try:
        for time, scen, nt, ns, a, b in unit:
            cells = [[(a, b, a)[(t + s) % 3] for s in range(ns)] for t in range(nt)]
            case = {"flags": (time, scen), "file": cells}
            res.state(repr(case))
            res.trace()
            (scratch / "serie.txt").write_text("\n".join(" ".join(r) for r in cells) + "\n")
            y = (
                "system:\n  components:\n    - id: c\n      model: lib.M\n      parameters:\n        - id: p\n          value: serie\n"
                f"          time-dependent: {str(time).lower()}\n          scenario-dependent: {str(scen).lower()}\n"
            )
            out = attempt(lambda: build_data_base(parse_yaml_components(io.StringIO(y)), scratch), res)
            if out[0] != "ok":
                res.violation(f"valid parameter refused: {out[1]!r}", case)
                return
            data = out[1].get_data("c", "p")
            for t, s in product(range(nt), range(ns)):
                got, want = data.get_value(t if time else None, s if scen else None), float(cells[t][s])
                res.step()
                # the parser of pandas may be off by the last bit
                if not isinstance(got, float) or abs(got - want) > 1e-15 * abs(want):
                    res.violation(f"value at ({t},{s}): {got!r} instead of {want!r}", case)
                    return
    finally:
        shutil.rmtree(scratch)


def hole_worker(unit: Any, res: Result) -> None:
    """A series file in which one value is missing or is not a number"""
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="vc10-"))
    try:
        for time, scen, nt, ns, at, what in unit:
            case = {"flags": (time, scen), "shape": (nt, ns), "at": at, "instead": what}
            res.state(repr(case))
            res.trace()
            res.step()
            cells = [[repr(10.0 * (t + 1) - 0.5 * s - 7) for s in range(ns)] for t in range(nt)]
            cells[at[0]][at[1]] = what
            (scratch / "serie.txt").write_text("\n".join(" ".join(x for x in r if x) for r in cells) + "\n")
            y = (
                "system:\n  components:\n    - id: c\n      model: lib.M\n      parameters:\n        - id: p\n          value: serie\n"
                f"          time-dependent: {str(time).lower()}\n          scenario-dependent: {str(scen).lower()}\n"
            )

            def read() -> Any:
                data = build_data_base(parse_yaml_components(io.StringIO(y)), scratch).get_data("c", "p")
                return [data.get_value(t if time else None, s if scen else None) for t, s in product(range(nt), range(ns))]

            out = attempt(read, res)
            if out[0] == "ok":
                res.violation(f"a series with a missing value was accepted: {out[1]}", case)
                return
    finally:
        shutil.rmtree(scratch)


def explore(run: Run) -> None:
    n, pool = (4, 6) if run.thorough else (3, 5)
    blocks = [list(p) for k in range(1, n + 1) for p in permutations(range(pool), k)]
    cases = []
    st = list(product((False, True), (False, True)))
    for kind, (time, scen) in product(("const", "time", "scen", "ts"), st):
        for b in blocks:
            cases.append((kind, time, scen, b, None, 2, "component"))
        for m in product(range(3), repeat=3):
            for ck in ("component", "node"):
                cases.append((kind, time, scen, [1, 3], dict(enumerate(m)), 3, ck))
        # years not starting from 0..S-1 in the map
        cases.append((kind, time, scen, [0, 2], {0: 2, 1: 0, 5: 1}, 2, "component"))
    run.parallel(lookup_worker, chunks(cases, 60))
    cases = list(product(("const", "time", "scen", "ts"), ("const", "time", "scen", "ts"), (False, True), (False, True), ("a", "b", "", "absent")))
    run.parallel(tree_worker, chunks(cases, 40))
    run.local(missing_worker)
    cases = []
    for time, scen in st:
        for nt, ns in product(range(1, 4), range(1, 4)):
            for sep in SEPS:
                for blank in ("\n", ""):
                    cases.append((time, scen, nt, ns, sep, "file", blank))
        cases.append((time, scen, 1, 1, " ", "number", "\n"))
        cases.append((time, scen, 1, 1, " ", "absent", "\n"))
    run.parallel(file_worker, chunks(cases, 40))
    cases = []
    for time, scen in ((True, True), (True, False), (False, True)):
        for nt, ns in product(range(1, 4), range(1, 4)):
            if (ns > 1 and not scen) or (nt > 1 and not time):
                continue
            for at in product(range(nt), range(ns)):
                for what in ("NA", "nan", "x", "#", "#1", "1#", ""):
                    if what or (nt > 1 and ns > 1):
                        cases.append((time, scen, nt, ns, at, what))
    shapes = [(True, True, 1, 1), (True, True, 2, 3), (True, False, 3, 1), (False, True, 1, 3)]
    run.parallel(text_worker, chunks([sh + (a, b) for sh in shapes for a, b in product(TEXTS, TEXTS)], 130))
    run.parallel(names.worker, names.units(["component", "parameter"]))
    run.parallel(hole_worker, chunks(cases, 40))
