"""
C20: the order in which a system is written does not change the problem. All permutations of
every list of a system (components, connections and their ends, models, variables, parameters,
constraints, ports, port fields, data), through the Python API and through files.
"""
import pathlib
import tempfile
from dataclasses import replace
from itertools import permutations, product
from typing import Any, Callable, Dict, List, Tuple

from mc.checks.c21 import full_system
from mc.core import Result, Run, time_limit
from mc.impl import build, build_from_yaml, read_lp
from mc.lpcheck import chunks, lit, var
from mc.spec import ConsSpec, ModelSpec, Reference, SystemSpec, VarSpec, diff_lp

PROPERTY = "C20"
ASSUMPTIONS = ["one system with every element of the file format, 6 components and 5 connections"]
BOUNDS = {
    "quick": "all permutations of each list alone (6! components and nodes, models, variables, parameters, constraints, ports, definitions, fields, data; API and files), all 5! x 2^5 orders and orientations of the connections, and all 2^10 combinations of reversed groups of lists; a second system whose ports are defined and summed on both sides, all orders and orientations of 3 connections x fields x models x 3 orders of components",
    "thorough": "the same with both routes everywhere, 2^12 combinations of reversed groups, and all permutations of one list with the reversal of each other list",
}


def perm_dict(d: Dict[Any, Any], p: Tuple[int, ...]) -> Dict[Any, Any]:
    ks = list(d)
    return {ks[i]: d[ks[i]] for i in p}


def on_model(mid: str, f: Callable[[ModelSpec], ModelSpec]) -> Callable[[SystemSpec], SystemSpec]:
    return lambda s: replace(s, models={k: f(m) if k == mid else m for k, m in s.models.items()})


def axes() -> Dict[str, Tuple[int, Callable[[SystemSpec, Tuple[int, ...]], SystemSpec]]]:
    """name -> (length of the list, permuted system)"""
    s = full_system()
    out: Dict[str, Any] = {
        "components": (len(s.components), lambda s, p: replace(s, components=[s.components[i] for i in p])),
        "connections": (len(s.connections), lambda s, p: replace(s, connections=[s.connections[i] for i in p])),
        "models": (len(s.models), lambda s, p: replace(s, models=perm_dict(s.models, p))),
        "port types": (len(s.port_types), lambda s, p: replace(s, port_types=perm_dict(s.port_types, p))),
        "fields": (2, lambda s, p: replace(s, port_types={**s.port_types, "duo": [s.port_types["duo"][i] for i in p]})),
    }

    def add(mid: str, field: str) -> None:
        def f(s: SystemSpec, p: Tuple[int, ...]) -> SystemSpec:
            def g(m: ModelSpec) -> ModelSpec:
                x = getattr(m, field)
                return replace(m, **{field: perm_dict(x, p) if isinstance(x, dict) else [x[i] for i in p]})

            return on_model(mid, g)(s)

        n = len(getattr(s.models[mid], field))
        if n > 1:
            out[f"{mid}.{field}"] = (n, f)

    for mid in s.models:
        for field in ("params", "vars", "cons", "ports", "portdefs"):
            add(mid, field)

    def data(cid: str) -> Any:
        def f(s: SystemSpec, p: Tuple[int, ...]) -> SystemSpec:
            mine = [k for k in s.data if k[0] == cid]
            rest = [k for k in s.data if k[0] != cid]
            return replace(s, data={k: s.data[k] for k in [mine[i] for i in p] + rest})

        return f

    for cid in ("g1", "g2", "n1"):
        out[f"data of {cid}"] = (len([k for k in s.data if k[0] == cid]), data(cid))
    return out


AXES = axes()
BLOCK, S = [0, 1], 2
EXPECTED = Reference(full_system(), BLOCK, S).lp()


def flip(s: SystemSpec, mask: int) -> SystemSpec:
    return replace(s, connections=[(c, d, a, b) if mask >> i & 1 else (a, b, c, d) for i, (a, b, c, d) in enumerate(s.connections)])


def variant(case: Any) -> SystemSpec:
    perms, mask = case
    s = full_system()
    for name, p in perms:
        s = AXES[name][1](s, p)
    return flip(s, mask)


def worker(unit: Any, res: Result) -> None:
    for case, routes in unit:
        s = variant(case)
        res.state(repr(case))
        for route in routes:
            with time_limit(60), tempfile.TemporaryDirectory() as tmp:
                p = build(s, BLOCK, S) if route == "api" else build_from_yaml(s, BLOCK, S, pathlib.Path(tmp))
                lp = read_lp(p)
            res.trace()
            res.step(len(lp.rows) + len(lp.vars))
            res.outcome(repr(lp.rows[:20]))
            d = diff_lp(EXPECTED, lp)
            if d:
                res.violation(f"another order of the same system gives another problem ({route}): {d}", {"order": case})
                return
    res.sample({"order": unit[0][0]})


def both_ways() -> SystemSpec:
    """Each end of the connections defines a field of the port, and sums both fields"""
    sums = [ConsSpec("f", ("cmp", "<=", ("psum", "p", "f"), lit(9.0)), binding=True), ConsSpec("g", ("cmp", ">=", ("psum", "p", "g"), lit(-3.0)), binding=True)]
    a = ModelSpec("a", vars={"x": VarSpec(lb=lit(0.0))}, cons=list(sums), ports={"p": "duo"}, portdefs={("p", "f"): var("x")})
    b = ModelSpec("b", vars={"y": VarSpec(lb=lit(0.0)), "z": VarSpec(False, True)}, cons=list(sums), ports={"p": "duo"}, portdefs={("p", "g"): ("sub", var("y"), var("z"))})
    comps = [("a1", "a", "component"), ("a2", "a", "component"), ("b1", "b", "component"), ("b2", "b", "node")]
    return SystemSpec({"a": a, "b": b}, comps, {}, [("a1", "p", "b1", "p"), ("a1", "p", "b2", "p"), ("a2", "p", "b2", "p")], {"duo": ["f", "g"]})


def both_worker(unit: Any, res: Result) -> None:
    base = both_ways()
    ref = Reference(base, BLOCK, S).lp()
    for comps, cnx, mask, fields, models in unit:
        case = {"components": comps, "connections": cnx, "swapped": mask, "fields": fields, "models": models}
        s = replace(base, components=[base.components[i] for i in comps], connections=[base.connections[i] for i in cnx], models=perm_dict(base.models, models), port_types={"duo": [base.port_types["duo"][i] for i in fields]})
        s = flip(s, mask)
        res.state(repr(case))
        for route in ("api", "files"):
            with time_limit(60), tempfile.TemporaryDirectory() as tmp:
                lp = read_lp(build(s, BLOCK, S) if route == "api" else build_from_yaml(s, BLOCK, S, pathlib.Path(tmp)))
            res.trace()
            res.step(len(lp.rows) + len(lp.vars))
            d = diff_lp(ref, lp)
            if d:
                res.violation(f"another order of the same system gives another problem ({route}): {d}", case)
                return


def explore(run: Run) -> None:
    units: List[Any] = []
    both = ("api", "files")
    for name, (n, _) in AXES.items():
        for p in permutations(range(n)):
            if name == "connections":
                units += [((((name, p),), m), both if run.thorough or m in (0, 31) else ("api",)) for m in range(1 << n)]
            else:
                units.append(((((name, p),), 0), both))
    names = list(AXES)
    rev = {n: tuple(range(AXES[n][0]))[::-1] for n in names}
    k = 12 if run.thorough else 10
    for bits in product((0, 1), repeat=k):
        # all combinations of reversed lists (the lists beyond the k-th follow those before)
        perms = [(n, rev[n]) for i, n in enumerate(names) if bits[i % k]]
        units.append(((tuple(perms), 0b01010 if bits[-1] else 0), ("files",)))
    if run.thorough:
        for a, b in permutations(names, 2):
            units += [(((((a, p), (b, rev[b]))), 0), ("files",)) for p in permutations(range(AXES[a][0]))]
    run.parallel(worker, chunks(units, 60))
    two = list(permutations(range(2)))
    cases = [(c, x, m, f, o) for c in [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)] for x in permutations(range(3)) for m in range(8) for f in two for o in two]
    run.parallel(both_worker, chunks(cases, 16))
