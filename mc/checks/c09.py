"""
C09: variables. One solver variable per (component, variable, timestep, scenario) of its
indexing, with its own bounds and type; inconsistent bounds are refused.
"""
from itertools import product
from typing import Any, List

from andromede.simulation.strategy import (
    InvestmentProblemStrategy,
    MergedProblemStrategy,
    OperationalProblemStrategy,
)
from mc import names, sizes
from mc.core import Result, Run, raised_by_implementation, time_limit
from mc.impl import build, read_lp
from mc.lpcheck import chunks, lit, par, std_data, std_model, var
from mc.magnitudes import bounds_units, bounds_worker
from mc.spec import ConsSpec, INF, ModelSpec, Reference, SystemSpec, Undefined, VarSpec, diff_lp

PROPERTY = "C09"
ASSUMPTIONS = ["identifiers for which the solver names do not collide (see known findings of C18)"]
BOUNDS = {
    "quick": "3 types x 4 indexings x 10 lower bounds x 10 upper bounds x 3 contexts, (T,S) in {(1,1),(2,2),(4,1),(1,3),(3,2),(2,3)}, 2-3 components and nodes sharing a model, 3 strategies, GLOP and SCIP; literals and data from 1e-12 to 4e16; one system with 1..33, 48, 100 and 168 timesteps, 1..25, 50 and 101 scenarios; one system with each pair of 38 look-alike names for two variables",
    "thorough": "the same on every (T, S) of 1..5 x 1..4 and offset blocks",
}

LBS: List[Any] = [
    None, lit(0.0), lit(-5.0), lit(-INF), par("pc"), par("pt"), par("ps"), par("pts"),
    ("neg", par("pts")), ("sub", par("pt"), ("mul", lit(2.0), par("ps"))), ("div", par("pts"), par("pc")),
]
UBS: List[Any] = [
    None, lit(1000.0), lit(0.0), lit(INF), par("pc"), par("pt"), par("ps"), par("pts"),
    ("add", par("pts"), par("pt"), lit(1.0)), ("mul", par("pc"), par("pts")), ("neg", ("neg", par("ps"))),
]
STRAT = {
    "merged": (MergedProblemStrategy, ("operational", "investment", "coupling")),
    "investment": (InvestmentProblemStrategy, ("investment", "coupling")),
    "operational": (OperationalProblemStrategy, ("operational", "coupling")),
}


def usable(e: Any, time: bool, scen: bool) -> bool:
    """Bounds may only use data that the variable's own indexing can address"""
    if e is None:
        return True
    s = repr(e)
    if ("'pt'" in s or "'pts'" in s) and not time:
        return False
    if ("'ps'" in s or "'pts'" in s) and not scen:
        return False
    return True


def worker(unit: Any, res: Result) -> None:
    specs, T, S, block, strategy, solver, comps = unit
    m = std_model()
    m.vars = {}
    probe = SystemSpec(models={"M": m}, components=comps, data={})
    for i, (cid, _, _) in enumerate(comps):
        probe.data.update(std_data(cid, 8, S, off=5 * i))
    rejected = []
    for i, (kind, time, scen, lb, ub, ctx) in enumerate(specs):
        v = VarSpec(time, scen, lb, ub, kind, ctx)
        one = ModelSpec("M", params=m.params, vars={"v": v})
        try:
            Reference(SystemSpec({"M": one}, comps, probe.data), block, S).lp()
        except Undefined:
            rejected.append(v)
            continue
        m.vars[f"v{i}"] = v
        res.state((specs[i], T, S, tuple(block), strategy))
    cls, keep = STRAT[strategy]
    expected = Reference(probe, block, S).lp(keep)
    res.trace()
    res.step(len(expected.vars))
    with time_limit(60):
        p = build(probe, block, S, solver, build_strategy=cls())
    actual = read_lp(p)
    d = diff_lp(expected, actual)
    for x in actual.vars.items():
        res.outcome(x)
    if d:
        res.violation(d, {"variables": [repr(v) for v in m.vars.values()][:3], "T": T, "S": S, "strategy": strategy})
        return
    if len(p.solver.variables()) != len(expected.vars):
        res.violation("number of solver variables", {"T": T, "S": S})
    names = [x.name() for x in p.solver.variables()]
    if len(set(names)) != len(names):
        res.violation("two solver variables have the same name", {"T": T, "S": S})
    for v in rejected[:: max(1, len(rejected) // 6)]:
        if v.context not in keep:
            continue
        one = ModelSpec("M", params=m.params, vars={"v": v})
        res.state((repr(v), T, S, "reject"))
        res.trace()
        try:
            with time_limit(60):
                build(SystemSpec({"M": one}, comps, probe.data), block, S, solver)
        except Exception as e:
            if not raised_by_implementation(e):
                raise
            res.outcome(("refused", type(e).__name__))
            continue
        res.violation("a lower bound above the upper bound was accepted", {"variable": repr(v), "T": T, "S": S})
    res.sample({"variables": [repr(s) for s in specs[:2]], "T": T, "S": S, "strategy": strategy})


C2 = [("a", "M", "component"), ("zz", "M", "node")]
C3 = [("n1", "M", "node"), ("Comp", "M", "component"), ("n2", "M", "component")]


def explore(run: Run) -> None:
    specs = []
    for kind, time, scen, ctx in product(("continuous", "integer", "boolean"), (True, False), (True, False), ("operational", "investment", "coupling")):
        if kind == "boolean":
            specs.append((kind, time, scen, None, None, ctx))
            continue
        for lb, ub in product(LBS, UBS):
            if usable(lb, time, scen) and usable(ub, time, scen):
                specs.append((kind, time, scen, lb, ub, ctx))
    units = []
    dims = [(1, 1), (2, 2), (4, 1), (1, 3), (3, 2), (2, 3)]
    if run.thorough:
        dims = [(t, s) for t in (1, 2, 3, 4, 5) for s in (1, 2, 3, 4)]
    for T, S in dims:
        for strategy in STRAT:
            for j, ch in enumerate(chunks(specs, 90)):
                block = [k + j % 3 for k in range(T)]
                units.append((ch, T, S, block, strategy, "SCIP" if j % 2 else "GLOP", C2 if j % 3 else C3))
    run.parallel(bounds_worker, bounds_units())
    run.parallel(sizes.worker, sizes.units("ts"))
    run.parallel(names.worker, names.units(["variable"]))
    run.parallel(worker, units)
