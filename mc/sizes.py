"""
One system in every size: number of timesteps, scenarios, components. The operators reach
far in the block, and identifiers go through one, two and three digits. Used by C05 to C09
and C21.
"""
import pathlib
import tempfile
from typing import Any, Dict, List

from mc.core import Result, time_limit
from mc.impl import build, build_from_yaml, read_lp
from mc.lpcheck import lit, par, var
from mc.spec import ConsSpec, ModelSpec, Reference, SystemSpec, VarSpec, diff_lp


def sized(n: int, T: int, S: int) -> SystemSpec:
    far = T // 2 + 1
    gen = ModelSpec(
        "gen",
        params={"cost": (True, True), "cap": (True, False), "k": (False, True), "c0": (False, False)},
        vars={
            "p": VarSpec(lb=("neg", par("k")), ub=par("cap")),
            "run": VarSpec(True, False, lb=lit(0.0), ub=lit(1.0), kind="integer"),
            "w": VarSpec(False, True, lb=lit(0.0), ub=par("k")),
            "size": VarSpec(False, False, lb=par("c0")),
        },
        cons=[
            ConsSpec("max", ("cmp", "<=", var("p"), ("mul", par("cap"), var("run")))),
            ConsSpec("ramp", ("sub", var("p"), ("shift", var("p"), lit(-1))), ("neg", par("c0")), par("cap")),
            ConsSpec("far", ("cmp", ">=", ("add", ("shift", ("mul", par("cap"), var("p")), lit(far)), ("eval", var("run"), lit(T - 1))), ("mul", par("cost"), var("w")))),
            ConsSpec("win", ("cmp", "<=", ("wsum", var("p"), lit(-2), lit(1)), ("mul", lit(3.0), var("size")))),
            ConsSpec("all", ("cmp", "=", ("tsum", ("mul", par("cap"), var("p"))), ("mul", par("k"), var("w")))),
            ConsSpec("mean", ("cmp", "<=", ("expec", ("mul", par("cost"), var("p"))), ("eval", par("cap"), lit(T // 3)))),
        ],
        obj_op=("expec", ("tsum", ("add", ("mul", par("cost"), var("p")), ("mul", par("c0"), var("run"))))),
        obj_inv=("mul", par("c0"), var("size")),
        ports={"b": "flow"},
        portdefs={("b", "f"): ("sub", var("p"), par("k"))},
    )
    node = ModelSpec(
        "node", params={"load": (True, True)}, vars={"u": VarSpec(lb=lit(0.0))},
        cons=[ConsSpec("bal", ("cmp", "=", ("add", ("psum", "b", "f"), var("u")), par("load")), binding=True)], ports={"b": "flow"},
    )
    data: Dict[Any, Any] = {("n", "load"): ("ts", [[100.0 + 4 * t + 0.25 * s for s in range(S)] for t in range(T)], None)}
    for i in range(n):
        g = f"g{i}"
        data[(g, "cost")] = ("ts", [[1.0 + t + 0.125 * s + 1000 * i for s in range(S)] for t in range(T)], None)
        data[(g, "cap")] = ("time", {t: 5.0 + 3 * t + 500 * i for t in range(T)})
        data[(g, "k")] = ("scen", [2.0 + s + i for s in range(S)], None)
        data[(g, "c0")] = ("const", 7.0 + i)
    comps = [("n", "node", "node")] + [(f"g{i}", "gen", "component") for i in range(n)]
    return SystemSpec({"gen": gen, "node": node}, comps, data, [(f"g{i}", "b", "n", "b") if i % 2 else ("n", "b", f"g{i}", "b") for i in range(n)], {"flow": ["f"]})


def worker(unit: Any, res: Result) -> None:
    for n, T, S, route in unit:
        spec = sized(n, T, S)
        if route == "files":  # library files have no investment objective
            spec.models["gen"].obj_inv = None
        block = list(range(T))
        if T % 3 == 0:
            block = block[::-1]
        case = {"components": n, "timesteps": T, "scenarios": S, "route": route}
        res.state(("size", n, T, S, route))
        with time_limit(200), tempfile.TemporaryDirectory() as tmp:
            lp = read_lp(build(spec, block, S) if route == "api" else build_from_yaml(spec, block, S, pathlib.Path(tmp)))
        ref = Reference(spec, block, S).lp()
        res.trace()
        res.step(len(ref.rows) + len(ref.vars))
        d = diff_lp(ref, lp)
        if d:
            res.violation(f"system with {n} generators, {T} timesteps and {S} scenarios: {d}", case)
            return


def units(axes: str, route: str = "api") -> List[Any]:
    """Axes among t, s, n"""
    out: List[Any] = []
    if "t" in axes:
        out += [[(1, T, 2, route)] for T in list(range(1, 34)) + [48, 100, 168]]
    if "s" in axes:
        out += [[(1, 2, S, route)] for S in list(range(1, 26)) + [50, 101]]
    if "n" in axes:
        out += [[(n, 2, 2, route)] for n in list(range(0, 26)) + [50, 101]]
    return out
