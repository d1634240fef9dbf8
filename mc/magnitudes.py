"""
Problems whose numbers have very different magnitudes, given as literals and as data. Used by
C05 (rows), C07 (costs) and C09 (bounds).
"""
from itertools import product
from typing import Any, List

from mc.core import Result
from mc.lpcheck import check_system, lit, par, var
from mc.spec import ConsSpec, ModelSpec, SystemSpec, VarSpec, nothing_cancels

MAGS = [1e-12, 1e-9, 3e-7, 0.001, 0.1, 1.0, 1.0000001, 123456.78, 7e8, 2.5e11, 4e16]


def _data(v: float) -> Any:
    return ("ts", [[v, -v], [2 * v, v]], None)


def rows_worker(unit: List[Any], res: Result) -> None:
    """(literal coefficient, coefficient in the data, constant) -> rows"""
    cons, params, data = [], {}, {}
    for i, v in enumerate(MAGS):
        params[f"p{i}"] = (True, True)
        data[("c", f"p{i}")] = _data(v)
    for k, (u, i, w) in enumerate(unit):
        lhs = ("add", ("mul", lit(u), var("x")), ("mul", par(f"p{i}"), var("y")), lit(w))
        cons.append(ConsSpec(f"a{k}", ("cmp", "<=", lhs, var("z"))))
        cons.append(ConsSpec(f"b{k}", ("sub", ("mul", par(f"p{i}"), var("x")), ("div", var("z"), lit(u))), lb=lit(-w), ub=lit(w)))
        # the same variable several times
        cons.append(ConsSpec(f"d{k}", ("add", ("mul", lit(u), var("x")), ("mul", par(f"p{i}"), var("z")), ("mul", lit(u), var("x")), ("mul", lit(w), var("z"))), lb=lit(0.0)))
        res.state(("magnitudes", u, i, w))
    m = ModelSpec("M", params=params, vars={"x": VarSpec(), "y": VarSpec(), "z": VarSpec(False, False)}, cons=cons)
    with nothing_cancels():
        check_system(SystemSpec({"M": m}, [("c", "M", "component")], data), [1, 0], 2, res, what="numbers of different magnitudes", case={"numbers": unit})


def rows_units() -> List[Any]:
    xs = list(product(MAGS, range(len(MAGS)), [1e-9, 0.1, 7e5]))
    return [xs[i : i + 24] for i in range(0, len(xs), 24)]


def costs_worker(unit: List[Any], res: Result) -> None:
    with nothing_cancels():
        _costs_worker(unit, res)


def _costs_worker(unit: List[Any], res: Result) -> None:
    for u, v, w in unit:
        res.state(("magnitudes", u, v, w))
        m = ModelSpec(
            "M",
            params={"p": (True, True)},
            vars={"x": VarSpec(), "y": VarSpec(), "z": VarSpec(False, False)},
            obj_op=("add", ("expec", ("tsum", ("add", ("mul", par("p"), var("x")), ("mul", lit(u), var("y"))))), lit(w)),
            obj_inv=("mul", lit(v), var("z")),
        )
        if not check_system(SystemSpec({"M": m}, [("c", "M", "component")], {("c", "p"): _data(v)}), [1, 0], 2, res, what="numbers of different magnitudes", case={"numbers": (u, v, w)}):
            return


def costs_units() -> List[Any]:
    xs = list(product(MAGS, MAGS, [1e-9, 7e5]))
    return [xs[i : i + 24] for i in range(0, len(xs), 24)]


def bounds_worker(unit: List[Any], res: Result) -> None:
    with nothing_cancels():
        _bounds_worker(unit, res)


def _bounds_worker(unit: List[Any], res: Result) -> None:
    for lo, up in unit:
        res.state(("magnitudes", lo, up))
        m = ModelSpec(
            "M",
            params={"p": (True, True), "q": (True, True)},
            vars={
                "x": VarSpec(lb=lit(-lo), ub=lit(up)),
                "y": VarSpec(lb=("sub", par("p"), lit(lo)), ub=("add", par("q"), lit(0.5))),
                "z": VarSpec(False, False, lb=lit(lo) if lo < up else None, ub=lit(up)),
            },
        )
        data = {("c", "p"): ("ts", [[-lo, -2 * lo], [-lo, -lo]], None), ("c", "q"): ("ts", [[up, 3 * up], [2 * up, up]], None)}
        if not check_system(SystemSpec({"M": m}, [("c", "M", "component")], data), [1, 0], 2, res, what="numbers of different magnitudes", case={"bounds": (lo, up)}):
            return


def bounds_units() -> List[Any]:
    xs = list(product(MAGS, MAGS))
    return [xs[i : i + 16] for i in range(0, len(xs), 16)]
