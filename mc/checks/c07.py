"""
C07: objective and expectation. The objective is the sum over components of their
contributions; expectations are plain means over scenarios, also when nested.
"""
from itertools import product
from typing import Any, Iterator, List

from andromede.simulation.strategy import (
    ExpectedValue,
    InvestmentProblemStrategy,
    MergedProblemStrategy,
    OperationalProblemStrategy,
)
from mc import sizes
from mc.core import Result, Run, time_limit
from mc.impl import build, read_lp
from mc.lpcheck import check_pack, chunks, lit, par, std_data, std_model, var
from mc.magnitudes import costs_units, costs_worker
from mc.spec import ConsSpec, Expr, Reference, SystemSpec, VarSpec, diff_lp

PROPERTY = "C07"
ASSUMPTIONS = ["scenarios are equiprobable (the only law implemented)"]
BOUNDS = {
    "quick": "objectives expec(sum(e)), sum(expec(e)), expec(e), ... for all e of <=3 leaves of a 9-leaf alphabet, nested expectations to depth 3, S in 1..4, T in 1..3, 1..3 components, 3 selection strategies, 4 probabilities; literals and data from 1e-12 to 4e16; one system with 1..25, 50 and 101 scenarios, 0..25, 50 and 101 components",
    "thorough": "the same with S in 1..6, T in 1..5 and 12 leaves",
}

TS = [var("xts"), var("xt"), var("xs"), var("xc"), par("pts"), par("pt"), par("ps"), lit(3.0), lit(-2.5)]


def inner(full: bool) -> Iterator[Expr]:
    ls = TS + ([par("pc"), lit(0.0), ("shift", var("xts"), lit(1))] if full else [])
    for a in ls:
        yield a
    for op in ("add", "sub", "mul", "div"):
        for a, b in product(ls, ls):
            yield (op, a, b)
    for a, b in product(ls, ls):
        yield ("sub", ("mul", par("pts"), a), b)
        yield ("mul", par("pt"), ("sub", a, b))
        yield ("neg", ("add", a, b, var("xts")))


def nested() -> Iterator[Expr]:
    e = lambda x: ("expec", x)
    s = lambda x: ("tsum", x)
    atoms = [var("xts"), var("xs"), par("pts"), par("ps"), ("mul", par("pts"), var("xts"))]
    for a in atoms:
        yield s(e(e(a)))
        yield e(s(e(a)))
        yield e(e(s(e(a))))
        for b in atoms:
            yield e(s(("mul", a, e(b))))
            yield s(("mul", e(a), e(b)))
            yield e(s(("sub", a, e(b))))
            yield s(e(("add", e(("sub", a, b)), ("neg", e(b)))))
            yield e(s(("mul", e(a), b)))
            yield e(s(("sub", ("mul", par("ps"), e(b)), ("div", a, par("ps")))))
            yield s(e(("mul", ("sub", par("ps"), e(par("pts"))), b)))


def real_valued(e: Expr, ref: Reference) -> bool:
    return ref.depends(e, "a") == (False, False)


def system(T: int, S: int, objs: List[Any], kinds: List[str]) -> SystemSpec:
    """One component per (op, inv) couple of contributions"""
    models, comps, data = {}, [], {}
    for i, (op, inv) in enumerate(objs):
        m = std_model(f"M{i}")
        m.obj_op, m.obj_inv = op, inv
        m.vars = dict(m.vars)
        m.vars["inv"] = VarSpec(False, False, lb=lit(0.0), context="coupling")
        m.vars["only_inv"] = VarSpec(False, False, lb=lit(0.0), context="investment")
        models[m.id] = m
        cid = ("a", "a_x", "b")[i]
        comps.append((cid, m.id, kinds[i]))
        data.update(std_data(cid, T + 2, S, off=3 * i))
    return SystemSpec(models=models, components=comps, data=data)


def objective_worker(unit: Any, res: Result) -> None:
    """Each expression alone, as operational contribution of 1 component"""
    T, S, exprs = unit
    block = list(range(2, T + 2))
    for e in exprs:
        sys = system(T, S, [(e, None)], ["component"])
        ref = Reference(sys, block, S)
        if not real_valued(e, ref):
            continue
        try:
            expected = ref.lp()
        except Exception:
            continue  # non linear: decided by C04
        res.state(("obj", e, T, S))
        res.step(T * S)
        res.trace()
        with time_limit(60):
            actual = read_lp(build(sys, block, S))
        res.outcome((sorted(actual.obj.items(), key=repr), actual.obj_const))
        d = diff_lp(expected, actual)
        if d:
            res.violation(d, {"objective": e, "T": T, "S": S})
            if len(res.violations) >= 2:
                return
    if exprs:
        res.sample({"objective": exprs[0], "T": T, "S": S})


E = lambda x: ("expec", ("tsum", x))
CONTRIB: List[Any] = [
    None,
    E(("mul", par("pts"), var("xts"))),
    E(("sub", ("mul", lit(2.0), var("xts")), par("ps"))),
    ("add", var("xc"), ("mul", lit(5.0), var("inv")), lit(7.0)),
    ("sub", ("mul", par("pc"), var("inv")), lit(11.0)),
    ("expec", ("mul", par("ps"), ("eval", var("xts"), lit(0)))),
]
INV: List[Any] = [
    None,
    ("mul", par("pc"), var("inv")),
    ("sub", ("mul", lit(3.0), var("only_inv")), ("sub", var("inv"), lit(13.0))),
]
STRATEGIES = {
    "merged": (MergedProblemStrategy, ("operational", "investment", "coupling"), ("op", "inv")),
    "investment": (InvestmentProblemStrategy, ("investment", "coupling"), ("inv",)),
    "operational": (OperationalProblemStrategy, ("operational", "coupling"), ("op",)),
}


def several_worker(unit: Any, res: Result) -> None:
    """Contributions of several components, selection strategies, probability weights"""
    T, S, objs, strategy, prob = unit
    block = list(range(T))
    for kinds in (["component", "node", "component"], ["node", "component", "node"]):
        sys = system(T, S, objs, kinds)
        cls, keep, which = STRATEGIES[strategy]
        # contributions must only involve the variables kept by the strategy
        if strategy == "operational":
            for m in sys.models.values():
                if m.obj_op is not None and "only_inv" in repr(m.obj_op):
                    return
        expected = Reference(sys, block, S).lp(keep, which, 1.0 if prob is None else prob)
        res.state((unit, tuple(kinds)))
        res.step(len(objs))
        res.trace()
        kw = {} if prob is None else {"risk_strategy": ExpectedValue(prob)}
        actual = read_lp(build(sys, block, S, build_strategy=cls(), **kw))
        res.outcome((sorted(actual.obj.items(), key=repr), actual.obj_const))
        d = diff_lp(expected, actual)
        if d:
            res.violation(d, {"unit": unit, "kinds": kinds})
            return


def group_worker(unit: Any, res: Result) -> None:
    for u in unit:
        several_worker(u, res)


def constraint_worker(unit: Any, res: Result) -> None:
    """Expectation inside constraints: means, indexing by scenario removed"""
    T, S, exprs = unit
    base = SystemSpec(
        models={"M": std_model()},
        components=[("a", "M", "component")],
        data=std_data("a", T, S),
    )
    check_pack(base, "M", "a", [ConsSpec(f"e{i}", e, lb=lit(1.0)) for i, e in enumerate(exprs)], list(range(T)), S, res)


def explore(run: Run) -> None:
    ins = list(dict.fromkeys(inner(run.thorough)))
    wrap = [
        lambda x: ("expec", ("tsum", x)),
        lambda x: ("tsum", ("expec", x)),
        lambda x: ("expec", ("eval", x, lit(1))),
        lambda x: ("mul", lit(-0.5), ("tsum", ("expec", x))),
        lambda x: ("sub", lit(4.0), ("expec", ("tsum", x))),
        lambda x: ("add", ("expec", ("tsum", x)), ("tsum", ("expec", x)), ("eval", ("expec", var("xts")), lit(0))),
    ]
    units = []
    ts = [(1, 1), (2, 2), (3, 3), (2, 4)] + ([(5, 2), (1, 6), (4, 5)] if run.thorough else [])
    for i, (T, S) in enumerate(ts):
        exprs = [w(x) for w in wrap for x in ins] if (run.thorough or i in (1, 2)) else [w(x) for w in wrap[:2] for x in ins]
        exprs = [("tsum", x) for x in ()] + exprs + list(nested()) + [lit(3.0), ("neg", lit(2.0)), var("xc"), ("tsum", var("xt")), ("expec", var("xs"))]
        units += [(T, S, ch) for ch in chunks(list(dict.fromkeys(exprs)), 60)]
    run.parallel(costs_worker, costs_units())
    run.parallel(objective_worker, units)
    units = []
    for strategy in STRATEGIES:
        for prob in (None, 1.0, 0.3, 0.0):
            for a, b in product(product(CONTRIB, INV), product(CONTRIB, INV)):
                for T, S in ((2, 2),) if not run.thorough else ((2, 2), (3, 1)):
                    units.append((T, S, [a, b], strategy, prob))
            units.append((1, 3, [(CONTRIB[1], INV[1]), (CONTRIB[3], None), (CONTRIB[5], INV[2])], strategy, prob))
    run.parallel(group_worker, chunks(units, 60))
    units = []
    cexprs = [("expec", x) for x in ins] + [("sub", ("expec", x), y) for x in ins[:60] for y in TS[:4]]
    cexprs += [strip(x) for x in nested()]
    for T, S in ((2, 2), (1, 3), (3, 1)):
        units += [(T, S, ch) for ch in chunks(cexprs, 120)]
    run.parallel(sizes.worker, sizes.units("sn"))
    run.parallel(constraint_worker, units)


def strip(e: Expr) -> Expr:
    """Without time sums: time-indexed constraints"""
    if e[0] == "tsum":
        return strip(e[1])
    return tuple(strip(x) if isinstance(x, tuple) else x for x in e)
