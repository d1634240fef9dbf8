"""
C06: time operators. All expressions up to the stated operator depth, over the alphabet
below, on every block of the list: rows equal the reference denotation.
"""
from typing import Any, Iterator, List, Tuple

from andromede.simulation import BlockBorderManagement, TimeBlock
from andromede.simulation.benders_decomposed import build_benders_decomposed_problem
from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
from mc import sizes
from mc.core import Result, Run, raised_by_implementation
from mc.impl import build, build_database, build_system_network, read_lp
from mc.lpcheck import (
    check_pack,
    chunks,
    lit,
    par,
    std_system,
    var,
    with_constraints,
)
from mc.spec import ConsSpec, Expr, Reference, diff_lp

PROPERTY = "C06"
ASSUMPTIONS = [
    "the block is cyclic (the only border management implemented; others must be refused)",
    "time bounds are constant and integer-valued",
]
BOUNDS = {
    "quick": "operator depth <=3 over 8 leaves, shifts in {-2,-1,0,1,2,T,T+1,-T-1,param}, blocks of 1..5 steps, incl. offset and non-contiguous, 2 scenarios (3 with blocks of 3 steps); the borders which are not implemented, in whole and decomposed problems; one system with 1..33, 48, 100 and 168 timesteps",
    "thorough": "operator depth <=3 with the complete operator alphabet at each level, blocks of 1..7 steps",
}

BLOCKS = [[0], [0, 1], [0, 1, 2], [2, 3, 4, 5], [1, 4, 5, 7, 9], [3], [5, 4, 2]]


def leaves() -> List[Expr]:
    return [
        var("xts"),
        var("xt"),
        var("xs"),
        var("xc"),
        ("mul", par("pts"), var("xt")),
        ("mul", par("pt"), var("xts")),
        ("add", var("xts"), ("mul", par("pt"), var("xc")), par("pts")),
        par("pt"),
        ("div", var("xt"), par("pt")),
    ]


def ops(T: int, full: bool) -> List[Tuple[Any, ...]]:
    ks: List[Expr] = [lit(k) for k in (-2, -1, 1, 2, T, T + 1, -T - 1)]
    ks += [par("k1"), par("k2"), ("neg", par("k1")), ("sub", par("k1"), lit(2))]
    o: List[Tuple[Any, ...]] = []
    o += [("shift", k) for k in ks]
    o += [("eval", k) for k in (lit(0), lit(1), lit(T - 1), lit(T), lit(-1), par("k1"), ("add", par("k1"), lit(1)))]
    o += [
        ("wsum", a, b)
        for a, b in (
            (lit(0), lit(0)),
            (lit(-1), lit(0)),
            (lit(-2), lit(1)),
            (lit(0), lit(T)),
            (lit(1), lit(2)),
            (lit(1), lit(0)),
            (lit(-3), lit(-2)),
            (par("k2"), par("k1")),
            (("sub", par("k2"), lit(1)), ("neg", par("k1"))),
        )
    ]
    o += [("tsum",), ("neg",), ("expec",)]
    return o


def apply(op: Tuple[Any, ...], e: Expr) -> Expr:
    return (op[0], e) + tuple(op[1:])


def fixed(e: Expr) -> bool:
    """Contains an operand taken at a fixed timestep that a later shift could move"""
    if e[0] == "eval":
        return True
    return any(isinstance(x, tuple) and fixed(x) for x in e[1:])


def finding(c: ConsSpec) -> Any:
    """Recorded finding: a shift or window sum applied above an operand evaluated at a fixed timestep"""

    def bad(e: Expr) -> bool:
        if e[0] in ("shift", "wsum") and fixed(e[1]):
            return True
        return any(isinstance(x, tuple) and bad(x) for x in e[1:])

    return "shift-of-evaluated" if bad(c.expr) else None


def refused(e: Expr) -> bool:
    """x[0][1]: documented as refused"""
    if e[0] == "eval" and fixed(e[1]):
        return True
    if e[0] == "eval" and has(e[1], "tsum"):
        return True
    return any(isinstance(x, tuple) and refused(x) for x in e[1:])


def has(e: Expr, op: str) -> bool:
    return e[0] == op or any(isinstance(x, tuple) and has(x, op) for x in e[1:])


def expressions(T: int, thorough: bool) -> Iterator[Expr]:
    ls = leaves()
    os_ = ops(T, thorough)
    level1 = [apply(o, l) for o in os_ for l in ls]
    yield from ls
    yield from level1
    for o in os_:
        for e in level1:
            yield apply(o, e)
    # sums and products of differently shifted terms
    small = [apply(o, l) for o in os_[:6] + [("eval", lit(1)), ("wsum", lit(-1), lit(0)), ("tsum",)] for l in ls[:2] + ls[4:6]]
    for i, a in enumerate(small):
        for b in small[i:]:
            yield ("sub", a, b)
    pars = [apply(o, p) for o in [("shift", lit(1)), ("shift", lit(-2)), ("eval", lit(1)), ("wsum", lit(-1), lit(1)), ("tsum",), ("wsum", lit(1), lit(0))] for p in (par("pts"), par("pt"), par("pc"))]
    for p in pars:
        for a in small:
            yield ("mul", p, a)
    # depth 3: time operators around sums/products of already shifted terms
    inner = [
        ("add", var("xts"), ("shift", var("xt"), lit(1))),
        ("sub", ("shift", var("xts"), lit(-1)), ("mul", par("pt"), ("shift", var("xc"), lit(2)))),
        ("mul", ("shift", par("pts"), lit(1)), ("shift", var("xt"), lit(-1))),
        ("add", ("tsum", var("xt")), ("wsum", var("xts"), lit(-1), lit(0)), par("pts")),
        ("neg", ("sub", ("shift", var("xt"), par("k2")), ("mul", lit(2), var("xts")))),
    ]
    for e in inner:
        for o in os_:
            yield apply(o, e)
            for o2 in os_ if thorough else os_[::2]:
                yield apply(o2, apply(o, e))
    if thorough:
        for o in os_[::2]:
            for o2 in os_[1::2]:
                for o3 in os_:
                    for l in ls[::2]:
                        yield apply(o, apply(o2, apply(o3, l)))


def worker(unit: Any, res: Result) -> None:
    block, S, exprs = unit
    base = std_system(10, S)
    cons = []
    for i, e in enumerate(exprs):
        cons.append(ConsSpec(f"e{i}", e, lb=lit(-7.0), ub=None if i % 2 else par("pc")))
    check_pack(base, "M", "c1", cons, block, S, res, known=finding)
    for c in cons[:1]:
        res.sample({"expression": c.expr, "block": block, "scenarios": S})


def refused_worker(unit: Any, res: Result) -> None:
    """An evaluation of an evaluation is either refused or keeps the innermost timestep"""
    block, S, exprs = unit
    base = std_system(10, S)
    for e in exprs:
        c = ConsSpec("e", e, lb=lit(-7.0))
        res.state(("refused", e, tuple(block)))
        res.trace()
        try:
            actual = read_lp(build(with_constraints(base, "M", [c]), block, S))
        except Exception as exc:
            if not raised_by_implementation(exc):
                raise
            res.outcome(("refused", type(exc).__name__))
            continue
        d = diff_lp(Reference(with_constraints(base, "M", [c]), block, S).lp(), actual)
        if d:
            res.violation(f"accepted with another meaning: {d}", {"constraint": e, "block": block})


def fraction_worker(unit: Any, res: Result) -> None:
    """A number of steps that is not whole is refused, however close it is to a whole one"""
    v, block, as_data, make = unit
    sys = std_system(10, 2)
    k = lit(v)
    if as_data:
        sys.models["M"].params["frac"] = (False, False)
        for c, m, _ in sys.components:
            if m == "M":
                sys.data[(c, "frac")] = ("const", v)
        k = par("frac")
    e = {"shift": ("shift", var("xts"), k), "from": ("wsum", var("xts"), k, lit(3)), "to": ("wsum", var("xts"), lit(-2), k), "eval": ("eval", var("xts"), k)}[make]
    sys = with_constraints(sys, "M", [ConsSpec("e", e, lb=lit(-7.0))])
    res.state((v, tuple(block), as_data, make))
    res.trace()
    res.step()
    try:
        actual = read_lp(build(sys, block, 2))
    except Exception as exc:
        if not raised_by_implementation(exc):
            raise
        res.outcome(("refused", type(exc).__name__))
        if v == int(v):
            res.violation(f"a whole number of steps is refused: {exc}", {"constraint": e})
        return
    res.outcome(("accepted", v))
    if v != int(v):
        res.violation(f"{v} steps are accepted", {"constraint": e})
        return
    d = diff_lp(Reference(sys, block, 2).lp(), actual)
    if d:
        res.violation(d, {"constraint": e})


def border_worker(unit: Any, res: Result) -> None:
    """Borders other than cyclic, which are not implemented, are refused instead of being taken cyclically"""
    route, border, block, e = unit
    sys = with_constraints(std_system(10, 2), "M", [ConsSpec("e", e, lb=lit(-7.0))])
    got = []
    for b in (BlockBorderManagement.CYCLE, border):
        res.trace()
        try:
            if route == "whole":
                got.append(read_lp(build(sys, block, 2, border_management=b)))
            else:
                node = DecisionTreeNode("", InterDecisionTimeScenarioConfig([TimeBlock(1, block)], 2), build_system_network(sys))
                d = build_benders_decomposed_problem(node, build_database(sys), border_management=b)
                got.append(read_lp(d.subproblems[0]))
        except Exception as exc:
            if b is BlockBorderManagement.CYCLE or not raised_by_implementation(exc):
                raise
            res.outcome(("refused", type(exc).__name__))
    res.step()
    res.state((route, str(border), tuple(block), e))
    if border is not BlockBorderManagement.CYCLE and len(got) == 2 and diff_lp(got[0], got[1]) is None:
        res.violation(f"{border} is taken as cyclic ({route} problem)", {"constraint": e, "block": block})


def explore(run: Run) -> None:
    units = []
    blocks = BLOCKS + ([[0, 1, 2, 3, 4, 5, 6], [9, 8, 7, 6, 5, 4]] if run.thorough else [])
    for block in blocks:
        exprs = [e for e in dict.fromkeys(expressions(len(block), run.thorough)) if not refused(e)]
        if not run.thorough and len(block) not in (3, 4):
            # complete up to depth 2 on the other blocks
            exprs = [e for e in exprs if depth(e) <= 2]
        for ch in chunks(exprs, 150):
            units.append((block, 3 if len(block) == 3 else 2, ch))
    run.parallel(worker, units)
    ev = [("eval", lit(k)) for k in (0, 1, -1)] + [("eval", par("k1"))]
    nested = [
        apply(a, apply(b, l)) for a in ev for b in ev + [("tsum",)] for l in leaves()
    ]
    nested += [
        apply(a, apply(m, apply(b, var("xt"))))
        for a in ev
        for b in ev
        for m in (("neg",), ("expec",))
    ]
    run.parallel(
        refused_worker, [(b, 2, ch) for b in ([0, 1, 2], [4, 2]) for ch in chunks(nested, 20)]
    )
    out = [apply(o, l) for o in (("shift", lit(-1)), ("shift", lit(2)), ("wsum", lit(-1), lit(0)), ("wsum", lit(0), lit(3))) for l in leaves()[:2] + leaves()[4:7]]
    run.parallel(sizes.worker, sizes.units("t"))
    steps = [0.5, -0.5, 1.001, 0.999, -1.0001, 2.000001, 1e-7, 1.0, 0.0, -1.0, 2.0]
    run.parallel(fraction_worker, [(v, b, d, m) for v in steps for b in ([0, 1, 2], [5]) for d in (False, True) for m in ("shift", "from", "to", "eval")])
    run.parallel(border_worker, [(r, b, bl, e) for r in ("whole", "decomposed") for b in BlockBorderManagement for bl in ([0, 1, 2], [4, 2]) for e in out])


def depth(e: Expr) -> int:
    sub = [depth(x) for x in e[1:] if isinstance(x, tuple)]
    own = 1 if e[0] in ("shift", "eval", "wsum", "tsum", "expec") else 0
    return own + (max(sub) if sub else 0)
