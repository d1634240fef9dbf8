"""
C04: ill-formed model elements are refused, at the latest when the problem is built, in
whatever position and under whatever operators the offending part is; the same elements
with a well-formed part instead are accepted (and mean what they say).
"""
import copy
from itertools import product
from typing import Any, Callable, Dict, Iterator, List, Tuple

from mc.core import Result, Run, raised_by_implementation, time_limit
from mc.impl import build, build_model, build_port_types, read_lp
from mc.lpcheck import lit, par, std_data, std_model, var
from mc.spec import ConsSpec, Expr, INF, ModelSpec, Reference, SystemSpec, Undefined, VarSpec, diff_lp

PROPERTY = "C04"
ASSUMPTIONS = [
    "expressions whose non-linear part cancels out algebraically, e.g. 0*x*y, may be accepted or refused",
]
BOUNDS = {
    "quick": "all pairs of 14 nesting operators around 40 offending and 13 well-formed parts, in constraints, objectives (operational and investment), bounds of variables and of constraints, port definitions and time bounds; all objectives of <=3 leaves; T=2, S=2",
    "thorough": "all triples of nesting operators",
}
T, S = 2, 2
BLOCK = [1, 2]

X, Y, XC = var("xts"), var("xt"), var("xc")

# operators under which the offending part is hidden; each keeps its degree
CONTEXTS: Dict[str, Callable[[Expr], Expr]] = {
    "id": lambda e: e,
    "neg": lambda e: ("neg", e),
    "addl": lambda e: ("add", e, X),
    "addr": lambda e: ("add", par("pc"), XC, e),
    "subl": lambda e: ("sub", e, par("pts")),
    "subr": lambda e: ("sub", lit(4.0), e),
    "mull": lambda e: ("mul", e, par("pc")),
    "mulr": lambda e: ("mul", lit(3.0), e),
    "div": lambda e: ("div", e, par("pt")),
    "shift": lambda e: ("shift", e, lit(1)),
    "eval": lambda e: ("eval", e, lit(0)),
    "wsum": lambda e: ("wsum", e, lit(-1), par("k1")),
    "tsum": lambda e: ("tsum", e),
    "expec": lambda e: ("expec", e),
}
NONLINEAR: List[Expr] = [
    ("mul", X, Y),
    ("mul", XC, XC),
    ("mul", ("add", X, par("pc")), ("sub", Y, lit(1.0))),
    ("mul", ("mul", par("pc"), X), XC),
    ("mul", ("expec", X), Y),
    ("mul", ("tsum", X), ("eval", Y, lit(0))),
    ("div", par("pc"), XC),
    ("div", X, Y),
    ("div", X, ("sub", par("pc"), XC)),
    ("variance", X),
    ("variance", XC),
]
COMPARISONS: List[Expr] = [
    ("cmp", "<=", XC, lit(1.0)),
    ("cmp", "=", X, par("pc")),
    ("cmp", ">=", lit(0.0), Y),
]
UNKNOWN: List[Expr] = [var("nope"), par("nope"), ("mul", par("nope"), X), ("add", XC, var("pc")), ("mul", par("xc"), X)]
BAD_TIME: List[Expr] = [
    ("shift", X, XC),
    ("shift", Y, par("pt")),
    ("shift", Y, par("ps")),
    ("shift", X, par("pts")),
    ("shift", X, lit(1.5)),
    ("shift", X, ("div", lit(3.0), lit(2.0))),
    ("shift", par("pt"), lit(0.5)),
    ("eval", X, lit(0.25)),
    ("eval", X, par("pt")),
    ("eval", Y, par("ps")),
    ("eval", X, XC),
    ("eval", X, ("add", par("k1"), Y)),
    ("wsum", X, lit(0.5), lit(1)),
    ("wsum", X, lit(0), lit(1.5)),
    ("wsum", X, lit(0), par("pt")),
    ("wsum", X, par("pts"), lit(2)),
    ("wsum", X, ("neg", XC), lit(2)),
    ("wsum", X, lit(-1), XC),
    ("shift", X, ("div", par("k1"), par("k2"))),
]
ZERO: List[Expr] = [("div", X, lit(0.0)), ("div", par("pc"), ("sub", par("k1"), lit(1.0)))]
GOOD: List[Expr] = [
    X,
    XC,
    par("pts"),
    lit(2.0),
    ("mul", par("pts"), X),
    ("mul", XC, par("pc")),
    ("div", Y, par("pc")),
    ("shift", X, par("k2")),
    ("shift", Y, ("mul", lit(0.5), par("k2"))),
    ("eval", Y, par("k1")),
    ("wsum", X, par("k2"), par("k1")),
    ("shift", X, ("div", lit(3.0), lit(3.0))),
    ("mul", ("sub", par("pt"), par("ps")), ("add", X, XC)),
]


def nestings(depth: int) -> Iterator[Tuple[str, ...]]:
    for n in product(CONTEXTS, repeat=depth):
        yield n


def nest(names: Tuple[str, ...], e: Expr) -> Expr:
    for n in reversed(names):
        e = CONTEXTS[n](e)
    return e


def has(e: Any, *ops: str) -> bool:
    return isinstance(e, tuple) and (e[0] in ops or any(has(x, *ops) for x in e[1:]))


def system(m: ModelSpec) -> SystemSpec:
    return SystemSpec(models={"M": m}, components=[("c1", "M", "component")], data=std_data("c1", 4, S))


def attempt(make: Callable[[], Any]) -> Any:
    """None if refused, the problem otherwise"""
    try:
        with time_limit(60, "building the problem"):
            return make()
    except Exception as e:
        if raised_by_implementation(e) or isinstance(e, (ValueError, TypeError, KeyError, NotImplementedError)):
            return None
        raise


def refused(sys: SystemSpec, what: str, case: Any, res: Result, early: bool = False) -> None:
    """early: already when the model is made"""
    res.state((what, repr(case)))
    res.step()
    res.trace()
    if early:
        if attempt(lambda: [build_model(m, build_port_types(sys)) for m in sys.models.values()]) is not None:
            res.violation(f"accepted in a model: {what}: {case}", {"what": what, "case": case})
        else:
            res.outcome((what, "refused early"))
        return
    if attempt(lambda: build(sys, BLOCK, S)) is not None:
        res.violation(f"accepted: {what}: {case}", {"what": what, "case": case})
    else:
        res.outcome((what, "refused"))


def accepted(sys: SystemSpec, what: str, case: Any, res: Result) -> None:
    res.state((what, repr(case)))
    res.step()
    res.trace()
    try:
        expected = Reference(sys, BLOCK, S).lp()
    except Undefined:  # division by zero
        return refused(sys, what, case, res)
    p = attempt(lambda: build(sys, BLOCK, S))
    if p is None:
        res.violation(f"well-formed element refused: {what}: {case}", {"what": what, "case": case})
        return
    d = diff_lp(expected, read_lp(p))
    if d:
        res.violation(f"{what}: {case}: {d}", {"what": what, "case": case})
    res.outcome((what, repr(sorted(read_lp(p).obj.items()))))


# -- constraints --------------------------------------------------------------------
def constraint_worker(unit: Any, res: Result) -> None:
    for names in unit:
        for bad in NONLINEAR + COMPARISONS + UNKNOWN + BAD_TIME + ZERO:
            e = nest(names, bad)
            if bad[0] == "cmp" and e is bad:
                continue  # a plain comparison is a constraint
            for k, c in enumerate((ConsSpec("c", e, lit(0.0)), ConsSpec("c", ("cmp", "<=", e, XC)), ConsSpec("c", ("cmp", "=", par("pc"), e)))):
                if k and hash(names) % 3 and len(names) > 1 and names[0] != "id":
                    continue
                m = std_model()
                m.cons = [c]
                refused(system(m), "constraint", c.expr, res)
            if len(res.violations) > 2:
                return
        m = std_model()
        for i, good in enumerate(GOOD):
            e = nest(names, good)
            if not moving(e):
                m.cons += [ConsSpec(f"a{i}", e, lit(0.0)), ConsSpec(f"b{i}", ("cmp", ">=", e, par("pts")))]
        accepted(system(m), "constraints", names, res)
        res.sample(nest(names, NONLINEAR[0]))


def moving(e: Any) -> bool:
    """A time operator over an operand taken at fixed times: refused, or known finding of C06"""
    if not isinstance(e, tuple):
        return False
    if e[0] in ("shift", "wsum", "eval", "tsum") and has(e[1], "eval", "tsum"):
        return True
    return any(moving(x) for x in e[1:])


# -- objectives ---------------------------------------------------------------------
def objective_worker(unit: Any, res: Result) -> None:
    for names in unit:
        for which in ("obj_op", "obj_inv"):
            for bad in NONLINEAR + COMPARISONS + UNKNOWN + BAD_TIME + ZERO:
                m = std_model()
                setattr(m, which, ("expec", ("tsum", nest(names, bad))))
                refused(system(m), which, getattr(m, which), res, bad in NONLINEAR)
            for good in GOOD:
                e = nest(names, good)
                if moving(e):
                    continue
                for wrapped in (e, ("tsum", e), ("expec", e), ("expec", ("tsum", e))):
                    m = std_model()
                    setattr(m, which, wrapped)
                    sys = system(m)
                    if Reference(sys, BLOCK, S).depends(wrapped, "c1") == (False, False):
                        accepted(sys, which, wrapped, res)
                    else:
                        refused(sys, which, wrapped, res, True)
            if len(res.violations) > 2:
                return


# -- bounds -------------------------------------------------------------------------
def bounds_worker(unit: Any, res: Result) -> None:
    arithmetic = ("id", "neg", "subl", "subr", "mull", "mulr", "div")
    bad = NONLINEAR + UNKNOWN[:3] + [X, XC, ("mul", par("pts"), X), ("shift", X, lit(1)), ("tsum", X), ("expec", XC), ("eval", X, lit(0))]
    for names in unit:
        for b in bad:
            e = nest(names, b)
            for side in ("lb", "ub"):
                m = std_model()
                m.vars["v"] = VarSpec(True, True, **{side: e})
                refused(system(m), f"variable {side}", e, res, b not in UNKNOWN)
                m = std_model()
                m.cons = [ConsSpec("c", X, **{side: e})]
                refused(system(m), f"constraint {side}", e, res, b not in UNKNOWN)
            if len(res.violations) > 2:
                return
        if not set(names) <= set(arithmetic):
            continue
        for g in (par("pts"), par("pc"), lit(2.0), ("mul", par("pt"), par("ps")), ("sub", par("pc"), lit(7.0))):
            e = nest(names, g)
            m = std_model()
            m.cons = [ConsSpec("c", X, lb=e), ConsSpec("d", X, ub=e), ConsSpec("e", XC, e, e)]
            m.vars["v"] = VarSpec(True, True, lb=e)
            m.vars["w"] = VarSpec(True, True, ub=e)
            accepted(system(m), "bounds", e, res)


def shapes_worker(unit: Any, res: Result) -> None:
    """Comparisons with explicit bounds, infinite bounds on the wrong side"""
    for op in ("<=", "=", ">="):
        for l, r in product((X, par("pc"), lit(0.0), XC), repeat=2):
            for lb, ub in product((None, lit(0.0), lit(3.0), par("pc")), repeat=2):
                m = std_model()
                m.cons = [ConsSpec("c", ("cmp", op, l, r), lb, ub)]
                if lb is None and ub is None:
                    accepted(system(m), "comparison", (op, l, r), res)
                else:
                    refused(system(m), "comparison with bounds", (op, l, r, lb, ub), res, True)
    for e in (X, XC, ("add", X, par("pc"))):
        for b in (None, lit(0.0), lit(INF), lit(-INF), par("pc")):
            m = std_model()
            m.cons = [ConsSpec("c", e, lb=lit(INF), ub=b)]
            refused(system(m), "infinite lower bound", (e, b), res, True)
            m = std_model()
            m.cons = [ConsSpec("c", e, lb=b, ub=lit(-INF))]
            refused(system(m), "infinite upper bound", (e, b), res, True)
    m = std_model()
    m.cons = [ConsSpec("c", X, lit(-INF), lit(INF)), ConsSpec("d", XC, lit(-INF), lit(2.0)), ConsSpec("e", Y, lit(1.0), lit(INF))]
    accepted(system(m), "infinite bounds", "the right sides", res)


# -- port definitions ---------------------------------------------------------------
def port_worker(unit: Any, res: Result) -> None:
    types = {"A": ["f", "g"]}

    def net(definition: Expr, connect: bool) -> SystemSpec:
        m = std_model()
        m.ports = {"q": "A", "r": "A"}
        m.portdefs = {("q", "f"): definition, ("q", "g"): X}
        n = ModelSpec("N", ports={"b": "A"}, cons=[ConsSpec("bal", ("cmp", "=", ("psum", "b", "f"), lit(0.0)))])
        return SystemSpec(
            models={"M": m, "N": n},
            components=[("c1", "M", "component"), ("n", "N", "node")],
            data=std_data("c1", 4, S),
            connections=[("c1", "q", "n", "b")] if connect else [],
            port_types=types,
        )

    bad_refs: List[Expr] = [("pf", "r", "f"), ("psum", "r", "f"), ("pf", "q", "g"), ("pf", "zz", "f"), ("mul", par("pc"), ("pf", "r", "f"))]
    for names in unit:
        for b in bad_refs + COMPARISONS:
            e = nest(names, b)
            refused(net(e, False), "port definition", e, res, True)
        for b in NONLINEAR + BAD_TIME + ZERO + UNKNOWN:
            e = nest(names, b)
            refused(net(e, True), "port definition", e, res)
        for g in GOOD:
            e = nest(names, g)
            if not moving(e):
                accepted(net(e, True), "port definition", e, res)
        if len(res.violations) > 2:
            return
    if unit and unit[0] == ("id", "id"):
        # definitions for ports or fields that the model does not have
        for key in (("zz", "f"), ("q", "zz"), ("f", "q")):
            s = net(X, False)
            s.models["M"].portdefs[key] = X
            refused(s, "definition of a missing port field", key, res)
        # references to port fields that the model does not have
        for use in (("pf", "zz", "f"), ("psum", "zz", "f"), ("psum", "b", "zz"), ("pf", "b", "zz")):
            for connect in (True, False):
                s = net(X, connect)
                s.models["N"] = copy.copy(s.models["N"])
                s.models["N"].cons = [ConsSpec("bal", ("cmp", "=", use, lit(0.0)))]
                refused(s, "reference to a missing port field", (use, connect), res)


# -- small objectives, complete -------------------------------------------------------
def small_objectives(unit: Any, res: Result) -> None:
    ops, first = unit
    ls = [XC, X, var("xs"), par("pc"), par("pt"), lit(2.0)]

    def degree(e: Expr) -> Any:
        if e[0] in ("lit", "par"):
            return 0
        if e[0] == "var":
            return 1
        d = [degree(x) for x in e[1:] if isinstance(x, tuple)]
        if None in d:
            return None
        if e[0] == "mul":
            return sum(d)
        if e[0] == "div":
            return None if d[1] else d[0]
        return max(d)

    for second, third in product(ls, ls):
        for e in (
            (ops[0], first, (ops[1], second, third)),
            (ops[1], (ops[0], first, second), third),
            (ops[0], ("expec", first), ("tsum", (ops[1], second, third))),
            ("expec", ("tsum", (ops[0], (ops[1], first, second), third))),
        ):
            m = std_model()
            m.obj_op = e
            sys = system(m)
            d = degree(e)
            scalar = Reference(sys, BLOCK, S).depends(e, "c1") == (False, False)
            if d is None or d > 1 or not scalar:
                refused(sys, "objective", e, res)
            else:
                accepted(sys, "objective", e, res)
            if len(res.violations) > 2:
                return


def index_worker(unit: Any, res: Result) -> None:
    """Bounds that depend on an index which their variable does not have"""
    needs = {"pc": (False, False), "pt": (True, False), "ps": (False, True), "pts": (True, True)}
    for (t, s), kind, names in product(product((False, True), repeat=2), ("continuous", "integer"), unit):
        for ps in [(p,) for p in needs] + [(p, q) for p in needs for q in needs]:
            e = nest(names, par(ps[0]) if len(ps) == 1 else ("add", par(ps[0]), par(ps[1])))
            for side in ("lb", "ub"):
                m = std_model()
                m.vars["v"] = VarSpec(t, s, kind=kind, **{side: e})
                if any(needs[p][0] and not t or needs[p][1] and not s for p in ps):
                    refused(system(m), f"{side} of a variable with other indices", (e, t, s), res)
                else:
                    accepted(system(m), f"{side} of a variable", (e, t, s), res)
        if len(res.violations) > 2:
            return


def explore(run: Run) -> None:
    run.parallel(index_worker, [[()], [("neg",)]])
    depth = 3 if run.thorough else 2
    ns = list(nestings(depth))
    k = 7
    groups = [ns[i : i + k] for i in range(0, len(ns), k)]
    run.parallel(shapes_worker, [0])
    run.parallel(bounds_worker, groups)
    run.parallel(constraint_worker, groups)
    run.parallel(objective_worker, groups)
    run.parallel(port_worker, groups)
    ls = [XC, X, var("xs"), par("pc"), par("pt"), lit(2.0)]
    run.parallel(small_objectives, [(o, f) for o in product(("add", "sub", "mul", "div"), repeat=2) for f in ls])
