"""
C03: structural equality. All ordered pairs of a bounded space of expressions (all node
kinds): equal exactly when the trees are identical, up to the requested tolerance on
numbers; same for variables, constraints and parameters of models.
"""
import functools
import math
import operator
from itertools import product
from typing import Any, Callable, List, Tuple

from andromede.expression import literal, param, var
from andromede.expression import expression as X
from andromede.expression.copy import copy_expression
from andromede.expression.equality import expressions_equal
from andromede.expression.indexing_structure import IndexingStructure
from andromede.model import Constraint, float_parameter, float_variable, int_variable
from andromede.model.parameter import int_parameter
from andromede.model.variable import bool_var
from mc.core import Result, Run, time_limit

PROPERTY = "C03"
ASSUMPTIONS: List[str] = []
BOUNDS = {
    "quick": "all ordered pairs of about 2500 expressions of <=2 operator levels over 30 leaves of all kinds; all single mutations at all positions of 3-level expressions, and of sums, products, quotients and nestings of 2..20 and 32 operands; all pairs of 12 numbers under 9 tolerances; all pairs of about 400 variables, 250 constraints, 40 parameters",
    "thorough": "all ordered pairs of about 8000 expressions",
}

# an expression is a pair (constructor, identity): identities are plain tuples
Item = Tuple[Callable[[], Any], Any]


def leaves() -> List[Item]:
    out: List[Item] = []
    for v in (1.0, 2.0, -1.0, 0.0):
        out.append(((lambda v=v: literal(v)), ("lit", v)))
    for n in ("x", "y"):
        out.append(((lambda n=n: var(n)), ("var", n)))
        out.append(((lambda n=n: param(n)), ("par", n)))
        for c in ("c", "d"):
            out.append(((lambda n=n, c=c: X.comp_var(c, n)), ("cvar", c, n)))
            out.append(((lambda n=n, c=c: X.comp_param(c, n)), ("cpar", c, n)))
    times = [X.NoTimeIndex(), X.TimeShift(0), X.TimeShift(1), X.TimeStep(0), X.TimeStep(1)]
    scens = [X.NoScenarioIndex(), X.CurrentScenarioIndex(), X.OneScenarioIndex(0), X.OneScenarioIndex(1)]
    for (i, t), (j, s) in product(enumerate(times), enumerate(scens)):
        if i in (0, 1, 4) or j == 1:
            out.append(((lambda t=t, s=s: X.problem_var("c", "x", t, s)), ("pvar", i, j)))
            out.append(((lambda t=t, s=s: X.problem_param("c", "x", t, s)), ("ppar", i, j)))
    out.append(((lambda: X.problem_var("d", "x", times[0], scens[0])), ("pvar", "d")))
    out.append(((lambda: X.problem_var("c", "y", times[0], scens[0])), ("pvar", "y")))
    out.append(((lambda: X.problem_param("d", "x", times[0], scens[0])), ("ppar", "d")))
    out.append(((lambda: X.problem_param("c", "y", times[0], scens[0])), ("ppar", "y")))
    for p, f in (("q", "f"), ("q", "g"), ("r", "f"), ("f", "q")):
        out.append(((lambda p=p, f=f: X.port_field(p, f)), ("pf", p, f)))
        out.append(((lambda p=p, f=f: X.port_field(p, f).sum_connections()), ("psum", p, f)))
    return out


def unary(e: Item) -> List[Item]:
    f, i = e
    out: List[Item] = [
        ((lambda: -f()), ("neg", i)),
        ((lambda: f().time_sum()), ("tsum", i)),
        ((lambda: f().expec()), ("expec", i)),
        ((lambda: f().variance()), ("variance", i)),
    ]
    for k, ki in ((lambda: literal(1.0), 1), (lambda: literal(-1.0), -1), (lambda: param("x"), "x")):
        out.append(((lambda k=k: f().shift(k())), ("shift", ki, i)))
        out.append(((lambda k=k: f().eval(k())), ("eval", ki, i)))
        for k2, k2i in ((lambda: literal(2.0), 2), (lambda: param("x"), "x")):
            out.append(((lambda k=k, k2=k2: f().time_sum(k(), k2())), ("wsum", ki, k2i, i)))
    return out


def flat(*ids: Any) -> Any:
    """Sums built with + are flat"""
    out: Tuple[Any, ...] = ("add",)
    for i in ids:
        out += i[1:] if i[0] == "add" else (i,)
    return out


def binary(a: Item, b: Item) -> List[Item]:
    f, i = a
    g, j = b
    return [
        ((lambda: f() + g()), flat(i, j)),
        ((lambda: f() * g()), ("mul", i, j)),
        ((lambda: f() / g()), ("div", i, j)),
        ((lambda: f() <= g()), ("<=", i, j)),
        ((lambda: f() >= g()), (">=", i, j)),
        ((lambda: f() == g()), ("=", i, j)),
    ]


def space(full: bool) -> List[Item]:
    ls = leaves()
    out = list(ls)
    few = [l for l in ls if l[1] in (("lit", 1.0), ("var", "x"), ("par", "x"), ("cvar", "c", "x"), ("pf", "q", "f"))]
    for l in ls:
        out += unary(l)
    small: List[Item] = []
    for a, b in product(few, few):
        small += binary(a, b)
    out += small
    f = few[1:3]
    for a, b, c in product(f, f, f):
        out.append(((lambda a=a, b=b, c=c: X.AdditionNode([a[0](), b[0](), c[0]()])), ("add", a[1], b[1], c[1])))
    # second level
    inner = unary(few[1]) + small[:: 3 if full else 11]
    for e in inner:
        out += unary(e)
        for l in few[: 4 if full else 2]:
            out += binary(e, l) + binary(l, e)
    if full:
        for a, b in product(inner[::2], inner[::2]):
            out += binary(a, b)
    return out


def pairs_worker(unit: Any, res: Result) -> None:
    full, part, parts = unit
    items = space(full)
    lefts = [(f(), i) for f, i in items]
    rights = [(f(), i) for f, i in items]
    with time_limit(800, "comparing"):
        for k in range(part, len(lefts), parts):
            a, i = lefts[k]
            res.state(i)
            if not expressions_equal(a, copy_expression(a)) or not expressions_equal(a, a):
                res.violation(f"{i} is not equal to itself or to its copy", {"expression": i})
                return
            for b, j in rights:
                res.step()
                got = expressions_equal(a, b)
                if got is not (i == j):
                    res.violation(f"{i} and {j} compare {'equal' if got else 'different'}", {"left": i, "right": j})
                    return
            res.trace(len(rights))
            res.outcome(i)
    res.sample(items[part][1])


def mutations_worker(unit: Any, res: Result) -> None:
    """All single mutations at all positions of deeper expressions"""

    def build(e: Any) -> Any:
        op = e[0]
        if op == "lit":
            return literal(e[1])
        if op == "var":
            return var(e[1])
        if op == "par":
            return param(e[1])
        if op == "pf":
            return X.port_field(e[1], e[2])
        if op == "psum":
            return X.port_field(e[1], e[2]).sum_connections()
        sub = [build(x) if isinstance(x, tuple) else x for x in e[1:]]
        return {
            "neg": lambda: -sub[0],
            "add": lambda: functools.reduce(operator.add, sub),
            "mul": lambda: sub[0] * sub[1],
            "div": lambda: sub[0] / sub[1],
            "<=": lambda: sub[0] <= sub[1],
            ">=": lambda: sub[0] >= sub[1],
            "=": lambda: sub[0] == sub[1],
            "shift": lambda: sub[0].shift(sub[1]),
            "eval": lambda: sub[0].eval(sub[1]),
            "wsum": lambda: sub[0].time_sum(sub[1], sub[2]),
            "tsum": lambda: sub[0].time_sum(),
            "expec": lambda: sub[0].expec(),
            "variance": lambda: sub[0].variance(),
        }[op]()

    def mutate(e: Any) -> Any:
        op = e[0]
        if op == "lit":
            yield ("lit", e[1] + 1.0)
            yield ("lit", e[1] + 1e-12)
            yield ("par", "z")
            return
        if op in ("var", "par"):
            yield (op, e[1] + "z")
            yield ("par" if op == "var" else "var", e[1])
            yield ("neg", e)
            return
        if op in ("pf", "psum"):
            yield (op, e[1], e[2] + "z")
            yield (op, e[1] + "z", e[2])
            yield ("psum" if op == "pf" else "pf", e[1], e[2])
            return
        for k in range(1, len(e)):
            for m in mutate(e[k]):
                yield e[:k] + (m,) + e[k + 1 :]
        if op == "add":
            yield e + (e[1],)
            if len(e) > 3:
                yield e[:-1]
                yield ("add",) + e[1:][::-1]
        else:
            others = {"mul": ("div",), "div": ("mul",), "<=": (">=", "="), ">=": ("<=",), "=": ("<=",), "shift": ("eval",), "eval": ("shift",), "tsum": ("expec",), "expec": ("variance", "neg"), "variance": ("expec",), "neg": ("tsum",)}
            for o in others.get(op, ()):
                yield (o,) + e[1:]
            if op in ("mul", "div", "<="):
                yield (op, e[2], e[1])
            if op == "wsum":
                yield ("wsum", e[1], e[3], e[2])

    x, p, one, two = ("var", "x"), ("par", "p"), ("lit", 1.0), ("lit", 2.0)
    a: List[Any] = [("pf", "q", "f"), ("psum", "q", "f"), ("mul", p, x), ("wsum", x, ("neg", p), one), ("shift", x, ("add", p, one)), ("eval", x, two)]
    bs: List[Any] = []
    for u, v in product(a, a):
        bs.append(("<=", ("add", u, ("neg", v), one, x), ("div", ("expec", u), p)))
        bs.append(("expec", ("tsum", ("mul", u, ("add", v, two)))))
        bs.append(("=", ("wsum", ("add", u, x), ("mul", p, two), ("add", one, p)), ("variance", v)))
    for e in bs:
        o = build(e)
        res.state(e)
        if not expressions_equal(o, build(e)):
            res.violation(f"{e} is not equal to a rebuilt one", {"expression": e})
            return
        for m in mutate(e):
            if m == e:
                continue
            res.step()
            res.trace()
            o2 = build(m)
            res.outcome(m)
            if expressions_equal(o, o2) or expressions_equal(o2, o):
                res.violation(f"{e} and {m} compare equal", {"left": e, "right": m})
                return


def tolerance_worker(unit: Any, res: Result) -> None:
    values = [0.0, 1.0, 1.0 + 1e-9, 1.0 + 1e-6, 1.1, 2.0, -1.0, 100.0, 100.05, 1e-8, math.inf, -math.inf]
    shapes = [lambda l: l, lambda l: -l, lambda l: var("x") * l + 1, lambda l: var("x").shift(l), lambda l: var("x").time_sum(l, l), lambda l: param("p") / l <= l, lambda l: (var("x") + l).expec()]
    for shape, a, b, at, rt in product(shapes, values, values, (0, 1e-7, 0.06), (0, 1e-8, 1e-3)):
        res.state((shapes.index(shape), a, b, at, rt))
        res.step()
        res.trace()
        expected = a == b or (
            not math.isinf(a) and not math.isinf(b) and abs(a - b) <= max(rt * max(abs(a), abs(b)), at)
        )
        got = expressions_equal(shape(literal(a)), shape(literal(b)), at, rt)
        res.outcome((shapes.index(shape), got, at, rt, a))
        if got != expected:
            res.violation(f"numbers {a} and {b} with tolerances {at}, {rt} compare {got}", [a, b, at, rt])
            return
    for at, rt in ((-1e-3, 0), (0, -1e-3)):
        res.step()
        try:
            expressions_equal(literal(1), literal(1), at, rt)
        except ValueError:
            continue
        res.violation("negative tolerance accepted", [at, rt])


def model_worker(unit: Any, res: Result) -> None:
    bounds = [(lambda: None, None), (lambda: literal(0), 0), (lambda: literal(1), 1), (lambda: param("p"), "p"), (lambda: param("q"), "q"), (lambda: param("p") + 1, "p+1")]
    sts = [IndexingStructure(a, b) for a in (True, False) for b in (True, False)]
    vs: List[Any] = []
    for n, kind, (lb, lbi), (ub, ubi), (k, st) in product(("a", "b"), (float_variable, int_variable), bounds, bounds, list(enumerate(sts))):
        if n == "b" and (lbi not in (None, 0) or ubi is not None):
            continue
        vs.append(((lambda n=n, kind=kind, lb=lb, ub=ub, st=st: kind(n, lb(), ub(), st)), (n, kind.__name__, lbi, ubi, k)))
    for n in ("a", "b"):
        for k, st in enumerate(sts):
            vs.append(((lambda n=n, st=st: bool_var(n, st)), (n, "bool", 0, 1, k)))
    exprs = [(lambda: var("x"), "x"), (lambda: var("y"), "y"), (lambda: param("p") * var("x"), "px"), (lambda: var("x").shift(1), "x+1"), (lambda: var("x").shift(2), "x+2")]
    cs: List[Any] = []
    for n, (e, ei), (lb, lbi), (ub, ubi) in product(("a", "b"), exprs, bounds[1:], bounds[1:]):
        cs.append(((lambda n=n, e=e, lb=lb, ub=ub: Constraint(n, e(), lb(), ub())), (n, ei, lbi, ubi)))
    for n, (e, ei) in product(("a", "b"), exprs):
        cs.append(((lambda n=n, e=e: Constraint(n, e())), (n, ei, None, None)))
        for b, bi in bounds[1:]:
            cs.append(((lambda n=n, e=e, b=b: Constraint(n, e(), lower_bound=b())), (n, ei, bi, None)))
            cs.append(((lambda n=n, e=e, b=b: Constraint(n, e(), upper_bound=b())), (n, ei, None, bi)))
        cs.append(((lambda n=n, e=e: Constraint(n, e() <= param("p"))), (n, ei, "<=p")))
        cs.append(((lambda n=n, e=e: Constraint(n, e() == param("p"))), (n, ei, "=p")))
        cs.append(((lambda n=n, e=e: Constraint(n, e() >= param("p"))), (n, ei, ">=p")))
    ps: List[Any] = []
    for n, f, (k, st) in product(("a", "b", "c"), (float_parameter, int_parameter), enumerate(sts)):
        ps.append(((lambda n=n, f=f, st=st: f(n, st)), (n, f.__name__, k)))
    for what, items in (("variables", vs), ("constraints", cs), ("parameters", ps)):
        built = [(f(), i) for f, i in items]
        again = [(f(), i) for f, i in items]
        for a, i in built:
            res.state((what, i))
            for b, j in again:
                res.step()
                res.trace()
                if (a == b) is not (i == j):
                    res.violation(f"{what} {i} and {j} compare {a == b}", {"left": i, "right": j})
                    return
            res.outcome((what, i))
            for other in (None, 3, "a"):
                if a == other:
                    res.violation(f"{what} {i} equal to {other!r}", None)
                    return


def long_worker(sizes: Any, res: Result) -> None:
    """Long sums, long products, deep nestings which differ at one place"""
    from functools import reduce

    def total(ops: List[Any]) -> Any:
        return X.AdditionNode(list(ops))

    def product_(ops: List[Any]) -> Any:
        return reduce(lambda a, b: a * b, ops)

    def nested(ops: List[Any]) -> Any:
        return reduce(lambda a, b: (b - a).shift(1) / 2, ops)

    def quotient(ops: List[Any]) -> Any:
        return reduce(lambda a, b: b / a, ops)

    def compared(ops: List[Any]) -> Any:
        return total(ops) <= product_(ops)

    for n in sizes:
        for build in (total, product_, nested, quotient, compared):
            def ops() -> List[Any]:
                return [(var("x"), param("p"), literal(float(i)), var(f"v{i}"))[i % 4] for i in range(n)]

            a = build(ops())
            others = [("the same", build(ops()), True), ("a copy", copy_expression(a), True)]
            for k in range(n):
                for what, new in (("variable", var("z")), ("number", literal(-1.0))):
                    o = ops()
                    o[k] = new
                    others.append((f"operand {k} replaced by a {what}", build(o), False))
                if n > 2:
                    o = ops()
                    del o[k]
                    others.append((f"operand {k} removed", build(o), False))
                o = ops()
                o.insert(k, var("z"))
                others.append((f"operand added before {k}", build(o), False))
            o = ops() + [var("z")]
            others.append(("operand added at the end", build(o), False))
            for what, b, want in others:
                res.state((n, build.__name__, what))
                res.step(2)
                if expressions_equal(a, b) is not want or expressions_equal(b, a) is not want:
                    res.violation(f"{build.__name__} of {n} operands, {what}: compare {'different' if want else 'equal'}", {"operands": n, "difference": what})
                    return
            res.trace(len(others))


def explore(run: Run) -> None:
    run.parallel(pairs_worker, [(run.thorough, i, 32) for i in range(32)])
    run.parallel(mutations_worker, [0])
    run.parallel(tolerance_worker, [0])
    run.parallel(long_worker, [[n] for n in list(range(2, 21)) + [32]])
    run.parallel(model_worker, [0])
    run.notes["expressions"] = len(space(run.thorough))
