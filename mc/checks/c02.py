"""
C02: expressions as values. All operator programs up to the bound: each expression has the
arithmetic value of the program that built it, and no operation on it alters its operands.
"""
import operator
from itertools import product
from typing import Any, Dict, List, Tuple

from andromede.expression import literal, param, print_expr, var
from andromede.expression.copy import copy_expression
from andromede.expression.evaluate import EvaluationContext, evaluate
from andromede.expression.evaluate_parameters import ParameterValueProvider, resolve_parameters
from andromede.expression.expression import port_field
from mc.core import Result, Run, time_limit
from mc.nodes import meaning, tree

PROPERTY = "C02"
ASSUMPTIONS = ["values compared to 1e-9 relative (reference computed with Python floats)"]
BOUNDS = {
    "quick": "all programs of two operator levels over 5 expression leaves and 4 plain numbers, with + - * / neg and <= >= ==, 3 assignments; all programs of <=3 operations with sharing over 3 leaves; all node kinds for copy and substitution; chains of 4..25, 40 and 60 operands, 8 mixes of operations, 3 ways to nest",
    "thorough": "all programs of two levels over 7 leaves and 5 numbers, programs of <=4 operations with sharing",
}

ASSIGN: List[Tuple[Dict[str, float], Dict[str, float]]] = [
    ({"x": 3.0, "y": -0.5}, {"p": 7.0, "q": 0.25}),
    ({"x": -1.25, "y": 11.0}, {"p": -2.0, "q": 5.5}),
    ({"x": 0.0, "y": 1.0}, {"p": 1.0, "q": -3.0}),
]

# a value is (python expression or number, [value per assignment])
def leaf(kind: str, v: Any) -> Any:
    if kind == "var":
        return (lambda: var(v)), ("var", v), [a[0][v] for a in ASSIGN]
    if kind == "par":
        return (lambda: param(v)), ("par", v), [a[1][v] for a in ASSIGN]
    if kind == "lit":
        return (lambda: literal(v)), ("lit", v), [v] * 3
    return (lambda: v), ("num", v), [v] * 3


OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}


def apply(op: str, a: float, b: float) -> Any:
    if a is None or b is None:
        return None
    if op == "div" and b == 0:
        return None
    return OPS[op](a, b)


def close(a: Any, b: float) -> bool:
    if isinstance(a, bool) or not isinstance(a, (int, float)):
        return False
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def check_value(obj: Any, vals: List[Any], what: Any, res: Result) -> bool:
    for (vs, ps), expected in zip(ASSIGN, vals):
        if expected is None:
            continue
        got = evaluate(obj, EvaluationContext(vs, ps))
        if not close(got, expected):
            res.violation(f"{what} evaluates to {got}, expected {expected}", {"program": repr(what), "assignment": [vs, ps]})
            return False
    return True


def level(items: List[Any]) -> List[Any]:
    out = []
    for (fa, ta, va), (fb, tb, vb) in product(items, items):
        for op in OPS:
            out.append(combine(op, (fa, ta, va), (fb, tb, vb)))
    for i in items:
        out.append(negated(i))
    return [o for o in out if o is not None]


def combine(op: str, a: Any, b: Any) -> Any:
    fa, ta, va = a
    fb, tb, vb = b
    if ta[0] == "num" and tb[0] == "num":
        return None
    return (lambda: OPS[op](fa(), fb())), (op, ta, tb), [apply(op, x, y) for x, y in zip(va, vb)]


def negated(a: Any) -> Any:
    fa, ta, va = a
    if ta[0] == "num":
        return None
    return (lambda: -fa()), ("neg", ta), [None if v is None else -v for v in va]


def leaves(full: bool) -> List[Any]:
    ls = [leaf("var", "x"), leaf("var", "y"), leaf("par", "p"), leaf("lit", 3.0), leaf("lit", -0.5)]
    ls += [leaf("num", 2), leaf("num", 0.5), leaf("num", -4), leaf("num", 0)]
    if full:
        ls += [leaf("par", "q"), leaf("lit", 0.0), leaf("num", 1)]
    return ls


def pairs_worker(unit: Any, res: Result) -> None:
    full, part, parts = unit
    ls = leaves(full)
    level1 = level(ls)
    operands = [(f, t, v, f(), None) for f, t, v in ls + level1]
    operands = [(f, t, v, o, tree(o) if t[0] != "num" else o) for f, t, v, o, _ in operands]
    with time_limit(800, "building expressions"):
        for i in range(part, len(operands), parts):
            f, t, v, o, snap = operands[i]
            if t[0] != "num":
                res.state(t)
                check_value(o, v, t, res)
                check_value(-o, [None if k is None else -k for k in v], ("neg", t), res)
            for f2, t2, v2, o2, snap2 in operands:
                if t[0] == "num" and t2[0] == "num":
                    continue
                for op in OPS:
                    res.state((op, t, t2))
                    res.step()
                    res.trace()
                    r = OPS[op](o, o2)
                    vals = [apply(op, a, b) for a, b in zip(v, v2)]
                    check_value(r, vals, (op, t, t2), res)
                    res.outcome(tuple(vals))
                if len(res.violations) >= 3:
                    return
        # no operand was altered by any of its uses
        for f, t, v, o, snap in operands:
            if t[0] == "num":
                continue
            if tree(o) != snap:
                res.violation(f"operand {t} altered by operations on it: now {tree(o)}", {"program": t})
                return
    res.sample(operands[part][1])


def comparisons_worker(unit: Any, res: Result) -> None:
    full = unit
    ls = leaves(full)
    items = ls + [combine(op, a, b) for op in ("add", "sub") for a in ls[:4] for b in ls[:7]]
    for (fa, ta, va), (fb, tb, vb) in product(items, items):
        if ta[0] == "num" and tb[0] == "num":
            continue
        for op, f in (("<=", operator.le), (">=", operator.ge), ("=", operator.eq)):
            res.state(("cmp", op, ta, tb))
            res.step()
            res.trace()
            a, b = fa(), fb()
            got = meaning(tree(f(a, b)))
            res.outcome(got)
            if got != meaning(("cmp", op, spec(ta), spec(tb))):
                res.violation(f"{ta} {op} {tb} built as {tree(f(a, b))}", {"program": (op, ta, tb)})
                return
    for bad in ("a", None, [1], {"x": 1}):
        for op in OPS.values():
            for args in ((var("x"), bad), (bad, var("x"))):
                res.step()
                try:
                    r = op(*args)
                except (TypeError, ValueError):
                    continue
                res.violation(f"operation of an expression with {bad!r} gives {r!r}", None)
                return


def spec(t: Any) -> Any:
    if t[0] == "num":
        return ("lit", float(t[1]))
    if t[0] in ("lit", "var", "par"):
        return t
    return (t[0],) + tuple(spec(x) for x in t[1:])


class Params(ParameterValueProvider):
    def __init__(self, values: Dict[str, float]):
        self.values = values

    def get_parameter_value(self, name: str) -> float:
        return self.values[name]

    def get_component_parameter_value(self, component_id: str, name: str) -> float:
        raise KeyError(name)


def programs_worker(unit: Any, res: Result) -> None:
    """
    Histories: a pool of expressions starts with the leaves, each step adds the result of
    one operation on members of the pool (shared, not rebuilt). At each state every member
    still has the value it was created with.
    """
    first, depth = unit
    base = [leaf("var", "x"), leaf("par", "p"), leaf("lit", 2.0)]

    def steps(n: int) -> List[Any]:
        s: List[Any] = []
        for i in range(n):
            s.append(("neg", i))
            s.append(("copy", i))
            s.append(("subst", i))
            for j in range(n):
                for op in OPS:
                    s.append((op, i, j))
        return s

    def run(program: Tuple[Any, ...]) -> Any:
        pool = [(f(), v) for f, _, v in base]
        for st in program:
            if st[0] == "neg":
                o, v = pool[st[1]]
                pool.append((-o, [None if k is None else -k for k in v]))
            elif st[0] == "copy":
                o, v = pool[st[1]]
                pool.append((copy_expression(o), v))
            elif st[0] == "subst":
                # the value is only kept for the assignment substituted
                o, v = pool[st[1]]
                resolved = resolve_parameters(o, Params(ASSIGN[0][1]))
                pool.append((resolved, [v[0], None, None]))
            else:
                (o, v), (o2, v2) = pool[st[1]], pool[st[2]]
                pool.append((OPS[st[0]](o, o2), [apply(st[0], a, b) for a, b in zip(v, v2)]))
        return pool

    def rec(program: Tuple[Any, ...]) -> bool:
        pool = run(program)
        res.state(program)
        res.step(len(program))
        res.trace()
        for i, (o, v) in enumerate(pool):
            if not check_value(o, v, ("member", i, "after", program), res):
                return False
        if len(program) < depth:
            # the last operation only needs the members it can share with earlier ones
            for st in steps(len(base) + len(program)):
                if len(program) == depth - 1 and len(program) > 1 and st[0] in ("mul", "div"):
                    continue
                if not rec(program + (st,)):
                    return False
        return True

    with time_limit(800, "building expressions"):
        rec((first,))
    res.sample([first])


def nodes_worker(unit: Any, res: Result) -> None:
    """Copy and substitution on all node kinds, two levels"""
    x, y, p = var("x"), var("y"), param("p")
    lv: List[Any] = [x, p, literal(2.5), port_field("q", "f"), port_field("q", "f").sum_connections()]

    def grow(es: List[Any]) -> List[Any]:
        out = []
        for e in es:
            out += [-e, e.shift(1), e.shift(-p), e.eval(p + 1), e.eval(0), e.time_sum(), e.time_sum(-1, p), e.time_sum(p, 2), e.expec(), e.variance()]
        for a, b in product(es, es):
            out += [a + b, a - b, a * b, a / b, a <= b, a >= b, a == b]
        return out

    l1 = grow(lv)
    l2 = grow(lv + l1[unit[0] :: unit[1]])
    for e in lv + l1 + l2:
        t = tree(e)
        if not res.state(t):
            continue
        res.step(3)
        res.trace()
        c = copy_expression(e)
        if tree(c) != t:
            res.violation(f"copy of {t} is {tree(c)}", {"expression": t})
            return
        r = resolve_parameters(e, Params({"p": 4.5, "q": -1.0}))
        expected = substitute(t, {"p": 4.5, "q": -1.0})
        if meaning(tree(r)) != meaning(expected):
            res.violation(f"substitution in {t} gives {tree(r)}", {"expression": t})
            return
        print_expr(e)
        if tree(e) != t:
            res.violation(f"{t} altered by a copy, a substitution or printing", {"expression": t})
            return
        res.outcome(meaning(t))
    for e in lv + l1:
        for f in (lambda e: e.time_sum(1), lambda e: e.time_sum(None, 1)):
            res.step()
            try:
                f(e)
            except ValueError:
                continue
            res.violation(f"window sum of {tree(e)} with a single bound accepted", None)
            return


def substitute(t: Any, values: Dict[str, float]) -> Any:
    if t[0] == "par":
        return ("lit", values[t[1]])
    if t[0] in ("lit", "var", "pf", "psum"):
        return t
    return tuple(substitute(k, values) if isinstance(k, tuple) else k for k in t)


def long_worker(sizes: Any, res: Result) -> None:
    """Long chains of operations, from the left, from the right and balanced"""
    ls = leaves(True)
    for n in sizes:
        for ops in (["add"], ["sub"], ["mul"], ["div"], ["add", "sub"], ["mul", "add"], ["sub", "div", "mul", "add"], ["neg", "add", "neg", "sub"]):
            for shape in ("left", "right", "balanced"):
                its = [ls[(i * 5 + n) % len(ls)] for i in range(n)]
                if its[0][1][0] == "num":
                    its[0] = ls[0]
                if its[-1][1][0] == "num":
                    its[-1] = ls[1]
                k = 0
                while len(its) > 1:
                    op = ops[k % len(ops)]
                    k += 1
                    i = {"left": 0, "right": len(its) - 2, "balanced": (k * 3) % (len(its) - 1)}[shape]
                    if op == "neg":
                        its[i] = negated(its[i]) or its[i]
                        continue
                    both = combine(op, its[i], its[i + 1])
                    its[i : i + 2] = [both if both is not None else ls[0]]
                make, t, vals = its[0]
                if len(t) < 2 or t[0] == "num":
                    continue
                # numbers too large to compare are left out
                vals = [v if v is not None and abs(v) < 1e12 else None for v in vals]
                case = {"operands": n, "operations": ops, "shape": shape}
                res.state(("long", n, tuple(ops), shape))
                res.trace()
                res.step(n)
                e = make()
                before = tree(e)
                if not check_value(e, vals, (n, ops, shape), res):
                    return
                c = copy_expression(e)
                r = resolve_parameters(e, Params({"p": 4.5, "q": -1.0}))
                if tree(c) != before or meaning(tree(r)) != meaning(substitute(before, {"p": 4.5, "q": -1.0})):
                    res.violation("copy or substitution of a long expression", case)
                    return
                print_expr(e)
                if tree(e) != before or not check_value(c, vals, ("copy", n, ops, shape), res):
                    res.violation("a long expression is altered by a copy, a substitution or printing", case)
                    return


def explore(run: Run) -> None:
    full = run.thorough
    run.parallel(pairs_worker, [(full, i, 32) for i in range(32)])
    run.parallel(comparisons_worker, [full])
    run.parallel(long_worker, [[n] for n in list(range(4, 26)) + [40, 60]])
    depth = 4 if full else 3
    firsts = []
    for i in range(3):
        firsts += [("neg", i), ("copy", i), ("subst", i)]
        firsts += [(op, i, j) for j in range(3) for op in OPS]
    run.parallel(programs_worker, [(f, depth) for f in firsts])
    k = 4 if full else 12
    run.parallel(nodes_worker, [(i, k) for i in range(k)])
