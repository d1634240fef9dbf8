"""
From the implementation's expression objects to plain tuples (those of mc.spec), and a
representation-independent meaning of such tuples.

meaning(e) interprets an expression in a large prime field at fixed generic points:
variables and parameters are functions of (name, time, scenario) given by a hash, time is
a field element, so shifts by any amount are meaningful. Two expressions have the same
meaning iff they are equal for all values, up to a collision of probability < 2**-50.
"""
import hashlib
from fractions import Fraction
from functools import lru_cache
from typing import Any

from andromede.expression import expression as x

from mc.core import Violation

P = (1 << 61) - 1


def tree(n: Any) -> Any:
    """Tuple form of an expression object"""
    if isinstance(n, x.LiteralNode):
        return ("lit", float(n.value))
    if isinstance(n, x.VariableNode):
        return ("var", n.name)
    if isinstance(n, x.ParameterNode):
        return ("par", n.name)
    if isinstance(n, x.PortFieldNode):
        return ("pf", n.port_name, n.field_name)
    if isinstance(n, x.PortFieldAggregatorNode):
        o = tree(n.operand)
        return ("psum" if n.aggregator == "PortSum" else n.aggregator,) + o[1:]
    if isinstance(n, x.NegationNode):
        return ("neg", tree(n.operand))
    if isinstance(n, x.AdditionNode):
        return ("add",) + tuple(tree(o) for o in n.operands)
    if isinstance(n, x.MultiplicationNode):
        return ("mul", tree(n.left), tree(n.right))
    if isinstance(n, x.DivisionNode):
        return ("div", tree(n.left), tree(n.right))
    if isinstance(n, x.ComparisonNode):
        op = {"LESS_THAN": "<=", "EQUAL": "=", "GREATER_THAN": ">="}[n.comparator.name]
        return ("cmp", op, tree(n.left), tree(n.right))
    if isinstance(n, x.TimeShiftNode):
        return ("shift", tree(n.operand), tree(n.time_shift))
    if isinstance(n, x.TimeEvalNode):
        return ("eval", tree(n.operand), tree(n.eval_time))
    if isinstance(n, x.TimeSumNode):
        return ("wsum", tree(n.operand), tree(n.from_time), tree(n.to_time))
    if isinstance(n, x.AllTimeSumNode):
        return ("tsum", tree(n.operand))
    if isinstance(n, x.ScenarioOperatorNode):
        return ({"Expectation": "expec", "Variance": "variance"}[n.name], tree(n.operand))
    # a node kind this harness does not know, e.g. a dedicated subtraction
    name = type(n).__name__
    if not isinstance(n, x.ExpressionNode):
        raise Violation(f"{n!r} was obtained where an expression is expected")
    if name in ("SubstractionNode", "SubtractionNode"):
        return ("sub", tree(n.left), tree(n.right))
    raise TypeError(f"unexpected node {name}: {n!r}")


@lru_cache(maxsize=None)
def H(*key: Any) -> int:
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=16).digest(), "big") % P


def number(v: float) -> int:
    f = Fraction(repr(float(v)))
    return f.numerator * pow(f.denominator, P - 2, P) % P


class _Undef(Exception):
    pass


def meaning(e: Any) -> Any:
    try:
        return (_m(e, H("time"), "s0"), _m(e, H("time", 2), "s1"))
    except _Undef:
        return "division by zero"


def _m(e: Any, t: int, s: Any) -> int:
    op = e[0]
    if op == "lit":
        return number(e[1])
    if op in ("var", "par"):
        return H(op, e[1], t, s)
    if op in ("pf", "psum"):
        return H(op, e[1], e[2], t, s)
    if op == "neg":
        return -_m(e[1], t, s) % P
    if op == "add":
        return sum(_m(o, t, s) for o in e[1:]) % P
    if op == "sub":
        return (_m(e[1], t, s) - _m(e[2], t, s)) % P
    if op == "mul":
        return _m(e[1], t, s) * _m(e[2], t, s) % P
    if op == "div":
        d = _m(e[2], t, s)
        if d == 0:
            raise _Undef()
        return _m(e[1], t, s) * pow(d, P - 2, P) % P
    if op == "shift":
        return _m(e[1], (t + _m(e[2], t, s)) % P, s)
    if op == "eval":
        return _m(e[1], H("abs", _m(e[2], t, s)), s)
    if op == "wsum":
        a, b = _m(e[2], t, s), _m(e[3], t, s)
        inner = [_m(e[1], (t + k) % P, s) for k in (a, b, H("k1", a, b), H("k2", a, b))]
        return (inner[0] + inner[1] + H("w1", a, b) * inner[2] + H("w2", a, b) * inner[3]) % P
    if op == "tsum":
        return (H("tsum1") * _m(e[1], H("tau1"), s) + H("tsum2") * _m(e[1], H("tau2"), s)) % P
    if op in ("expec", "variance"):
        return (H(op, 1) * _m(e[1], t, "e1") + H(op, 2) * _m(e[1], t, "e2")) % P
    if op == "cmp":
        d = (_m(e[2], t, s) - _m(e[3], t, s)) % P
        if e[1] == "=":
            return H("cmp", "=", min(d, -d % P))
        return H("cmp", "<=", d if e[1] == "<=" else -d % P)
    raise KeyError(op)
