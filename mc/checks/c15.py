"""
C15: the output gives each variable its own optimal value, written values are read back, and
outputs are equal exactly when the same components and variables hold the same values, but
for those that are ignored.
"""
import math
from itertools import product
from typing import Any, Dict, List, Tuple

from andromede.simulation import BendersSolution, OutputValues
from mc import names as look_alike
from mc.core import Result, Run, time_limit
from mc.impl import build
from mc.lpcheck import chunks, lit, par, std_data, var
from mc.spec import ConsSpec, ModelSpec, SystemSpec, VarSpec

PROPERTY = "C15"
ASSUMPTIONS = [
    "the shape of a variable indexed by time, read on a block of a single timestep, is not specified (a scalar or a list of one value)",
    "asking for a component or variable which does not exist creates it: the histories only compare outputs whose variables were all written or ignored",
]
BOUNDS = {
    "quick": "solutions of problems with T in 1..4 (contiguous or offset blocks), S in 1..3, 1..3 components and nodes, variables of the 4 indexings in 3 kinds, and up to 24 timesteps, 25 scenarios, 25 components, 14 sets of look-alike identifiers of components; all pairs of 26 written values; all histories of 3 operations among 40 on two outputs, from 2 starting points",
    "thorough": "the same with T in 1..6, S in 1..4 and histories of 4 operations",
}


def scalar(v: Any) -> Any:
    while isinstance(v, list) and len(v) == 1:
        v = v[0]
    return v


def same(a: Any, b: Any) -> bool:
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return math.isclose(a, b, rel_tol=1e-7, abs_tol=1e-7)


# -- solutions --------------------------------------------------------------------
VARS = {"xts": (True, True), "xt": (True, False), "xs": (False, True), "xc": (False, False)}


def solution_system(comps: List[Tuple[str, str]], T_abs: int, S: int, kind: str) -> SystemSpec:
    """Each variable is forced to the value of a parameter with the same indexing"""
    m = ModelSpec(
        "M",
        params={"p" + k[1:]: ix for k, ix in VARS.items()},
        vars={k: VarSpec(t, s, kind=kind) for k, (t, s) in VARS.items()},
        cons=[ConsSpec("c" + k, ("cmp", "=", var(k), par("p" + k[1:]))) for k in VARS],
        obj_op=("expec", ("tsum", ("add", *[var(k) for k in VARS]))),
    )
    data: Dict[Any, Any] = {}
    for i, (c, _) in enumerate(comps):
        n = 100 * (i + 1)
        data[(c, "pts")] = ("ts", [[float(n + 10 * t + s) for s in range(S)] for t in range(T_abs)], None)
        data[(c, "pt")] = ("time", {t: float(n + 50 + t) for t in range(T_abs)})
        data[(c, "ps")] = ("scen", [float(n + 60 + s) for s in range(S)], None)
        data[(c, "pc")] = ("const", float(n + 70))
    return SystemSpec({"M": m}, [(c, "M", k) for c, k in comps], data)


def expected(sys: SystemSpec, comp: str, name: str, block: List[int], S: int) -> Any:
    d = sys.data[(comp, "p" + name[1:])]
    if name == "xc":
        return d[1]
    if name == "xs":
        return [d[1][s] for s in range(S)] if S > 1 else d[1][0]
    if name == "xt":
        return [[d[1][t] for t in block]]
    return [[d[1][t][s] for t in block] for s in range(S)]


def solution_worker(unit: Any, res: Result) -> None:
    comps, block, S, kind = unit
    sys = solution_system(comps, max(block) + 1, S, kind)
    case = {"components": comps, "block": block, "scenarios": S, "kind": kind}
    with time_limit(120):
        problem = build(sys, block, S, "GLOP" if kind == "continuous" else "CBC")
        status = problem.solver.Solve()
        out = OutputValues(problem)
    if status != problem.solver.OPTIMAL:
        res.violation("problem with fixed variables is not solved", case)
        return
    hand = OutputValues()
    for c, _ in comps:
        for name in VARS:
            exp = expected(sys, c, name, block, S)
            act = out.component(c).var(name).value
            res.state((repr(case), c, name))
            res.trace()
            res.step(len(block) * S)
            res.outcome(repr(act))
            ok = same(exp, act)
            if not ok and len(block) == 1:
                # one timestep: [[a], [b]] may be read as [a, b], and [[a]] as a
                ok = same(scalar(exp), scalar(act)) or (
                    isinstance(exp, list) and isinstance(act, list) and same([scalar(x) for x in exp], [scalar(x) for x in act])
                )
            if not ok:
                res.violation(f"output of {c}.{name}: {act} instead of {exp}", case)
                return
            hand.component(c).var(name).value = exp
    # nothing else, nothing less
    if not (out.is_close(hand, rel_tol=1e-6) and hand.is_close(out, rel_tol=1e-6)):
        res.violation("the output is not close to the same values written by hand", case)
    for c, _ in comps:
        for name in VARS:
            v = hand.component(c).var(name)
            old = expected(sys, c, name, block, S)
            for i in positions(old):
                v.value = altered(old, i, 1.0)
                res.step()
                if out.is_close(hand, rel_tol=1e-6) or hand.is_close(out, rel_tol=1e-6) or out == hand:
                    res.violation(f"a difference of {c}.{name} at {i} is not seen", case)
                    return
                v.ignore = True
                if not (out.is_close(hand, rel_tol=1e-6) and hand.is_close(out, rel_tol=1e-6)):
                    res.violation(f"ignored variable {c}.{name} is compared", case)
                    return
                v.ignore = False
            v.value = old
    res.sample(case)


def positions(v: Any, at: Tuple[int, ...] = ()) -> List[Tuple[int, ...]]:
    if not isinstance(v, list):
        return [at]
    return [p for i, x in enumerate(v) for p in positions(x, at + (i,))]


def altered(v: Any, at: Tuple[int, ...], by: float) -> Any:
    if not at:
        return v + by
    return [altered(x, at[1:], by) if i == at[0] else x for i, x in enumerate(v)]


# -- values written by hand -------------------------------------------------------
def written_values() -> List[Any]:
    vals: List[Any] = [0.0, 1.0, -1.0, 2.5, 1e20]
    vals += [[a, b] for a in (1.0, 2.0) for b in (1.0, 3.0)]
    vals += [[1.0, 2.0, 3.0], [0.0, 0.0]]
    vals += [[[1.0, 2.0]], [[2.0, 1.0]], [[1.0, 2.0, 3.0]], [[0.0, 0.0]]]
    vals += [[[1.0, 2.0], [3.0, 4.0]], [[1.0, 3.0], [2.0, 4.0]], [[1.0, 2.0], [3.0, 5.0]], [[2.0, 2.0], [3.0, 4.0]], [[1.0, 2.0], [1.0, 2.0]]]
    vals += [[[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], [[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]], [[1.0, 4.0], [2.0, 5.0], [3.0, 6.0]]]
    vals += [[[0.0, 0.0], [0.0, 0.0]], [[1.0, 2.0], [3.0, 4.0], [5.0, 7.0]]]
    return vals


def write_worker(unit: Any, res: Result) -> None:
    vals = written_values()
    first, = unit
    for second in vals:
        # second overwrites first, in the same output
        out = OutputValues()
        v = out.component("c").var("v")
        v.value = first
        if v.value != first or out.component("c").var("v").value != first:
            res.violation(f"wrote {first}, read {v.value}", None)
            return
        other = OutputValues()
        other.component("c").var("v").value = second
        res.trace(2)
        res.state(("write", repr(first), repr(second)))
        res.step(4)
        want = first == second
        got = (out == other, other == out, out.is_close(other), other.is_close(out), not (out != other))
        res.outcome(got)
        if set(got) != {want}:
            res.violation(f"comparison of outputs holding {first} and {second}: {got}", None)
        v.value = second
        if v.value != second or not (out == other) or not other.is_close(out):
            res.violation(f"wrote {first} then {second}, read {v.value}", None)
        str(out)
        if v.value != second:
            res.violation("printing changes the output", None)
    # tolerance, at each position
    for at in positions(first):
        for rel_tol, abs_tol, delta, close in (
            (1e-9, 0.0, 0.0, True), (0.0, 0.5, 0.25, True), (0.0, 0.5, 1.0, False),
            (0.5, 0.0, 0.0, True), (1e-9, 0.5, -0.25, True), (1e-9, 0.5, -1.0, False),
        ):
            if abs(first if not at else 0) >= 1e20:
                continue
            a, b = OutputValues(), OutputValues()
            a.component("c").var("v").value = first
            b.component("c").var("v").value = altered(first, at, delta)
            res.step(2)
            res.state(("tol", repr(first), at, rel_tol, abs_tol, delta))
            got2 = (a.is_close(b, rel_tol=rel_tol, abs_tol=abs_tol), b.is_close(a, rel_tol=rel_tol, abs_tol=abs_tol))
            if set(got2) != {close}:
                res.violation(f"is_close({first}, altered by {delta} at {at}, {rel_tol}, {abs_tol}) = {got2}", None)
        # relative tolerance
        x = first
        for i in at:
            x = x[i]
        for rel, delta in ((0.1, 0.05 * x), (0.1, 0.25 * x), (0.001, 0.0005 * x), (0.001, 0.01 * x), (1e-14, 4e-15 * x), (1e-14, 4e-14 * x), (1e-6, 1e-10 * x)):
            a, b = OutputValues(), OutputValues()
            a.component("c").var("v").value = first
            b.component("c").var("v").value = altered(first, at, delta)
            want = math.isclose(x, x + delta, rel_tol=rel, abs_tol=0.0)
            got2 = (a.is_close(b, rel_tol=rel), b.is_close(a, rel_tol=rel))
            res.step(2)
            if set(got2) != {want}:
                res.violation(f"is_close({first}, altered by {delta} at {at}, rel {rel}) = {got2}", None)


# -- histories --------------------------------------------------------------------
def operations(full: bool) -> List[Any]:
    ops: List[Any] = []
    for who in ("A", "B"):
        for c, v in (("c", "v"), ("c", "w"), ("d", "v")):
            for val in (1.0, 1.0 + 1e-11, [[1.0, 2.0]], [1.0, 2.0]):
                if c == "d" and isinstance(val, list):
                    continue
                ops.append(("set", who, c, v, val))
            ops.append(("ivar", who, c, v, True))
            ops.append(("ivar", who, c, v, False))
        for c in ("c", "d"):
            ops.append(("icomp", who, c, True))
            ops.append(("icomp", who, c, False))
    return ops


class Model:
    """outputs as dictionaries: {comp: [ignored, {var: [ignored, value]}]}"""

    def __init__(self) -> None:
        self.o: Dict[str, Dict[str, Any]] = {"A": {}, "B": {}}

    def comp(self, who: str, c: str) -> Any:
        return self.o[who].setdefault(c, [False, {}])

    def var(self, who: str, c: str, v: str) -> Any:
        return self.comp(who, c)[1].setdefault(v, [False, None])

    def apply(self, op: Any) -> None:
        if op[0] == "set":
            self.var(*op[1:4])[1] = op[4]
        elif op[0] == "ivar":
            self.var(*op[1:4])[0] = op[4]
        else:
            self.comp(*op[1:3])[0] = op[3]

    def comparable(self) -> bool:
        return all(
            v[1] is not None or v[0] or c[0]
            for o in self.o.values()
            for c in o.values()
            for v in c[1].values()
        ) and all(c[1] or c[0] for o in self.o.values() for c in o.values())

    def equal(self, tol: float) -> bool:
        def veq(a: Any, b: Any) -> bool:
            if a[0] or b[0]:
                return True
            if isinstance(a[1], list) != isinstance(b[1], list) or repr(type(a[1])) != repr(type(b[1])):
                return False
            pa, pb = positions(a[1]), positions(b[1])
            if pa != pb:
                return False

            def at(v: Any, p: Any) -> Any:
                for i in p:
                    v = v[i]
                return v

            return all(
                at(a[1], p) == at(b[1], p) if tol == 0 else math.isclose(at(a[1], p), at(b[1], p), rel_tol=tol)
                for p in pa
            )

        def meq(a: Dict[str, Any], b: Dict[str, Any], eq: Any) -> bool:
            return (
                all(a[k][0] for k in a.keys() - b.keys())
                and all(b[k][0] for k in b.keys() - a.keys())
                and all(eq(a[k], b[k]) for k in a.keys() & b.keys())
            )

        def ceq(a: Any, b: Any) -> bool:
            return bool(a[0] or b[0] or meq(a[1], b[1], veq))

        return meq(self.o["A"], self.o["B"], ceq)


def run_history(hist: Any, res: Result) -> bool:
    m = Model()
    real = {"A": OutputValues(), "B": OutputValues()}
    for op in hist:
        m.apply(op)
        comp = real[op[1]].component(op[2])
        if op[0] == "set":
            comp.var(op[3]).value = op[4]
        elif op[0] == "ivar":
            comp.var(op[3]).ignore = op[4]
        else:
            comp.ignore = op[3]
        res.step()
    res.trace()
    res.state(repr(m.o))
    a, b = real["A"], real["B"]
    for who in real:
        for c, (ig, vs) in m.o[who].items():
            for v, (_, val) in vs.items():
                if val is not None and real[who].component(c).var(v).value != val:
                    res.violation(f"value of {who}.{c}.{v}", {"history": hist})
                    return False
    if not m.comparable():
        return True
    want = (m.equal(0), m.equal(0), m.equal(1e-9), m.equal(1e-9))
    got = (a == b, b == a, a.is_close(b), b.is_close(a))
    res.outcome(got)
    if got != want:
        res.violation(f"comparisons (==, reversed, is_close, reversed) are {got} instead of {want}", {"history": hist})
        return False
    return True


def history_worker(unit: Any, res: Result) -> None:
    prefixes, ops, n = unit
    for pre in prefixes:
        for h in product(ops, repeat=n):
            if not run_history(list(pre) + list(h), res):
                return
    res.sample({"history": list(prefixes[0]) + [ops[0], ops[-1]]})


# -- Benders solutions ------------------------------------------------------------
def benders_worker(unit: Any, res: Result) -> None:
    def mk(cost: float, values: Dict[str, float], **kw: Any) -> Any:
        return BendersSolution({"solution": dict(overall_cost=cost, values=values, investment_cost=1.0, operational_cost=2.0, **kw)})

    costs = [0.0, 5e-10, 100.0, 100.0 * (1 + 1e-11), 101.0]
    names: List[Dict[str, float]] = [{}, {"a": 1.0}, {"b": 1.0}, {"a": 1.0, "b": 2.0}, {"b": 2.0, "a": 1.0}, {"a": 2.0, "b": 1.0}, {"a": 1.0 + 1e-12, "b": 2.0}, {"a": 1.0, "b": 2.5}, {"a": 0.0}, {"a": 5e-10}]
    for (c1, v1), (c2, v2) in product(product(costs, names), repeat=2):
        s1, s2 = mk(c1, v1), mk(c2, v2)
        res.state((c1, repr(v1), c2, repr(v2)))
        res.trace()
        res.step(2)
        eq = c1 == c2 and v1 == v2
        close = math.isclose(c1, c2, rel_tol=1e-9) and v1.keys() == v2.keys() and all(math.isclose(v1[k], v2[k], rel_tol=1e-9) for k in v1)
        loose = math.isclose(c1, c2, abs_tol=0.75) and v1.keys() == v2.keys() and all(math.isclose(v1[k], v2[k], abs_tol=0.75) for k in v1)
        got = (s1 == s2, s1.is_close(s2), s1.is_close(s2, abs_tol=0.75))
        if got != (eq, close, loose):
            res.violation(f"Benders solutions compare {got} instead of {(eq, close, loose)}", {"s1": (c1, v1), "s2": (c2, v2)})
            return


def explore(run: Run) -> None:
    Ts, Ss = (6, 4) if run.thorough else (4, 3)
    blocks = [list(range(t)) for t in range(1, Ts + 1)] + [[2, 3, 4], [1], [3, 0], [0, 2, 5]]
    comps = [
        [("c1", "component")],
        [("c1", "component"), ("n", "node")],
        [("b", "component"), ("a", "node"), ("c", "component")],
    ]
    units = [(c, b, s, k) for c in comps for b in blocks for s in range(1, Ss + 1) for k in ("continuous", "integer")]
    units += [(comps[1], list(range(t)), s, "continuous") for t, s in ((9, 1), (10, 1), (11, 2), (12, 3), (24, 1), (1, 10), (2, 11), (3, 14), (1, 25), (13, 12))]
    units += [([(f"c{i}", "component" if i % 3 else "node") for i in range(n)], [0, 1], 2, "continuous") for n in (10, 11, 12, 25)]
    units += [([(x, "component" if i % 2 else "node") for i, x in enumerate(group)], [0, 1], 2, "continuous") for group in look_alike.FREE]
    run.parallel(solution_worker, units)
    run.parallel(write_worker, [(v,) for v in written_values()])
    ops = operations(run.thorough)
    starts: List[Any] = [
        (),
        (("set", "A", "c", "v", 1.0), ("set", "B", "c", "v", 1.0), ("set", "A", "d", "v", 1.0), ("set", "B", "d", "v", 1.0)),
    ]
    n = 3 if run.thorough else 2
    pre = [list(s) + [o] for s in starts for o in ops]
    run.parallel(history_worker, [([p], ops, n) for p in pre])
    run.local(benders_worker)
