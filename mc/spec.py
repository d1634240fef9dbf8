"""
Reference semantics: what a system of components *means*, as an explicit linear program.

Written from the documentation of the modelling language, with no code shared with the
implementation. Expressions are nested tuples:

 ("lit", v) ("var", name) ("par", name) ("neg", e) ("add", e1, e2, ...) ("sub", a, b)
 ("mul", a, b) ("div", a, b)
 ("shift", e, k)       value of e, k timesteps later (k: constant expression)
 ("eval", e, k)        value of e at timestep k of the block
 ("wsum", e, a, b)     sum of e over the timesteps t+a .. t+b
 ("tsum", e)           sum of e over all the timesteps of the block
 ("expec", e)          mean of e over scenarios
 ("pf", port, field)   the one definition provided through the port
 ("psum", port, field) sum of the definitions provided by all connections of the port
 ("cmp", op, l, r)     op in <= = >=

Denotation is recursive on (t, s): no rewriting, no expansion, no index bookkeeping.
The block is cyclic.
"""
import contextlib
import math
from dataclasses import dataclass, field
from typing import Any, Dict, Iterator, List, Optional, Tuple

Expr = Tuple[Any, ...]
INF = math.inf


class NonLinear(Exception):
    pass


class Undefined(Exception):
    """The reference gives no meaning (division by zero, port without definition...)"""


@dataclass
class VarSpec:
    time: bool = True
    scen: bool = True
    lb: Optional[Expr] = None
    ub: Optional[Expr] = None
    kind: str = "continuous"  # integer, boolean
    context: str = "operational"  # investment, coupling


@dataclass
class ConsSpec:
    name: str
    expr: Expr
    lb: Optional[Expr] = None
    ub: Optional[Expr] = None
    context: str = "operational"
    binding: bool = False


@dataclass
class ModelSpec:
    id: str
    params: Dict[str, Tuple[bool, bool]] = field(default_factory=dict)
    vars: Dict[str, VarSpec] = field(default_factory=dict)
    cons: List[ConsSpec] = field(default_factory=list)
    obj_op: Optional[Expr] = None
    obj_inv: Optional[Expr] = None
    ports: Dict[str, str] = field(default_factory=dict)  # port -> port type
    portdefs: Dict[Tuple[str, str], Expr] = field(default_factory=dict)


@dataclass
class SystemSpec:
    """
    data: {(component, parameter): ("const", v) | ("time", {abs_t: v}) |
           ("scen", [v...], mapping|None) | ("ts", [[v per scenario] per timestep], mapping|None)
           | ("tree", {node: data})}
    """

    models: Dict[str, ModelSpec]
    components: List[Tuple[str, str, str]]  # (id, model, "node" | "component")
    data: Dict[Tuple[str, str], Any] = field(default_factory=dict)
    connections: List[Tuple[str, str, str, str]] = field(default_factory=list)
    port_types: Dict[str, List[str]] = field(default_factory=dict)  # type -> fields

    def model_of(self, comp: str) -> ModelSpec:
        for cid, mid, _ in self.components:
            if cid == comp:
                return self.models[mid]
        raise KeyError(comp)


Key = Tuple[str, str, Optional[int], Optional[int]]


class Lin:
    """c0 + sum(c_k * v_k)"""

    __slots__ = ("coefs", "const")

    def __init__(self, const: float = 0.0, coefs: Optional[Dict[Key, float]] = None):
        self.const = const
        self.coefs = coefs or {}

    def add(self, o: "Lin", f: float = 1.0) -> "Lin":
        r = dict(self.coefs)
        for k, v in o.coefs.items():
            r[k] = r.get(k, 0.0) + f * v
        return Lin(self.const + f * o.const, r)

    def scale(self, f: float) -> "Lin":
        return Lin(self.const * f, {k: v * f for k, v in self.coefs.items()})


class Reference:
    def __init__(
        self,
        system: SystemSpec,
        block: List[int],
        scenarios: int,
        tree_node: str = "",
        moving_eval: bool = False,
    ):
        self.sys = system
        self.block = block
        self.T = len(block)
        self.S = scenarios
        self.tree_node = tree_node
        # the deviation recorded in known_findings.txt (shift-of-evaluated): outer shifts
        # also move the operands taken at a fixed timestep
        self.moving_eval = moving_eval
        self._models = {
            cid: system.models[mid] for cid, mid, _ in system.components
        }

    # -- data ------------------------------------------------------------------
    def data(self, comp: str, par: str, t: Optional[int], s: Optional[int]) -> float:
        return self._value(self.sys.data[(comp, par)], t, s)

    def _value(self, d: Any, t: Optional[int], s: Optional[int]) -> float:
        kind = d[0]
        if kind == "const":
            return d[1]
        if kind == "time":
            assert t is not None
            return d[1][self.block[t % self.T]]
        if kind == "scen":
            assert s is not None
            return d[1][d[2][s] if d[2] is not None else s]
        if kind == "ts":
            assert t is not None and s is not None
            return d[1][self.block[t % self.T]][d[2][s] if d[2] is not None else s]
        if kind == "tree":
            return self._value(d[1][self.tree_node], t, s)
        raise KeyError(kind)

    # -- constants -------------------------------------------------------------
    def constant(self, e: Expr, comp: str, t: Optional[int], s: Optional[int]) -> float:
        op = e[0]
        if op == "lit":
            return float(e[1])
        if op == "par":
            return self.data(comp, e[1], t, s)
        if op == "neg":
            return -self.constant(e[1], comp, t, s)
        if op == "add":
            return sum(self.constant(x, comp, t, s) for x in e[1:])
        if op == "sub":
            return self.constant(e[1], comp, t, s) - self.constant(e[2], comp, t, s)
        if op == "mul":
            return self.constant(e[1], comp, t, s) * self.constant(e[2], comp, t, s)
        if op == "div":
            d = self.constant(e[2], comp, t, s)
            if d == 0:
                raise Undefined("division by zero")
            return self.constant(e[1], comp, t, s) / d
        raise Undefined(op)

    def time_bound(self, e: Expr, comp: str) -> int:
        v = self.constant(e, comp, None, None)
        if v != int(v):
            raise Undefined("time bound is not an integer")
        return int(v)

    # -- denotation ------------------------------------------------------------
    def denote(self, e: Expr, comp: str, t: int, s: int, off: int = 0) -> Lin:
        op = e[0]
        if op == "lit":
            return Lin(float(e[1]))
        if op == "var":
            v = self._models[comp].vars[e[1]]
            return Lin(
                0.0,
                {
                    (
                        comp,
                        e[1],
                        (t % self.T) if v.time else None,
                        s if v.scen else None,
                    ): 1.0
                },
            )
        if op == "par":
            return Lin(self.data(comp, e[1], t, s))
        if op == "neg":
            return self.denote(e[1], comp, t, s, off).scale(-1.0)
        if op == "add":
            r = Lin()
            for x in e[1:]:
                r = r.add(self.denote(x, comp, t, s, off))
            return r
        if op == "sub":
            return self.denote(e[1], comp, t, s, off).add(
                self.denote(e[2], comp, t, s, off), -1.0
            )
        if op == "mul":
            a = self.denote(e[1], comp, t, s, off)
            b = self.denote(e[2], comp, t, s, off)
            if not a.coefs:
                return b.scale(a.const)
            if not b.coefs:
                return a.scale(b.const)
            raise NonLinear()
        if op == "div":
            a = self.denote(e[1], comp, t, s, off)
            b = self.denote(e[2], comp, t, s, off)
            if b.coefs:
                raise NonLinear()
            if b.const == 0:
                raise Undefined("division by zero")
            return Lin(a.const / b.const, {k: v / b.const for k, v in a.coefs.items()})
        if op == "shift":
            k = self.time_bound(e[2], comp)
            return self.denote(e[1], comp, t + k, s, off + k)
        if op == "eval":
            k = self.time_bound(e[2], comp)
            return self.denote(e[1], comp, k + (off if self.moving_eval else 0), s)
        if op == "wsum":
            r = Lin()
            a, b = self.time_bound(e[2], comp), self.time_bound(e[3], comp)
            for k in range(a, b + 1):
                r = r.add(self.denote(e[1], comp, t + k, s, off + k))
            return r
        if op == "tsum":
            r = Lin()
            for k in range(self.T):
                r = r.add(self.denote(e[1], comp, k, s, off))
            return r
        if op == "expec":
            r = Lin()
            for k in range(self.S):
                r = r.add(self.denote(e[1], comp, t, k, off))
            return Lin(r.const / self.S, {k: v / self.S for k, v in r.coefs.items()})
        if op in ("pf", "psum"):
            defs = self.port_definitions(comp, e[1], e[2])
            if op == "pf" and len(defs) != 1:
                raise Undefined("port field must have exactly one definition")
            r = Lin()
            for c, d in defs:
                r = r.add(self.denote(d, c, t, s, off))
            return r
        raise KeyError(op)

    def port_definitions(self, comp: str, port: str, fld: str) -> List[Tuple[str, Expr]]:
        res = []
        for c1, p1, c2, p2 in self.sys.connections:
            for me, other in (((c1, p1), (c2, p2)), ((c2, p2), (c1, p1))):
                if me != (comp, port):
                    continue
                mine = self._models[me[0]].portdefs.get((me[1], fld))
                theirs = self._models[other[0]].portdefs.get((other[1], fld))
                assert (mine is None) != (theirs is None)
                if mine is not None:
                    res.append((me[0], mine))
                else:
                    res.append((other[0], theirs))
        return res

    # -- indexing --------------------------------------------------------------
    def depends(self, e: Expr, comp: str) -> Tuple[bool, bool]:
        op = e[0]
        if op == "lit":
            return (False, False)
        if op == "var":
            v = self._models[comp].vars[e[1]]
            return (v.time, v.scen)
        if op == "par":
            return self._models[comp].params[e[1]]
        if op in ("eval", "tsum"):
            return (False, self.depends(e[1], comp)[1])
        if op == "expec":
            return (self.depends(e[1], comp)[0], False)
        if op in ("shift", "wsum", "neg"):
            return self.depends(e[1], comp)
        if op in ("pf", "psum"):
            sub = [self.depends(d, c) for c, d in self.port_definitions(comp, e[1], e[2])]
        elif op == "cmp":
            sub = [self.depends(x, comp) for x in e[2:]]
        else:
            sub = [self.depends(x, comp) for x in e[1:]]
        return (any(x[0] for x in sub), any(x[1] for x in sub))

    # -- linear program --------------------------------------------------------
    def lp(
        self,
        keep: Tuple[str, ...] = ("operational", "investment", "coupling"),
        objectives: Tuple[str, ...] = ("op", "inv"),
        weight: float = 1.0,
    ) -> "LP":
        lp = LP()
        for comp, _, _ in self.sys.components:
            m = self._models[comp]
            for name, v in m.vars.items():
                if v.context not in keep:
                    continue
                for t in range(self.T) if v.time else [None]:
                    for s in range(self.S) if v.scen else [None]:
                        lb, ub = -INF, INF
                        if v.kind == "boolean":
                            lb, ub = 0.0, 1.0
                        if v.lb is not None:
                            lb = self.constant(v.lb, comp, t, s)
                        if v.ub is not None:
                            ub = self.constant(v.ub, comp, t, s)
                        if lb > ub:
                            raise Undefined("lower bound above upper bound")
                        lp.vars[(comp, name, t, s)] = (
                            lb,
                            ub,
                            v.kind in ("integer", "boolean"),
                        )
            for c in m.cons:
                if c.context not in keep:
                    continue
                for row in self.rows(c, comp):
                    lp.rows.append(row)
            for which, e in (("op", m.obj_op), ("inv", m.obj_inv)):
                if e is not None and which in objectives:
                    lin = self.denote(e, comp, 0, 0)
                    lp.obj_const += weight * lin.const
                    for k, val in lin.coefs.items():
                        lp.obj[k] = lp.obj.get(k, 0.0) + weight * val
        return lp

    def rows(self, c: ConsSpec, comp: str) -> List["Row"]:
        if c.expr[0] == "cmp":
            _, op, l, r = c.expr
            e: Expr = ("sub", l, r)
            lbe: Expr = ("lit", -INF if op == "<=" else 0.0)
            ube: Expr = ("lit", INF if op == ">=" else 0.0)
        else:
            e = c.expr
            lbe = c.lb if c.lb is not None else ("lit", -INF)
            ube = c.ub if c.ub is not None else ("lit", INF)
        deps = [self.depends(x, comp) for x in (e, lbe, ube)]
        time = any(d[0] for d in deps)
        scen = any(d[1] for d in deps)
        res = []
        for t in range(self.T) if time else [0]:
            for s in range(self.S) if scen else [0]:
                lin = self.denote(e, comp, t, s)
                res.append(
                    (
                        lin.coefs,
                        self.constant(lbe, comp, t, s) - lin.const,
                        self.constant(ube, comp, t, s) - lin.const,
                    )
                )
        return res


Row = Tuple[Dict[Any, float], float, float]


class LP:
    def __init__(self) -> None:
        self.vars: Dict[Any, Tuple[float, float, bool]] = {}
        self.rows: List[Row] = []
        self.obj: Dict[Any, float] = {}
        self.obj_const = 0.0

    def rename(self, f: Any) -> "LP":
        r = LP()
        r.vars = {f(k): v for k, v in self.vars.items()}
        r.rows = [({f(k): c for k, c in row.items()}, l, u) for row, l, u in self.rows]
        r.obj = {f(k): c for k, c in self.obj.items()}
        r.obj_const = self.obj_const
        return r


def num(x: float) -> float:
    """Canonical form of a number: 9 significant digits"""
    if x == 0 or math.isinf(x) or math.isnan(x):
        return 0.0 if x == 0 else x
    if abs(x) >= 1e19:
        return INF if x > 0 else -INF
    if abs(x) < TINY[-1]:
        return 0.0
    return float(f"{x:.9g}") + 0.0


TINY = [1e-11]  # what is left of numbers that cancel one another


@contextlib.contextmanager
def nothing_cancels() -> Iterator[None]:
    """Tiny numbers are meant, none is left over by numbers that cancel one another"""
    TINY.append(1e-15)  # the implementation has terms below 1e-16 vanish
    try:
        yield
    finally:
        TINY.pop()


def canon_row(row: Row) -> Any:
    coefs, lb, ub = row
    return (
        tuple(
            sorted(
                ((k, num(c)) for k, c in coefs.items() if num(c) != 0), key=repr
            )
        ),
        num(lb),
        num(ub),
    )


def canon_lp(lp: LP, with_names: bool = True) -> Any:
    return (
        tuple(sorted(((k, (num(a), num(b), c)) for k, (a, b, c) in lp.vars.items()), key=repr)),
        tuple(sorted((canon_row(r) for r in lp.rows), key=repr)),
        tuple(sorted(((k, num(c)) for k, c in lp.obj.items() if num(c) != 0), key=repr)),
        num(lp.obj_const),
    )


def diff_lp(expected: LP, actual: LP) -> Optional[str]:
    """None if both linear programs are the same, otherwise a description"""
    e, a = canon_lp(expected), canon_lp(actual)
    if e == a:
        return None
    out = []
    for what, x, y in zip(("variables", "rows", "objective"), e, a):
        if x != y:
            from collections import Counter

            cx, cy = Counter(x), Counter(y)
            out.append(
                f"{what}: expected only {list((cx - cy).elements())[:4]}"
                f" / actual only {list((cy - cx).elements())[:4]}"
            )
    if e[3] != a[3]:
        out.append(f"objective constant: expected {e[3]} / actual {a[3]}")
    return "; ".join(out)


def diff_lp_close(expected: LP, actual: LP, rel: float) -> Optional[str]:
    """The same up to a relative tolerance (for files written with few digits)"""

    def close(a: float, b: float) -> bool:
        a, b = num(a), num(b)
        return a == b or (
            not math.isinf(a) and not math.isinf(b) and math.isclose(a, b, rel_tol=rel, abs_tol=1e-9)
        )

    if set(expected.vars) != set(actual.vars):
        return f"variables {sorted(map(repr, set(expected.vars) ^ set(actual.vars)))[:6]}"
    for k, (l, u, i) in expected.vars.items():
        l2, u2, i2 = actual.vars[k]
        if not (close(l, l2) and close(u, u2) and i == i2):
            return f"variable {k}: expected {(l, u, i)} / actual {(l2, u2, i2)}"
    for k in {*expected.obj, *actual.obj}:
        if not close(expected.obj.get(k, 0.0), actual.obj.get(k, 0.0)):
            return f"cost of {k}: expected {expected.obj.get(k)} / actual {actual.obj.get(k)}"
    if not close(expected.obj_const, actual.obj_const):
        return f"objective constant: expected {expected.obj_const} / actual {actual.obj_const}"

    def support(row: Row) -> Any:
        return frozenset(k for k, c in row[0].items() if num(c) != 0)

    by: Dict[Any, List[Row]] = {}
    for r in actual.rows:
        by.setdefault(support(r), []).append(r)
    for r in expected.rows:
        for cand in by.get(support(r), []):
            if close(r[1], cand[1]) and close(r[2], cand[2]) and all(close(r[0][k], cand[0][k]) for k in support(r)):
                by[support(r)].remove(cand)
                break
        else:
            return f"row {canon_row(r)} is missing; same columns: {[canon_row(x) for x in by.get(support(r), [])][:3]}"
    left = [canon_row(r) for rs in by.values() for r in rs]
    if left:
        return f"rows {left[:3]} in excess"
    return None
