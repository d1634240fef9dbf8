"""
Agreement of the linear program built by the implementation with the reference
semantics, on packs of constraints (many expressions in one system, for throughput;
a disagreement is then narrowed down to single expressions).
"""
import copy
from typing import Any, Callable, Dict, Iterable, List, Optional, Tuple

from mc.core import Result, raised_by_implementation, time_limit
from mc.impl import build, read_lp
from mc.spec import (
    ConsSpec,
    Expr,
    ModelSpec,
    NonLinear,
    Reference,
    SystemSpec,
    Undefined,
    VarSpec,
    canon_row,
    diff_lp,
)

LIMIT = 120.0


def lit(v: float) -> Expr:
    return ("lit", v)


def var(n: str) -> Expr:
    return ("var", n)


def par(n: str) -> Expr:
    return ("par", n)


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71]
PRIMES += [73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151]


def std_model(id: str = "M") -> ModelSpec:
    """Every kind of indexing, for variables and for parameters"""
    return ModelSpec(
        id,
        params={
            "pts": (True, True),
            "pt": (True, False),
            "ps": (False, True),
            "pc": (False, False),
            "k1": (False, False),
            "k2": (False, False),
        },
        vars={
            "xts": VarSpec(True, True),
            "xt": VarSpec(True, False),
            "xs": VarSpec(False, True),
            "xc": VarSpec(False, False),
        },
    )


def std_data(comp: str, horizon: int, scens: int, off: int = 0) -> Dict[Any, Any]:
    """Distinct values everywhere, so that any wrong lookup is visible"""
    pr = PRIMES
    return {
        (comp, "pts"): (
            "ts",
            [
                [float(pr[(t * scens + s + off) % len(pr)] + 200 * (t + 1)) for s in range(scens)]
                for t in range(horizon)
            ],
            None,
        ),
        (comp, "pt"): ("time", {t: pr[(t + off + 3) % len(pr)] + 0.5 for t in range(horizon)}),
        (comp, "ps"): ("scen", [pr[(s + off + 7) % len(pr)] + 0.25 for s in range(scens)], None),
        (comp, "pc"): ("const", 4.0 + off),
        (comp, "k1"): ("const", 1.0),
        (comp, "k2"): ("const", -2.0),
    }


def std_system(T_abs: int, S: int, comp: str = "c1") -> SystemSpec:
    m = std_model()
    return SystemSpec(
        models={"M": m}, components=[(comp, "M", "component")], data=std_data(comp, T_abs, S)
    )


def with_constraints(
    base: SystemSpec, mid: str, cons: List[ConsSpec]
) -> SystemSpec:
    sys = copy.copy(base)
    sys.models = dict(base.models)
    m = copy.copy(base.models[mid])
    m.cons = list(m.cons) + cons
    sys.models[mid] = m
    return sys


Config = Tuple[List[int], int]  # block, scenarios


def check_system(
    sys: SystemSpec,
    block: List[int],
    S: int,
    res: Result,
    what: str = "",
    solver: str = "GLOP",
    case: Any = None,
    **kw: Any,
) -> bool:
    """The whole linear program equals the reference's. False if a violation was reported"""
    ref = Reference(sys, block, S).lp()
    res.trace()
    res.step(len(ref.rows) + len(ref.vars))
    with time_limit(LIMIT, "building the problem"):
        actual = read_lp(build(sys, block, S, solver, **kw))
    d = diff_lp(ref, actual)
    res.outcome(tuple(sorted(map(repr, map(canon_row, actual.rows)))))
    if d:
        res.violation(f"{what}: linear program differs from its meaning: {d}", case)
        return False
    return True


def check_pack(
    base: SystemSpec,
    mid: str,
    comp: str,
    cons: List[ConsSpec],
    block: List[int],
    S: int,
    res: Result,
    expect_reject: Optional[Callable[[Expr], bool]] = None,
    known: Optional[Callable[[ConsSpec], Optional[str]]] = None,
) -> None:
    """
    Every constraint of the pack, added to model `mid`, yields exactly the rows of its
    meaning. Constraints without meaning (non linear) must be rejected.
    """
    ref = Reference(base, block, S)
    valid: List[ConsSpec] = []
    for c in cons:
        try:
            rows = ref.rows(c, comp)
        except NonLinear:
            res.state(("reject", c.expr, tuple(block), S))
            check_rejected(base, mid, c, block, S, res)
            continue
        except Undefined:
            continue
        res.state((c.expr, c.lb, c.ub, tuple(block), S))
        res.step(len(rows))
        if known is not None and known(c) is not None:
            # recorded finding: either the meaning, or exactly the recorded deviation
            sys1 = with_constraints(base, mid, [c])
            deviation = Reference(sys1, block, S, moving_eval=True).lp()
            d = pack_diff(base, mid, [c], block, S, res)
            if d:
                if pack_diff(base, mid, [c], block, S, res, deviation) is None:
                    res.known_finding(known(c) or "")
                else:
                    res.violation(
                        d, {"constraint": (c.expr, c.lb, c.ub), "block": block, "scenarios": S}
                    )
            continue
        valid.append(c)
    if not valid:
        return
    d = pack_diff(base, mid, valid, block, S, res)
    if d is None:
        return
    # narrow down
    found = False
    for c in valid:
        d1 = pack_diff(base, mid, [c], block, S, res)
        if d1 is not None:
            found = True
            res.violation(d1, {"constraint": (c.expr, c.lb, c.ub), "block": block, "scenarios": S})
            if len(res.violations) >= 2:
                return
    if not found:
        res.violation(d, {"constraints": [c.expr for c in valid][:20], "block": block, "scenarios": S})


def pack_diff(
    base: SystemSpec,
    mid: str,
    cons: List[ConsSpec],
    block: List[int],
    S: int,
    res: Result,
    expected: Any = None,
) -> Optional[str]:
    sys = with_constraints(base, mid, cons)
    res.trace(len(cons))
    try:
        with time_limit(LIMIT, "building the problem"):
            actual = read_lp(build(sys, block, S))
    except Exception as e:
        if not raised_by_implementation(e):
            raise
        return f"valid constraint refused: {type(e).__name__}: {e}"
    for r in actual.rows:
        res.outcome(canon_row(r))
    d = diff_lp(expected or Reference(sys, block, S).lp(), actual)
    return None if d is None else f"linear program differs from its meaning: {d}"


def check_rejected(
    base: SystemSpec, mid: str, c: ConsSpec, block: List[int], S: int, res: Result
) -> None:
    res.trace()
    try:
        with time_limit(LIMIT, "building the problem"):
            p = build(with_constraints(base, mid, [c]), block, S)
    except Exception as e:
        if not raised_by_implementation(e) and not isinstance(e, (ValueError, TypeError)):
            raise
        res.outcome(("rejected", type(e).__name__))
        return
    actual = read_lp(p)
    res.violation(
        f"non-linear constraint accepted, as rows {[canon_row(r) for r in actual.rows][:2]}",
        {"constraint": c.expr, "block": block, "scenarios": S},
    )


def chunks(xs: List[Any], n: int) -> List[List[Any]]:
    return [xs[i : i + n] for i in range(0, len(xs), n)]
