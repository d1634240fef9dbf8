"""
C05: constraints become rows. All arithmetic expressions up to the bound, all comparators
and bound combinations, all indexings, on several (T, S): the rows of the linear program
are exactly the meaning of the constraints.
"""
from itertools import product
from typing import Any, Iterator, List

from mc import names, sizes
from mc.core import Result, Run
from mc.lpcheck import check_pack, chunks, lit, par, std_data, std_model, var
from mc.magnitudes import rows_units, rows_worker
from mc.spec import ConsSpec, Expr, SystemSpec

PROPERTY = "C05"
ASSUMPTIONS = ["coefficients compared to 9 significant digits"]
BOUNDS = {
    "quick": "expressions of <=3 leaves over 4 variables, 4 parameters, 4 literals with + - * / neg (complete), n-ary sums of 3-4, 3 comparators, 8x8 bounds; (T,S) in {(1,1),(1,2),(2,1),(2,2),(3,3)}; two components of the same model; literals and data from 1e-12 to 4e16; one system with 1..33, 48, 100 and 168 timesteps, 1..25, 50 and 101 scenarios; one system with each pair of 38 look-alike names for two constraints",
    "thorough": "as quick, with expressions of <=4 leaves",
}

VARS = [var("xts"), var("xt"), var("xs"), var("xc")]
PARS = [par("pts"), par("pt"), par("ps"), par("pc")]
LITS = [lit(1.0), lit(-1.0), lit(2.5), lit(0.0)]
BIN = ["add", "sub", "mul", "div"]


def leaves() -> List[Expr]:
    return VARS + PARS + LITS


def two() -> List[Expr]:
    r: List[Expr] = []
    for op in BIN:
        for a in leaves():
            for b in leaves():
                r.append((op, a, b))
    for a in leaves():
        r.append(("neg", a))
    return r


def three(full: bool) -> Iterator[Expr]:
    right = leaves() if full else [var("xts"), var("xc"), par("pts"), par("ps"), lit(2.5), lit(-1.0)]
    for e in two():
        yield ("neg", e)
        for op in BIN:
            for r in right:
                yield (op, e, r)
                yield (op, r, e)


def four() -> Iterator[Expr]:
    small = [("add", var("xts"), par("pts")), ("sub", var("xt"), lit(2.5)), ("mul", par("ps"), var("xc")),
             ("div", var("xs"), par("pt")), ("neg", var("xts")), ("sub", par("pc"), par("pt")),
             ("neg", ("sub", var("xc"), var("xts"))), ("add", var("xts"), var("xts"), var("xt"))]
    for a in small:
        for b in small:
            for op in BIN:
                yield (op, a, b)
                yield ("neg", (op, a, b))
                yield ("sub", lit(3.0), (op, a, b))
                yield ("add", (op, a, b), ("neg", a))
                yield ("sub", (op, a, b), b)


def nary() -> Iterator[Expr]:
    xs = [var("xts"), var("xc"), par("pts"), lit(2.5), ("neg", var("xts")), ("mul", par("pt"), var("xs"))]
    for t in product(xs, repeat=3):
        yield ("add",) + t
    for t in product(xs[:4], repeat=4):
        yield ("add",) + t


def deep() -> Iterator[Expr]:
    seeds: List[Expr] = [var("xts"), ("sub", var("xt"), par("pt")), ("mul", par("ps"), var("xc"))]
    level = list(seeds)
    for _ in range(3):
        nxt = []
        for e in level:
            nxt += [("neg", e), ("div", e, lit(2.0)), ("mul", e, par("pc")), ("sub", lit(1.0), e), ("add", e, var("xts")), ("sub", e, ("neg", var("xs")))]
        yield from nxt
        level = nxt


BOUND_EXPRS: List[Any] = [
    None,
    lit(0.0),
    lit(-3.5),
    par("pc"),
    par("pt"),
    par("ps"),
    par("pts"),
    ("sub", ("mul", par("pt"), lit(2.0)), ("div", par("ps"), lit(4.0))),
    ("neg", par("pts")),
]


def system(T: int, S: int) -> SystemSpec:
    data = std_data("a", 5, S)
    data.update(std_data("a_b", 5, S, off=4))
    return SystemSpec(
        models={"M": std_model()},
        components=[("a", "M", "component"), ("a_b", "M", "node")],
        data=data,
    )


def worker(unit: Any, res: Result) -> None:
    T, S, cons = unit
    check_pack(system(T, S), "M", "a", [ConsSpec(*c) for c in cons], list(range(1, T + 1)), S, res)
    res.sample({"constraint": cons[0][1], "T": T, "S": S})


def explore(run: Run) -> None:
    units = []
    exprs = list(dict.fromkeys([*leaves(), *two(), *three(run.thorough), *nary(), *four(), *deep()]))
    if run.thorough:
        exprs += [("sub", a, b) for a in two()[::3] for b in two()[::5]]
        exprs = list(dict.fromkeys(exprs))
    # expressions with each (T, S); the complete set for (2, 2)
    for T, S, every in ((2, 2, 1), (1, 1, 7), (1, 2, 7), (2, 1, 7), (3, 3, 11)):
        sel = exprs if every == 1 else [*leaves(), *two(), *nary(), *four()] + list(deep())[:150]
        cons = []
        for i, e in enumerate(dict.fromkeys(sel)):
            mode = i % 4
            lb = lit(-7.0) if mode in (0, 2) else None
            ub = lit(9.0) if mode in (1, 2) else None
            if mode == 3:
                e = ("cmp", ("<=", "=", ">=")[i % 3], e, lit(4.0))
            cons.append((f"e{i}", e, lb, ub, "operational", i % 5 == 0))
        units += [(T, S, ch) for ch in chunks(cons, 100)]
        # comparators
        sides = [*leaves(), ("sub", var("xts"), par("pt")), ("mul", par("pts"), var("xc")),
                 ("add", var("xs"), lit(1.0)), ("neg", var("xt"))]
        cons = []
        for op in ("<=", "=", ">="):
            for l in sides:
                for r in sides:
                    cons.append((f"k{len(cons)}", ("cmp", op, l, r)))
        units += [(T, S, ch) for ch in chunks(cons, 100)]
        # bounds: instantiated over the indices of the expression and of both bounds
        cons = []
        for e in (*VARS, par("pc"), ("add", var("xc"), par("pt")), ("sub", var("xt"), par("ps"))):
            for lb in BOUND_EXPRS:
                for ub in BOUND_EXPRS:
                    cons.append((f"b{len(cons)}", e, lb, ub))
        units += [(T, S, ch) for ch in chunks(cons, 100)]
    run.parallel(rows_worker, rows_units())
    run.parallel(sizes.worker, sizes.units("ts"))
    run.parallel(names.worker, names.units(["constraint"]))
    run.parallel(worker, units)
