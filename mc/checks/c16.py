"""
C16: linear expressions obey arithmetic and are values. Explicit-state exploration: all
sequences of operations on three registers, replayed on the real objects, each register
compared after each step with a coefficient map.
"""
import math
from itertools import permutations, product
from typing import Any, Dict, List, Optional, Tuple

from andromede.simulation.linear_expression import LinearExpression, Term
from mc.core import Result, Run, Violation

PROPERTY = "C16"
ASSUMPTIONS = ["coefficients are dyadic numbers, so that the arithmetic of the model is exact; numbers below 1e-16 are outside the bound"]
BOUNDS = {
    "quick": "3 registers, all pairs of operations among 153 (4 binary operators, pure or in place, negation) from all 120 triples of a 10-expression alphabet (distinct components, names, timesteps, scenarios, missing indices); the same with one operation from all 336 triples of 8 expressions whose numbers go from 2**-30 to 2**20 or are 2**-20 away from 1; all lists of <=4 terms of 7; expressions of 4..39, 64, 100 and 200 terms; all equality pairs reached",
    "thorough": "the same with all sequences of 3 operations from 30 triples, and all ordered triples for 2 operations",
}

Key = Tuple[str, str, Optional[int], Optional[int]]
Lin = Tuple[Dict[Key, float], float]

X: Key = ("c", "x", 0, 0)
KEYS: List[Key] = [X, ("d", "x", 0, 0), ("c", "y", 0, 0), ("c", "x", 1, 0), ("c", "x", 0, 1), ("c", "x", None, 0), ("c", "x", 0, None)]


def real(e: Lin, as_list: bool = True) -> LinearExpression:
    return LinearExpression([Term(c, *k) for k, c in e[0].items()], e[1])


def read(x: LinearExpression) -> Lin:
    coefs: Dict[Key, float] = {}
    for k, t in x.terms.items():
        key = (t.component_id, t.variable_name, t.time_index, t.scenario_index)
        if key in coefs:
            raise Violation(f"two terms on {key}")
        if (k.component_id, k.variable_name, k.time_index, k.scenario_index) != key:
            raise Violation(f"term {t} stored under {k}")
        coefs[key] = t.coefficient
    return coefs, x.constant


class Refused(Exception):
    pass


def norm(c: Dict[Key, float], k: float) -> Lin:
    return {x: v for x, v in c.items() if v != 0}, k


def calc(op: str, a: Lin, b: Lin) -> Lin:
    if op in "+-":
        s = 1 if op == "+" else -1
        c = dict(a[0])
        for k, v in b[0].items():
            c[k] = c.get(k, 0.0) + s * v
        return norm(c, a[1] + s * b[1])
    if op == "*":
        if a[0] and b[0]:
            raise Refused
        lin, m = (a, b[1]) if a[0] else (b, a[1])
        return norm({k: v * m for k, v in lin[0].items()}, lin[1] * m)
    if b[0] or b[1] == 0:
        raise Refused
    return norm({k: v / b[1] for k, v in a[0].items()}, a[1] / b[1])


def apply(regs: List[Any], op: Tuple[Any, ...]) -> None:
    if op[0] == "neg":
        regs[op[1]] = -regs[op[2]]
        return
    kind, o, i, j, k = op
    a, b = regs[j], regs[k]
    if kind == "pure":
        regs[i] = a + b if o == "+" else a - b if o == "-" else a * b if o == "*" else a / b
    else:
        if o == "+":
            a += b
        elif o == "-":
            a -= b
        elif o == "*":
            a *= b
        else:
            a /= b
        regs[j] = a


def model(regs: List[Lin], op: Tuple[Any, ...]) -> List[Lin]:
    out = list(regs)
    if op[0] == "neg":
        out[op[1]] = ({k: -v for k, v in regs[op[2]][0].items()}, -regs[op[2]][1])
    else:
        out[op[2]] = calc(op[1], regs[op[3]], regs[op[4]])
    return out


OPS: List[Tuple[Any, ...]] = (
    [("pure", o, i, j, k) for o in "+-*/" for i in range(3) for j in range(3) for k in range(3)]
    + [("inplace", o, j, j, k) for o in "+-*/" for j in range(3) for k in range(3)]
    + [("neg", i, j) for i in range(3) for j in range(3)]
)

ALPHABET: List[Lin] = [
    ({}, 0.0),
    ({}, 1.0),
    ({}, -2.0),
    ({X: 1.0}, 0.0),
    ({X: -1.0}, 0.5),
    ({KEYS[1]: 2.0, X: 4.0}, 1.0),
    ({KEYS[2]: 1.0, KEYS[3]: -3.0}, 0.0),
    ({KEYS[4]: 1.0, X: 1.0}, -1.0),
    ({KEYS[5]: 2.0, KEYS[6]: -1.0, X: 1.0}, 0.0),
    ({}, 4.0),
]


def compare(regs: List[Lin], objs: List[Any], res: Result, case: Any) -> bool:
    for i in range(3):
        got = read(objs[i])
        if got != regs[i]:
            res.violation(f"register {i} holds {got} instead of {regs[i]}", case)
            return False
        if objs[i].is_zero() != (not regs[i][0] and regs[i][1] == 0):
            res.violation(f"is_zero of {got}", case)
            return False
    for i, j in ((0, 1), (1, 2), (2, 0), (1, 1)):
        if (objs[i] == objs[j]) != (regs[i] == regs[j]):
            res.violation(f"equality of {regs[i]} and {regs[j]}", case)
            return False
    return True


def explore_from(regs: List[Lin], hist: List[Any], start: Any, depth: int, res: Result, wide: bool = False) -> bool:
    for op in OPS:
        try:
            nxt: Any = model(regs, op)
        except Refused:
            nxt = None
        if wide and nxt is not None and (not _exact(op, regs) or any(0 < abs(v) < 1e-14 for c, k in nxt for v in [*c.values(), k])):
            continue
        # replayed from the start, on fresh objects
        objs = [real(x) for x in start]
        for h in hist:
            try:
                apply(objs, h)
            except (ValueError, ZeroDivisionError):
                pass
        case = {"start": start, "history": hist + [op]}
        res.step()
        try:
            apply(objs, op)
            if nxt is None:
                res.violation("a product or quotient without meaning was accepted", case)
                return False
        except (ValueError, ZeroDivisionError):
            if nxt is not None:
                res.violation("refused", case)
                return False
        after = regs if nxt is None else nxt
        res.trace()
        new = res.state(repr([(sorted(c.items(), key=repr), k) for c, k in after]))
        if not compare(after, objs, res, case):
            return False
        if depth > 1 and not explore_from(after, hist + [op], start, depth - 1, res, wide):
            return False
    return True


E = 2.0**-20
# numbers of very different magnitudes
WIDE: List[Lin] = [
    ({}, 2.0**-30),
    ({}, 1.0 + E),
    ({}, 2.0**20),
    ({X: 1.0}, 0.0),
    ({X: 1.0 + E}, 0.0),
    ({X: -1.0, KEYS[1]: 2.0**-30}, 1.0),
    ({X: 2.0**-24}, 1.0 + 2.0**-30),
    ({KEYS[1]: 2.0**20}, 2.0**-24),
]


def _exact(op: Tuple[Any, ...], regs: List[Lin]) -> bool:
    """Whether the operation is exact in floating point whatever its order"""
    if op[0] == "neg" or op[1] in "+-":
        return True
    by = regs[op[4]]
    power = lambda v: v == 0 or math.frexp(v)[0] in (0.5, -0.5)
    if op[1] == "/":
        return not by[0] and power(by[1])
    a, b = regs[op[3]], by
    return (not a[0] and power(a[1])) or (not b[0] and power(b[1]))


def worker(unit: Any, res: Result) -> None:
    start, depth, *wide = unit
    res.sample({"start": start})
    res.outcome(repr(start))
    try:
        explore_from(list(start), [], start, depth, res, bool(wide))
    except Violation as v:
        res.violation(v.what, {"start": start})


def lists_worker(unit: Any, res: Result) -> None:
    """Lists of terms with repetitions; the same terms in another order are equal"""
    first, n = unit
    atoms = [(X, 1.0), (X, -1.0), (X, 2.0), (KEYS[1], 1.0), (KEYS[3], -1.0), (KEYS[4], 0.5), (KEYS[5], 0.0)]
    for rest in product(atoms, repeat=n - 1):
        terms = (atoms[first], *rest)
        coefs: Dict[Key, float] = {}
        for k, c in terms:
            coefs[k] = coefs.get(k, 0.0) + c
        want = norm(coefs, 3.0)
        x = LinearExpression([Term(c, *k) for k, c in terms], 3.0)
        res.state(("list", terms))
        res.trace()
        res.step(len(terms))
        got = read(x)
        res.outcome(repr(sorted(got[0].items(), key=repr)))
        if got != want:
            res.violation(f"terms {terms} give {got} instead of {want}", None)
            return
        y = LinearExpression([Term(c, *k) for k, c in reversed(terms)], 3.0)
        z = LinearExpression(x.terms, 3.0)
        acc = LinearExpression([], 3.0)
        for k, c in terms:
            acc += LinearExpression([Term(c, *k)])
        if not (x == y and y == x and z == x and acc == x):
            res.violation(f"terms {terms} in another order are not equal", None)
        z += LinearExpression([Term(8.0, *KEYS[2])])
        if read(x) != want:
            res.violation(f"expression built from the terms of another one shares them: {terms}", None)


def long_worker(sizes: Any, res: Result) -> None:
    """Expressions of many terms"""
    for n in sizes:
        for spread in (1, 2, 3):
            def key(i: int) -> Key:
                return (f"c{i % 3}", f"v{i // spread}", i % 5 if i % 4 else None, i % 2 if i % 3 else None)

            a: Lin = norm({}, 2.0)
            b: Lin = norm({}, -1.0)
            ta = [(key(i), float(1 + i % 7)) for i in range(n)]
            tb = [(key(i), float(-(1 + i % 7)) if i % 3 else 0.5) for i in range(n // 2, n + n // 2)]
            case = {"terms": n, "spread": spread}
            res.state(("long", n, spread))
            res.trace()

            def lin(ts: List[Any], k: float) -> Lin:
                c: Dict[Key, float] = {}
                for kk, v in ts:
                    c[kk] = c.get(kk, 0.0) + v
                return norm(c, k)

            a, b = lin(ta, 2.0), lin(tb, -1.0)
            ra, rb = LinearExpression([Term(v, *k) for k, v in ta], 2.0), LinearExpression([Term(v, *k) for k, v in tb], -1.0)
            four = LinearExpression([], 4.0)
            checks = [
                ("list", ra, a), ("list", rb, b), ("a + b", ra + rb, calc("+", a, b)), ("a - b", ra - rb, calc("-", a, b)), ("b - a", rb - ra, calc("-", b, a)),
                ("a * 4", ra * four, calc("*", a, ({}, 4.0))), ("4 * a", four * ra, calc("*", ({}, 4.0), a)), ("b / 4", rb / four, calc("/", b, ({}, 4.0))), ("-a", -ra, calc("-", ({}, 0.0), a)),
                ("a again", ra, a), ("b again", rb, b), ("a - a", ra - ra, ({}, 0.0)),
            ]
            res.step(len(checks))
            for what, got, want in checks:
                if read(got) != want:
                    res.violation(f"{what} of {n} terms: {read(got)} instead of {want}", case)
                    return
            if not (ra == LinearExpression([Term(v, *k) for k, v in reversed(ta)], 2.0)) or ra == rb or ra == ra + LinearExpression([Term(1.0, *key(n - 1))]):
                res.violation(f"comparison of expressions of {n} terms", case)
                return
            acc = LinearExpression([], 2.0)
            for k, v in ta:
                acc += LinearExpression([Term(v, *k)])
            if read(acc) != a or not (acc == ra):
                res.violation(f"{n} terms added one by one: {read(acc)}", case)
                return


def explore(run: Run) -> None:
    n = len(ALPHABET)
    from itertools import combinations

    triples = [tuple(ALPHABET[i] for i in c) for c in combinations(range(n), 3)]
    run.parallel(worker, [(t, 2) for t in triples])
    run.parallel(worker, [(tuple(WIDE[i] for i in c), 1, True) for c in permutations(range(len(WIDE)), 3)])
    run.parallel(long_worker, [[n] for n in list(range(4, 40)) + [64, 100, 200]])
    run.parallel(lists_worker, [(i, k) for i in range(7) for k in range(1, 5)])
    if run.thorough:
        run.parallel(worker, [(t, 3) for t in triples[::5][:24]])
        run.parallel(worker, [(tuple(ALPHABET[i] for i in c), 2) for c in permutations(range(n), 3) if list(c) != sorted(c)])
