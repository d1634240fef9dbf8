"""
One system in which two identifiers of each kind (components, models, parameters, variables,
constraints, ports, fields, port types) look like each other: they differ by the case, an
underscore, a digit, one character of a long name... Each is used with its own numbers. Used by
C05, C08, C09, C10, C12, C13 and C21.
"""
import pathlib
import tempfile
from itertools import permutations
from typing import Any, Dict, List

from mc.core import Result, time_limit
from mc.impl import build, build_from_yaml, read_lp
from mc.lpcheck import lit, par, var
from mc.spec import ConsSpec, ModelSpec, Reference, SystemSpec, VarSpec, diff_lp

LONG = "a_rather_long_identifier_which_goes_on_and_on_to_sixty_chars"
# usable in expressions
PLAIN = [["ab", "AB", "Ab"], ["a1", "a01", "a11", "a_1"], ["ab", "a_b", "_ab", "ab_"], ["x", "xx", "xy"], ["min", "max", "sum_x"],
         [LONG + "1", LONG + "2", "b" + LONG, LONG], ["p_t0", "p_t1", "p_s0"]]
# usable for components only
FREE = PLAIN + [["a b", "ab", "a  b"], ["a.b", "ab", "a_b"], ["a-b", "a_b", "b-a"], ["n1", "1n", "n-1"], ["é", "e", "É"], ["(a)", "a", "a)"], ["lib.gen", "gen", "lib"]]

ROLES = ["component", "model", "parameter", "variable", "constraint", "port", "field", "type"]
DEFAULT = {"component": ("c1", "c2"), "model": ("m1", "m2"), "parameter": ("k1", "k2"), "variable": ("v1", "v2"), "constraint": ("r1", "r2"),
           "port": ("q1", "q2"), "field": ("f1", "f2"), "type": ("t1", "t2")}


def named(**names: Any) -> SystemSpec:
    n = {**DEFAULT, **names}
    (c1, c2), (m1, m2), (k1, k2), (v1, v2), (r1, r2), (q1, q2), (f1, f2), (t1, t2) = (n[r] for r in ROLES)

    def gen(mid: str, a: float) -> ModelSpec:
        return ModelSpec(
            mid,
            params={k1: (True, False), k2: (False, True)},
            vars={v1: VarSpec(lb=lit(-a), ub=par(k1)), v2: VarSpec(True, False, lb=lit(0.0), ub=lit(40 * a), kind="integer")},
            cons=[
                ConsSpec(r1, ("cmp", "<=", ("add", ("mul", par(k1), var(v1)), ("mul", par(k2), var(v2))), lit(10 * a))),
                ConsSpec(r2, ("cmp", ">=", ("sub", var(v1), ("shift", var(v2), lit(1))), par(k2))),
            ],
            obj_op=("expec", ("tsum", ("add", ("mul", par(k2), var(v1)), ("mul", par(k1), var(v2))))),
            ports={q1: t1, q2: t2},
            portdefs={(q1, f1): ("mul", lit(a), var(v1)), (q1, f2): var(v2), (q2, f1): ("sub", var(v2), par(k1)), (q2, f2): ("mul", par(k2), var(v1))},
        )

    hub = ModelSpec(
        "hub", params={"load": (False, False)}, vars={"u": VarSpec()}, ports={q1: t1, q2: t2},
        cons=[
            ConsSpec("b1", ("cmp", "=", ("add", ("psum", q1, f1), ("mul", lit(2.0), ("psum", q1, f2)), var("u")), par("load")), binding=True),
            ConsSpec("b2", ("cmp", "=", ("add", ("psum", q2, f1), ("mul", lit(3.0), ("psum", q2, f2)), var("u")), par("load")), binding=True),
        ],
    )
    data: Dict[Any, Any] = {("hub", "load"): ("const", 100.0)}
    for c, a in ((c1, 1.0), (c2, 16.0)):
        data[(c, k1)] = ("time", {0: a * 2.0, 1: a * 3.0})
        data[(c, k2)] = ("scen", [a * 5.0, a * 7.0], None)
    return SystemSpec(
        {m1: gen(m1, 1.0), m2: gen(m2, 4.0), "hub": hub},
        [("hub", "hub", "node"), (c1, m1, "component"), (c2, m2, "component")],
        data,
        [(c1, q1, "hub", q1), ("hub", q2, c1, q2), ("hub", q1, c2, q1), (c2, q2, "hub", q2)],
        {t1: [f1, f2], t2: [f1, f2]},
    )


def worker(unit: Any, res: Result) -> None:
    for role, x, y, route in unit:
        spec = named(**{role: (x, y)})
        res.state(("names", role, x, y, route))
        with time_limit(100), tempfile.TemporaryDirectory() as tmp:
            lp = read_lp(build(spec, [0, 1], 2) if route == "api" else build_from_yaml(spec, [0, 1], 2, pathlib.Path(tmp)))
        ref = Reference(spec, [0, 1], 2).lp()
        res.trace()
        res.step(len(ref.rows) + len(ref.vars))
        d = diff_lp(ref, lp)
        if d:
            res.violation(f"two {role}s named {x!r} and {y!r}: {d}", {"kind": role, "names": [x, y], "route": route})
            return


def units(roles: List[str], route: str = "api") -> List[Any]:
    out: List[Any] = []
    for role in roles:
        for group in FREE if role == "component" else PLAIN:
            out.append([(role, x, y, route) for x, y in permutations(group, 2)])
    return out
