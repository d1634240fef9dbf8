"""
C21: files and Python API give the same problem. Every optional key of every element, and
all expressions of a bounded language, through library, system and series files.
"""
import io
import pathlib
import tempfile
from itertools import product
from typing import Any, Dict, List, Optional, Tuple

from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
from andromede.simulation import TimeBlock, build_problem
from andromede.study.parsing import parse_yaml_components
from andromede.study.resolve_components import build_data_base, build_network, resolve_system
from mc import names, sizes
from mc.core import Result, Run, time_limit
from mc.impl import build, build_from_yaml, read_lp, text, yaml_library, yaml_system
from mc.lpcheck import chunks, lit, par, std_data, std_model, var
from mc.spec import ConsSpec, Expr, ModelSpec, Reference, SystemSpec, VarSpec, canon_lp, canon_row, diff_lp

PROPERTY = "C21"
ASSUMPTIONS = [
    "the files have the features of the documented format: investment contexts and boolean variables exist only in the Python API",
]
BOUNDS = {
    "quick": "all combinations of absent/true/false keys of variables (2 indexings x type x 7 lower x 7 upper bounds), of parameters and data (3x3 keys x 4 kinds of data), of constraints (5x5 bounds, plain or binding, described or not), objective present or not; all expressions of <=2 leaves of a 12-leaf alphabet with all operators and 200 of 3; components and nodes; 1..3 libraries; 11 numbers of 1..17 digits, with both signs, at each of the 13 places where a number is written, to 13 digits; T, S in 1..2; one system with 1..33, 48, 100 and 168 timesteps, 1..25, 50 and 101 scenarios, 0..25, 50 and 101 components; one system with each pair of 38 look-alike names for two identifiers of each kind",
    "thorough": "the same with all expressions of 3 leaves over a 6-leaf alphabet, and T, S in 1..3",
}


def full_system() -> SystemSpec:
    """Every element of the file format, once at least"""
    gen = ModelSpec(
        "gen",
        params={"cost": (True, True), "pmax": (True, False), "k": (False, True), "c0": (False, False)},
        vars={
            "p": VarSpec(lb=lit(0.0), ub=par("pmax")),
            "nb": VarSpec(True, False, lb=lit(0.0), ub=lit(1.0), kind="integer"),
            "w": VarSpec(False, True, lb=("neg", par("c0"))),
            "free": VarSpec(False, False),
        },
        cons=[
            ConsSpec("m1", ("cmp", "<=", var("p"), ("mul", par("pmax"), var("nb")))),
            ConsSpec("m2", ("sub", var("p"), ("shift", var("p"), lit(-1))), ("neg", par("c0")), par("c0")),
            ConsSpec("m3", ("cmp", ">=", ("add", var("w"), var("free")), ("tsum", ("mul", par("k"), var("p"))))),
            ConsSpec("m4", ("wsum", var("p"), lit(-1), lit(1)), None, ("mul", lit(3.0), par("pmax")), binding=True),
        ],
        obj_op=("expec", ("tsum", ("add", ("mul", par("cost"), var("p")), ("mul", par("c0"), var("nb"))))),
        ports={"bal": "flow", "aux": "duo"},
        portdefs={("bal", "f"): var("p"), ("aux", "f"): ("mul", par("k"), var("p")), ("aux", "g"): ("neg", var("free"))},
    )
    node = ModelSpec(
        "node",
        params={"ens": (False, False), "load": (True, True)},
        vars={"u": VarSpec(lb=lit(0.0)), "s": VarSpec(lb=lit(0.0))},
        cons=[ConsSpec("bal", ("cmp", "=", ("add", ("psum", "bal", "f"), var("u")), ("add", par("load"), var("s"))), binding=True)],
        obj_op=("expec", ("tsum", ("mul", par("ens"), var("u")))),
        ports={"bal": "flow"},
    )
    meter = ModelSpec(
        "meter",
        vars={"m": VarSpec(lb=lit(0.0)), "n": VarSpec(False, False, lb=lit(-5.0))},
        cons=[
            ConsSpec("one", ("cmp", "=", var("m"), ("pf", "aux", "f"))),
            ConsSpec("two", ("cmp", ">=", var("n"), ("pf", "aux", "g"))),
        ],
        ports={"aux": "duo"},
    )
    data: Dict[Any, Any] = {}
    for i, g in enumerate(("g1", "g2")):
        data[(g, "cost")] = ("ts", [[10.0 * (i + 1) + t + 0.5 * s for s in range(3)] for t in range(4)], None)
        data[(g, "pmax")] = ("time", {t: 50.0 + 10 * i + t for t in range(4)})
        data[(g, "k")] = ("scen", [1.5 + i + s for s in range(3)], None)
        data[(g, "c0")] = ("const", 4.0 + i)
    for i, n in enumerate(("n1", "n2")):
        data[(n, "ens")] = ("const", 500.0 + i)
        data[(n, "load")] = ("ts", [[30.0 + i + 7 * t + s for s in range(3)] for t in range(4)], None)
    return SystemSpec(
        {"gen": gen, "node": node, "meter": meter},
        [("n1", "node", "node"), ("n2", "node", "node"), ("g1", "gen", "component"), ("g2", "gen", "component"), ("m1", "meter", "component"), ("m2", "meter", "component")],
        data,
        [("g1", "bal", "n1", "bal"), ("n1", "bal", "g2", "bal"), ("g2", "bal", "n2", "bal"), ("m1", "aux", "g1", "aux"), ("g2", "aux", "m2", "aux")],
        {"flow": ["f"], "duo": ["f", "g"]},
    )


def load(lib: str, system: str, scratch: pathlib.Path, block: List[int], S: int) -> Any:
    libs = resolve_library([parse_yaml_library(io.StringIO(lib))])
    inp = parse_yaml_components(io.StringIO(system))
    net = build_network(resolve_system(inp, libs))
    return read_lp(build_problem(net, build_data_base(inp, scratch), TimeBlock(1, block), S, solver_id="GLOP"))


def check_both(sys: SystemSpec, block: List[int], S: int, res: Result, case: Any) -> bool:
    ref = Reference(sys, block, S).lp()
    with time_limit(120), tempfile.TemporaryDirectory() as tmp:
        a = read_lp(build(sys, block, S))
        y = read_lp(build_from_yaml(sys, block, S, pathlib.Path(tmp)))
    res.trace(2)
    res.step(len(ref.rows) + len(ref.vars))
    res.outcome(tuple(sorted(map(repr, map(canon_row, y.rows))))[:50])
    d = diff_lp(a, y) or diff_lp(ref, y)
    if d:
        res.violation(f"files and Python API differ: {d}", case)
        return False
    return True


def full_worker(unit: Any, res: Result) -> None:
    block, S = unit
    res.state((tuple(block), S))
    check_both(full_system(), block, S, res, {"block": block, "scenarios": S})


# -- optional keys ----------------------------------------------------------------
TRI = (None, True, False)
BOUND: List[Tuple[Optional[str], Optional[Expr]]] = [
    (None, None),
    ("0", lit(0.0)),
    ("-3", ("neg", lit(3.0))),
    ("2.5", lit(2.5)),
    ("q", par("q")),
    ("2 * q - 1", ("sub", ("mul", lit(2.0), par("q")), lit(1.0))),
    ("'7'", lit(7.0)),
]


def keys(**kw: Optional[bool]) -> str:
    return "".join(f", {k.replace('_', '-')}: {str(v).lower()}" for k, v in kw.items() if v is not None)


def variable_worker(unit: Any, res: Result) -> None:
    for time, scen, kind in unit:
        for (lt, le), (ut, ue) in product(BOUND, BOUND):
            v = VarSpec(time is not False, scen is not False, le, ue, kind or "continuous")
            m = ModelSpec("M", params={"q": (False, False)}, vars={"x": v, "y": VarSpec()}, cons=[ConsSpec("c", ("cmp", "<=", ("add", var("x"), var("y")), lit(1.0)))])
            sys = SystemSpec({"M": m}, [("c1", "M", "component"), ("c2", "M", "node")], {("c1", "q"): ("const", 4.0), ("c2", "q"): ("const", 6.0)})
            try:
                ref = Reference(sys, [0, 1], 2).lp()
            except Exception:
                continue  # contradictory bounds: C09
            b = (f", lower-bound: {lt}" if lt else "") + (f", upper-bound: {ut}" if ut else "")
            ty = f", variable-type: {kind}" if kind else ""
            lib = f"""
library:
  id: lib
  models:
    - id: M
      parameters: [{{id: q}}]
      variables:
        - {{id: x{keys(time_dependent=time, scenario_dependent=scen)}{b}{ty}}}
        - id: y
      constraints:
        - {{id: c, expression: x + y <= 1}}
"""
            system = "system:\n  components:\n    - {id: c1, model: lib.M, parameters: [{id: q, value: 4}]}\n  nodes:\n    - {id: c2, model: lib.M, parameters: [{id: q, value: 6.0}]}\n"
            case = {"keys": (time, scen, kind, lt, ut)}
            res.state(repr(case))
            res.trace()
            res.step(len(ref.vars))
            with time_limit(60):
                lp = load(lib, system, pathlib.Path("/nonexistent"), [0, 1], 2)
            res.outcome(repr(sorted(lp.vars.items(), key=repr))[:300])
            d = diff_lp(ref, lp)
            if d:
                res.violation(f"variable: {d}", {"library": lib, **case})
                return
    res.sample(case)


def data_worker(unit: Any, res: Result) -> None:
    """Declared indexing of a parameter x indexing keys of its data"""
    series = [[float(10 * t + s + 1) for s in range(3)] for t in range(3)]
    with tempfile.TemporaryDirectory() as tmp:
        scratch = pathlib.Path(tmp)
        (scratch / "ts.txt").write_text("\n".join(" ".join(map(str, r)) for r in series))
        (scratch / "t.txt").write_text("\n".join(str(r[0]) for r in series))
        (scratch / "s.txt").write_text(" ".join(map(str, series[0])))
        for pt, ps, dt, ds, kind in product(TRI, TRI, TRI, TRI, ("component", "node")):
            t, s, a, b = pt is True, ps is True, dt is True, ds is True
            if (a and not t) or (b and not s):
                continue  # refused: C10
            d: Any = {
                (True, True): ("ts", series, None),
                (True, False): ("time", {i: r[0] for i, r in enumerate(series)}),
                (False, True): ("scen", series[0], None),
                (False, False): ("const", 5.0),
            }[(a, b)]
            val = {(True, True): "ts", (True, False): "t", (False, True): "s", (False, False): "5"}[(a, b)]
            m = ModelSpec("M", params={"q": (t, s)}, vars={"x": VarSpec()}, cons=[ConsSpec("c", ("cmp", "<=", var("x"), par("q")))], obj_op=("expec", ("tsum", ("mul", par("q"), var("x")))))
            sys = SystemSpec({"M": m}, [("c1", "M", kind)], {("c1", "q"): d})
            lib = f"""
library:
  id: lib
  models:
    - id: M
      parameters:
        - {{id: q{keys(time_dependent=pt, scenario_dependent=ps)}}}
      variables:
        - id: x
      constraints:
        - {{id: c, expression: x <= q}}
      objective: expec(sum(q * x))
"""
            system = f"""
system:
  {kind}s:
    - id: c1
      model: lib.M
      parameters:
        - {{id: q, value: {val}{keys(time_dependent=dt, scenario_dependent=ds)}}}
"""
            for block, S in (([0], 1), ([0, 1], 2), ([2, 1], 3)):
                case = {"parameter": (pt, ps), "data": (dt, ds), "kind": kind, "block": block, "S": S}
                res.state(repr(case))
                res.trace()
                ref = Reference(sys, block, S).lp()
                res.step(len(ref.rows))
                lp = load(lib, system, scratch, block, S)
                res.outcome(repr(lp.rows)[:300])
                df = diff_lp(ref, lp)
                if df:
                    res.violation(f"data: {df}", case)
                    return


CB: List[Tuple[Optional[str], Optional[Expr]]] = [
    (None, None),
    ("'0'", lit(0.0)),
    ("q", par("q")),
    ("'-q'", ("neg", par("q"))),
    ("'12'", lit(12.0)),
]


def constraint_worker(unit: Any, res: Result) -> None:
    exprs: List[Tuple[str, Expr]] = [
        ("x + 2 * y", ("add", var("x"), ("mul", lit(2.0), var("y")))),
        ("x - y[t-1]", ("sub", var("x"), ("shift", var("y"), lit(-1)))),
        ("sum(x)", ("tsum", var("x"))),
    ]
    cmps: List[Tuple[str, Expr]] = [
        ("x = q", ("cmp", "=", var("x"), par("q"))),
        ("x >= y + 1", ("cmp", ">=", var("x"), ("add", var("y"), lit(1.0)))),
        ("2 * y <= q * x", ("cmp", "<=", ("mul", lit(2.0), var("y")), ("mul", par("q"), var("x")))),
    ]
    cases: List[Any] = []
    for (et, e), (lt, le), (ut, ue) in product(exprs, CB, CB):
        if le == lit(12.0) and ue is not None and ue != lit(12.0):
            continue
        if le is not None and ue is not None and le != ue and not (le == ("neg", par("q")) or (le == lit(0.0) and ue != ("neg", par("q"))) or ue == lit(12.0)):
            continue
        cases.append((et, e, lt, le, ut, ue))
    cases += [(et, e, None, None, None, None) for et, e in cmps]
    for (et, e, lt, le, ut, ue), binding, objective, desc in product(cases, (False, True), (False, True), (False, True)):
        m = ModelSpec("M", params={"q": (False, False)}, vars={"x": VarSpec(), "y": VarSpec()}, cons=[ConsSpec("c", e, le, ue, binding=binding)])
        if objective:
            m.obj_op = ("expec", ("tsum", var("x")))
        sys = SystemSpec({"M": m}, [("c1", "M", "component")], {("c1", "q"): ("const", 4.0)})
        b = (f", lower-bound: {lt}" if lt else "") + (f", upper-bound: {ut}" if ut else "")
        lib = f"""
library:
  id: lib
  {'description: some models' if desc else 'port-types: []'}
  models:
    - id: M
      {'description: one model' if desc else 'ports: []'}
      parameters: [{{id: q}}]
      variables: [{{id: x}}, {{id: y}}]
      {'binding-constraints' if binding else 'constraints'}:
        - {{id: c, expression: "{et}"{b}}}
      {'objective: expec(sum(x))' if objective else ''}
"""
        system = "system:\n  components:\n    - {id: c1, model: lib.M, parameters: [{id: q, value: 4}]}\n"
        case = {"constraint": (et, lt, ut), "binding": binding, "objective": objective, "description": desc}
        res.state(repr(case))
        res.trace()
        ref = Reference(sys, [0, 1], 1).lp()
        res.step(len(ref.rows))
        lp = load(lib, system, pathlib.Path("/nonexistent"), [0, 1], 1)
        res.outcome(repr(lp.rows)[:300])
        d = diff_lp(ref, lp)
        if d:
            res.violation(f"constraint: {d}", {"library": lib})
            return


# -- expressions ------------------------------------------------------------------
LEAVES: List[Expr] = [var("xts"), var("xt"), var("xs"), var("xc"), par("pts"), par("pt"), par("ps"), par("pc"), lit(1.0), lit(2.5), lit(0.0), lit(-3.0)]


def unary(e: Expr) -> List[Expr]:
    return [
        ("neg", e), ("shift", e, lit(1)), ("shift", e, lit(-2)), ("eval", e, lit(0)), ("eval", e, lit(1)),
        ("wsum", e, lit(-1), lit(1)), ("wsum", e, lit(0), par("k1")), ("tsum", e), ("expec", e), ("shift", e, par("k1")),
    ]


def expressions(full: bool) -> List[Expr]:
    out: List[Expr] = list(LEAVES)
    for a in LEAVES:
        out += unary(a)
    for op, a, b in product(("add", "sub", "mul", "div"), LEAVES, LEAVES):
        out.append((op, a, b))
    small = [var("xts"), var("xc"), par("pts"), par("pc"), lit(2.5), lit(-3.0)]
    three = []
    for op1, op2, a, b, c in product(("add", "sub", "mul", "div"), ("add", "sub", "mul", "div"), small, small, small):
        three.append((op1, (op2, a, b), c))
        three.append((op1, a, (op2, b, c)))
    for op, a, b in product(("add", "sub", "mul"), small, small):
        three += unary((op, a, b))
    out += three if full else three[::17] + three[::23]
    return out


def expr_worker(unit: Any, res: Result) -> None:
    exprs, block, S = unit
    m = std_model()
    base = SystemSpec({"M": m}, [("c1", "M", "component"), ("c2", "M", "node")], {**std_data("c1", 4, S), **std_data("c2", 4, S, 5)})
    ref0 = Reference(base, block, S)
    cons: List[ConsSpec] = []
    for i, e in enumerate(exprs):
        c = ConsSpec(f"k{i}", ("cmp", ("<=", ">=", "=")[i % 3], e, lit(float(i))))
        try:
            for comp in ("c1", "c2"):
                ref0.rows(c, comp)
        except Exception:
            continue  # no meaning as a linear row: C04
        cons.append(c)
        res.state((e, tuple(block), S))
    m.cons = cons
    if not check_both(base, block, S, res, None):
        res.violations.clear()
        for c in cons:
            m.cons = [c]
            if not check_both(base, block, S, res, {"constraint": text(c.expr), "block": block, "S": S}):
                return
        m.cons = cons
        check_both(base, block, S, res, {"constraints": [text(c.expr) for c in cons]})
    res.sample({"expressions": [text(e) for e in exprs[:3]], "block": block, "S": S})


def libraries_worker(unit: Any, res: Result) -> None:
    """The same system with its models spread over several libraries; loads are independent"""
    sys = full_system()
    ref = Reference(sys, [0, 1], 2).lp()
    names = list(sys.models)
    for split in product(range(3), repeat=len(names)):
        lib_of = {m: f"l{i}" for m, i in zip(names, split)}
        texts = [yaml_library(sys, "types", models=[])]
        for i in sorted(set(split)):
            texts.append(yaml_library(sys, f"l{i}", ("types",), [m for m in names if lib_of[m] == f"l{i}"], port_types=[]))
        case = {"split": lib_of}
        res.state(repr(case))
        with tempfile.TemporaryDirectory() as tmp:
            scratch = pathlib.Path(tmp)
            system = yaml_system(sys, scratch, lambda m: lib_of[m])
            for order in (texts, texts[::-1], texts):
                libs = resolve_library([parse_yaml_library(io.StringIO(t)) for t in order])
                inp = parse_yaml_components(io.StringIO(system))
                net = build_network(resolve_system(inp, libs))
                lp = read_lp(build_problem(net, build_data_base(inp, scratch), TimeBlock(1, [0, 1]), 2, solver_id="GLOP"))
                res.trace()
                res.step(len(lp.rows))
                d = diff_lp(ref, lp)
                if d:
                    res.violation(f"several libraries: {d}", case)
                    return


NUMBERS = ["0", "7", "0.1", "0.3333333333333333", "1234567890.125", "8760.000001", "0.000030517578125", "123456.789012345", "99999999999", "0.00000001", "1.0000000001"]


def number_worker(unit: Any, res: Result) -> None:
    """Each number, at each place of the files where a number can be written, is the number used"""
    lib = """
library:
  id: lib
  models:
    - id: M
      parameters:
        - {{id: c}}
        - {{id: qt, time-dependent: true}}
        - {{id: s, scenario-dependent: true}}
        - {{id: ts, time-dependent: true, scenario-dependent: true}}
      variables:
        - {{id: x, lower-bound: '-{n}', upper-bound: '{n} + 5'}}
      constraints:
        - {{id: k, expression: {n} * x, lower-bound: '{n} - 1', upper-bound: '{n} + 2'}}
        - {{id: pc, expression: x <= c}}
        - {{id: pt, expression: x <= qt}}
        - {{id: ps, expression: x <= s}}
        - {{id: pts, expression: x <= ts}}
        - {{id: q, expression: x <= {n}}}
      objective: expec(sum({n} * x))
"""
    for n in NUMBERS:
        for sign in ("", "-"):
            v = float(sign + n)
            with tempfile.TemporaryDirectory() as tmp:
                d = pathlib.Path(tmp)
                (d / "t.txt").write_text(f"3\n{sign}{n}\n")
                (d / "s.txt").write_text(f"{sign}{n} 3\n")
                (d / "ts.txt").write_text(f"1 2\n{sign}{n} 4\n")
                system = f"""
system:
  components:
    - id: c1
      model: lib.M
      parameters:
        - {{id: c, value: {sign}{n}}}
        - {{id: qt, value: t, time-dependent: true}}
        - {{id: s, value: s, scenario-dependent: true}}
        - {{id: ts, value: ts, time-dependent: true, scenario-dependent: true}}
"""
                res.state((n, sign))
                res.trace()
                with time_limit(60):
                    out = resolve_library([parse_yaml_library(io.StringIO(lib.format(n=n)))])
                    inp = parse_yaml_components(io.StringIO(system))
                    problem = build_problem(build_network(resolve_system(inp, out)), build_data_base(inp, d), TimeBlock(1, [1]), 1)
                f = abs(v)
                x = problem.solver.variables()[0]
                got = {"lower bound": x.lb(), "upper bound": x.ub(), "objective": problem.solver.Objective().GetCoefficient(x)}
                want = {"lower bound": -f, "upper bound": f + 5, "objective": f}
                rows = list(problem.solver.constraints())
                if len(rows) != 6:
                    res.violation(f"{len(rows)} rows instead of 6", {"number": sign + n})
                    return
                # k is the only row with a lower bound
                k = [r for r in rows if r.lb() > -1e30]
                got.update({"row": sorted([(r.GetCoefficient(x), r.lb(), r.ub()) for r in k])})
                want.update({"row": [(f, f - 1, f + 2)]})
                got["limits"] = sorted(r.ub() for r in rows if r.lb() < -1e30)
                want["limits"] = sorted([v] * 4 + [f])
                res.outcome(repr(got))
                res.step(len(rows))

                def close(a: Any, b: Any) -> bool:
                    if isinstance(a, (list, tuple)):
                        return len(a) == len(b) and all(close(p, q) for p, q in zip(a, b))
                    return abs(a - b) <= 1e-13 * max(abs(a), abs(b))

                for key in want:
                    if not close(got[key], want[key]):
                        res.violation(f"number {sign}{n}: {key} {got[key]} instead of {want[key]}", {"number": sign + n, "library": lib.format(n=n), "system": system})
                        return


def explore(run: Run) -> None:
    top = 3 if run.thorough else 2
    blocks = [list(range(t)) for t in range(1, top + 1)] + [[1, 3]]
    run.parallel(full_worker, [(b, s) for b in blocks for s in range(1, top + 1)])
    combos = [(t, s, k) for t in TRI for s in TRI for k in (None, "continuous", "integer")]
    run.parallel(variable_worker, [[c] for c in combos])
    run.local(data_worker)
    run.local(constraint_worker)
    run.local(libraries_worker)
    run.local(number_worker)
    ex = expressions(run.thorough)
    run.parallel(sizes.worker, sizes.units("tsn", "files"))
    run.parallel(names.worker, names.units(["component", "model", "parameter", "variable", "constraint", "port", "field", "type"], "files"))
    run.parallel(expr_worker, [(ch, b, s) for ch in chunks(ex, 40) for b, s in (([0, 1], 2), ([2], 1))])
