"""
Drives the implementation (imported from /repo/src): builds its objects from a spec,
through the Python API or through YAML text, and reads back the linear program.
"""
import io
import pathlib
from typing import Any, Dict, List, Optional, Tuple

import pandas as pd
from ortools.linear_solver import linear_solver_pb2 as pb

from andromede.expression import literal, param, var
from andromede.expression.expression import ExpressionNode, port_field
from andromede.expression.indexing_structure import IndexingStructure
from andromede.model import ModelPort, PortField, PortType, model
from andromede.model.common import ProblemContext, ValueType
from andromede.model.constraint import Constraint
from andromede.model.parameter import float_parameter
from andromede.model.port import PortFieldDefinition, PortFieldId
from andromede.model.variable import bool_var, float_variable, int_variable
from andromede.simulation import TimeBlock, build_problem
from andromede.study import (
    ConstantData,
    DataBase,
    Network,
    Node,
    PortRef,
    TimeIndex,
    TimeScenarioSeriesData,
    TimeSeriesData,
    create_component,
)
from andromede.study.data import ScenarioIndex, ScenarioSeriesData, TreeData
from andromede.study.data import Scenarization
from mc.spec import INF, LP, ConsSpec, Expr, ModelSpec, SystemSpec, VarSpec

CONTEXTS = {
    "operational": ProblemContext.OPERATIONAL,
    "investment": ProblemContext.INVESTMENT,
    "coupling": ProblemContext.COUPLING,
}


# -- Python API -------------------------------------------------------------------
def as_int_if_lit(e: Expr) -> Any:
    """Shift amounts: the documented API accepts plain integers"""
    if e[0] == "lit" and float(e[1]).is_integer():
        return int(e[1])
    return build_expr(e)


def build_expr(e: Expr) -> Any:
    op = e[0]
    if op == "lit":
        return literal(float(e[1]))
    if op == "var":
        return var(e[1])
    if op == "par":
        return param(e[1])
    if op == "neg":
        return -build_expr(e[1])
    if op == "add":
        r = build_expr(e[1])
        for x in e[2:]:
            r = r + build_expr(x)
        return r
    if op == "sub":
        return build_expr(e[1]) - build_expr(e[2])
    if op == "mul":
        return build_expr(e[1]) * build_expr(e[2])
    if op == "div":
        return build_expr(e[1]) / build_expr(e[2])
    if op == "shift":
        return build_expr(e[1]).shift(as_int_if_lit(e[2]))
    if op == "eval":
        return build_expr(e[1]).eval(as_int_if_lit(e[2]))
    if op == "wsum":
        return build_expr(e[1]).time_sum(as_int_if_lit(e[2]), as_int_if_lit(e[3]))
    if op == "tsum":
        return build_expr(e[1]).time_sum()
    if op == "expec":
        return build_expr(e[1]).expec()
    if op == "variance":
        return build_expr(e[1]).variance()
    if op == "pf":
        return port_field(e[1], e[2])
    if op == "psum":
        return port_field(e[1], e[2]).sum_connections()
    if op == "cmp":
        l, r = build_expr(e[2]), build_expr(e[3])
        return {"<=": lambda: l <= r, ">=": lambda: l >= r, "=": lambda: l == r}[e[1]]()
    raise KeyError(op)


def opt(e: Optional[Expr]) -> Any:
    return None if e is None else build_expr(e)


def build_variable(name: str, v: VarSpec) -> Any:
    st = IndexingStructure(v.time, v.scen)
    ctx = CONTEXTS[v.context]
    if v.kind == "boolean":
        return bool_var(name, structure=st, context=ctx)
    f = int_variable if v.kind == "integer" else float_variable
    return f(name, opt(v.lb), opt(v.ub), structure=st, context=ctx)


def build_constraint(c: ConsSpec) -> Any:
    kw: Dict[str, Any] = {"context": CONTEXTS[c.context]}
    if c.lb is not None:
        kw["lower_bound"] = build_expr(c.lb)
    if c.ub is not None:
        kw["upper_bound"] = build_expr(c.ub)
    return Constraint(c.name, build_expr(c.expr), **kw)


def build_port_types(sys: SystemSpec) -> Dict[str, Any]:
    return {
        t: PortType(t, [PortField(f) for f in fs]) for t, fs in sys.port_types.items()
    }


def build_model(m: ModelSpec, port_types: Dict[str, Any]) -> Any:
    return model(
        id=m.id,
        parameters=[
            float_parameter(n, IndexingStructure(t, s)) for n, (t, s) in m.params.items()
        ],
        variables=[build_variable(n, v) for n, v in m.vars.items()],
        constraints=[build_constraint(c) for c in m.cons if not c.binding],
        binding_constraints=[build_constraint(c) for c in m.cons if c.binding],
        objective_operational_contribution=opt(m.obj_op),
        objective_investment_contribution=opt(m.obj_inv),
        ports=[
            ModelPort(port_type=port_types[t], port_name=n) for n, t in m.ports.items()
        ],
        port_fields_definitions=[
            PortFieldDefinition(PortFieldId(p, f), build_expr(d))
            for (p, f), d in m.portdefs.items()
        ],
    )


def block_id(block: Any) -> int:
    """Any number does: it only names the block"""
    return (3 * len(block) + sum(block)) % 5


def build_data(d: Any) -> Any:
    kind = d[0]
    if kind == "const":
        return ConstantData(d[1])
    if kind == "time":
        return TimeSeriesData({TimeIndex(t): v for t, v in d[1].items()})
    if kind == "scen":
        return ScenarioSeriesData(
            {ScenarioIndex(i): v for i, v in enumerate(d[1])},
            Scenarization(dict(d[2])) if d[2] is not None else None,
        )
    if kind == "ts":
        return TimeScenarioSeriesData(
            pd.DataFrame(d[1]), Scenarization(dict(d[2])) if d[2] is not None else None
        )
    if kind == "tree":
        return TreeData({k: build_data(x) for k, x in d[1].items()})
    raise KeyError(kind)


def build_database(sys: SystemSpec) -> DataBase:
    db = DataBase()
    for (c, p), d in sys.data.items():
        db.add_data(c, p, build_data(d))
    return db


def build_system_network(
    sys: SystemSpec, models: Optional[Dict[str, Any]] = None, id: str = "test"
) -> Network:
    if models is None:
        types = build_port_types(sys)
        models = {k: build_model(m, types) for k, m in sys.models.items()}
    net = Network(id)
    objs: Dict[str, Any] = {}
    for cid, mid, kind in sys.components:
        if kind == "node":
            objs[cid] = Node(model=models[mid], id=cid)
            net.add_node(objs[cid])
        else:
            objs[cid] = create_component(model=models[mid], id=cid)
            net.add_component(objs[cid])
    for c1, p1, c2, p2 in sys.connections:
        net.connect(PortRef(objs[c1], p1), PortRef(objs[c2], p2))
    return net


def build(
    sys: SystemSpec, block: List[int], scenarios: int, solver: str = "GLOP", **kw: Any
) -> Any:
    """From the spec to the implementation's optimization problem, by the Python API"""
    net = build_system_network(sys)
    db = build_database(sys)
    return build_problem(net, db, TimeBlock(block_id(block), block), scenarios, solver_id=solver, **kw)


# -- reading back -----------------------------------------------------------------
def proto_of(solver: Any) -> Any:
    p = pb.MPModelProto()
    solver.ExportModelToProto(p)
    return p


def read_lp(problem: Any) -> LP:
    """The linear program held by the solver, in terms of (component, variable, t, s)"""
    index = {}
    for k, v in problem.context.get_all_component_variables().items():
        index[v.index()] = (
            k.component_id,
            k.variable_name,
            k.block_timestep,
            k.scenario,
        )
    p = proto_of(problem.solver)
    lp = LP()
    for i, v in enumerate(p.variable):
        key = index.get(i, ("?", v.name, None, None))
        lp.vars[key] = (v.lower_bound, v.upper_bound, v.is_integer)
        if v.objective_coefficient:
            lp.obj[key] = v.objective_coefficient
    lp.obj_const = p.objective_offset
    for c in p.constraint:
        coefs: Dict[Any, float] = {}
        for i, a in zip(c.var_index, c.coefficient):
            key = index.get(i, ("?", p.variable[i].name, None, None))
            coefs[key] = coefs.get(key, 0.0) + a
        lp.rows.append((coefs, c.lower_bound, c.upper_bound))
    if p.maximize:
        lp.obj_const = float("nan")
    return lp


def read_lp_by_name(solver: Any) -> LP:
    """The linear program held by the solver, in terms of the solver's variable names"""
    p = proto_of(solver)
    lp = LP()
    for v in p.variable:
        lp.vars[v.name] = (v.lower_bound, v.upper_bound, v.is_integer)
        if v.objective_coefficient:
            lp.obj[v.name] = v.objective_coefficient
    lp.obj_const = p.objective_offset
    for c in p.constraint:
        lp.rows.append(
            (
                {p.variable[i].name: a for i, a in zip(c.var_index, c.coefficient)},
                c.lower_bound,
                c.upper_bound,
            )
        )
    return lp


# -- YAML -------------------------------------------------------------------------
def text(e: Expr) -> str:
    """Concrete syntax, fully parenthesized"""
    op = e[0]
    if op == "lit":
        v = float(e[1])
        s = repr(abs(v)) if not abs(v).is_integer() else str(int(abs(v)))
        assert "e" not in s
        return s if v >= 0 else f"(-{s})"
    if op in ("var", "par"):
        return e[1]
    if op == "neg":
        return f"(-{text(e[1])})"
    if op == "add":
        return "(" + " + ".join(text(x) for x in e[1:]) + ")"
    if op in ("sub", "mul", "div"):
        return f"({text(e[1])} {dict(sub='-', mul='*', div='/')[op]} {text(e[2])})"
    if op == "shift":
        return f"{_indexable(e[1])}[{_shift(e[2])}]"
    if op == "eval":
        return f"{_indexable(e[1])}[{text(e[2])}]"
    if op == "wsum":
        return f"sum({_shift(e[2])} .. {_shift(e[3])}, {text(e[1])})"
    if op == "tsum":
        return f"sum({text(e[1])})"
    if op == "expec":
        return f"expec({text(e[1])})"
    if op == "pf":
        return f"{e[1]}.{e[2]}"
    if op == "psum":
        return f"sum_connections({e[1]}.{e[2]})"
    if op == "cmp":
        return f"{text(e[2])} {e[1]} {text(e[3])}"
    raise KeyError(op)


def _indexable(e: Expr) -> str:
    return e[1] if e[0] in ("var", "par") else f"({text(e)})"


def _shift(e: Expr) -> str:
    if e[0] == "lit":
        v = float(e[1])
        if v == 0:
            return "t"
        return f"t{'+' if v > 0 else '-'}{int(abs(v))}"
    return f"t+{text(e)}" if e[0] == "par" else f"t+({text(e)})"


def yaml_library(
    sys: SystemSpec,
    lib_id: str = "lib",
    dependencies: Tuple[str, ...] = (),
    models: Optional[List[str]] = None,
    port_types: Optional[List[str]] = None,
) -> str:
    out = ["library:", f"  id: {lib_id}"]
    if dependencies:
        out.append("  dependencies: [" + ", ".join(dependencies) + "]")
    types = list(sys.port_types) if port_types is None else port_types
    if types:
        out.append("  port-types:")
        for t in types:
            out.append(f"    - id: {t}")
            out.append("      fields:")
            for f in sys.port_types[t]:
                out.append(f"        - id: {f}")
    ids = list(sys.models) if models is None else models
    if ids:
        out.append("  models:")
    b = {True: "true", False: "false"}
    for mid in ids:
        m = sys.models[mid]
        out.append(f"    - id: {mid}")
        if m.params:
            out.append("      parameters:")
            for n, (t, s) in m.params.items():
                out += [
                    f"        - id: {n}",
                    f"          time-dependent: {b[t]}",
                    f"          scenario-dependent: {b[s]}",
                ]
        if m.vars:
            out.append("      variables:")
            for n, v in m.vars.items():
                out += [
                    f"        - id: {n}",
                    f"          time-dependent: {b[v.time]}",
                    f"          scenario-dependent: {b[v.scen]}",
                    f"          variable-type: {v.kind}",
                ]
                if v.lb is not None:
                    out.append(f"          lower-bound: {text(v.lb)}")
                if v.ub is not None:
                    out.append(f"          upper-bound: {text(v.ub)}")
        if m.ports:
            out.append("      ports:")
            for n, t in m.ports.items():
                out += [f"        - id: {n}", f"          type: {t}"]
        if m.portdefs:
            out.append("      port-field-definitions:")
            for (p, f), d in m.portdefs.items():
                out += [
                    f"        - port: {p}",
                    f"          field: {f}",
                    f"          definition: {text(d)}",
                ]
        for section, binding in (("constraints", False), ("binding-constraints", True)):
            cs = [c for c in m.cons if c.binding == binding]
            if cs:
                out.append(f"      {section}:")
                for c in cs:
                    out += [
                        f"        - id: {c.name}",
                        f"          expression: {text(c.expr)}",
                    ]
                    if c.lb is not None:
                        out.append(f"          lower-bound: '{text(c.lb)}'")
                    if c.ub is not None:
                        out.append(f"          upper-bound: '{text(c.ub)}'")
        if m.obj_op is not None:
            out.append(f"      objective: {text(m.obj_op)}")
    return "\n".join(out) + "\n"


def yaml_system(
    sys: SystemSpec,
    series_dir: Optional[pathlib.Path] = None,
    lib_of: Any = lambda mid: "lib",
) -> str:
    """Also writes the time series files in series_dir"""
    out = ["system:"]
    for section, kind in (("nodes", "node"), ("components", "component")):
        cs = [c for c in sys.components if c[2] == kind]
        if cs:
            out.append(f"  {section}:")
        for cid, mid, _ in cs:
            out += [f"    - id: {cid}", f"      model: {lib_of(mid)}.{mid}"]
            ps = [(p, d) for (c, p), d in sys.data.items() if c == cid]
            if ps:
                out.append("      parameters:")
            for p, d in ps:
                out.append(f"        - id: {p}")
                kind_ = d[0]
                if kind_ == "const":
                    out.append(f"          value: {d[1]}")
                    continue
                name = f"{cid}-{p}"
                if kind_ == "time":
                    rows = [[d[1][t]] for t in range(max(d[1]) + 1)]
                elif kind_ == "scen":
                    rows = [list(d[1])]
                else:
                    rows = [list(r) for r in d[1]]
                if kind_ in ("time", "ts"):
                    out.append("          time-dependent: true")
                if kind_ in ("scen", "ts"):
                    out.append("          scenario-dependent: true")
                out.append(f"          value: {name}")
                if series_dir is not None:
                    (series_dir / f"{name}.txt").write_text(
                        "\n".join(" ".join(repr(float(v)) for v in r) for r in rows)
                        + "\n"
                    )
    if sys.connections:
        out.append("  connections:")
        for c1, p1, c2, p2 in sys.connections:
            out += [
                f"    - component1: {c1}",
                f"      port1: {p1}",
                f"      component2: {c2}",
                f"      port2: {p2}",
            ]
    return "\n".join(out) + "\n"


def build_from_yaml(
    sys: SystemSpec, block: List[int], scenarios: int, scratch: pathlib.Path, **kw: Any
) -> Any:
    from andromede.model.parsing import parse_yaml_library
    from andromede.model.resolve_library import resolve_library
    from andromede.study.parsing import parse_yaml_components
    from andromede.study.resolve_components import (
        build_data_base,
        build_network,
        resolve_system,
    )

    lib = parse_yaml_library(io.StringIO(yaml_library(sys)))
    libs = resolve_library([lib])
    input_sys = parse_yaml_components(io.StringIO(yaml_system(sys, scratch)))
    net = build_network(resolve_system(input_sys, libs))
    db = build_data_base(input_sys, scratch)
    kw.setdefault("solver_id", "GLOP")
    return build_problem(net, db, TimeBlock(block_id(block), block), scenarios, **kw)
