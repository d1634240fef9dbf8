"""
C12: a connection is accepted exactly when both ports exist, have the same type and each
field is defined by exactly one side; networks are faithful containers.
"""
import io
from itertools import product
from typing import Any, Dict, List, Optional, Tuple

from andromede.expression import literal, var as ivar
from andromede.model import ModelPort, PortField, PortType, float_variable, model
from andromede.model.parsing import parse_yaml_library
from andromede.model.port import PortFieldDefinition, PortFieldId
from andromede.model.resolve_library import resolve_library
from andromede.simulation import TimeBlock, build_problem
from andromede.study import DataBase, Network, Node, PortRef, create_component
from andromede.study.network import PortsConnection
from andromede.study.parsing import parse_yaml_components
from andromede.study.resolve_components import build_network, resolve_system
from mc import names
from mc.core import Result, Run, raised_by_implementation, time_limit
from mc.impl import build_system_network, build_database, read_lp, text
from mc.lpcheck import chunks, lit, par, var
from mc.spec import ConsSpec, ModelSpec, Reference, SystemSpec, VarSpec, canon_lp, diff_lp

PROPERTY = "C12"
ASSUMPTIONS: List[str] = []
BOUNDS = {
    "quick": "all pairs of models with 1-2 ports over 6 port types of 0-3 fields (two sharing an id), all subsets of field definitions, all pairs of existing or missing ports, API and YAML; replication: all histories of <=4 additions to the original or the replica; one system with each pair of 38 look-alike names for two models or components",
    "thorough": "all pairs of two-port models, and histories of <=5 additions",
}

# type key -> (id, fields); A and A2 have the same id but not the same fields
TYPES = {
    "A": ("A", ["f"]),
    "A2": ("A", ["f", "g"]),
    "B": ("B", ["f"]),
    "D": ("D", ["f", "g"]),
    "O": ("O", []),
    "E": ("E", ["f", "g", "h"]),
}


def subsets(xs: List[Any]) -> List[List[Any]]:
    return [[x for i, x in enumerate(xs) if m >> i & 1] for m in range(1 << len(xs))]


def model_specs(types: Dict[str, Any]) -> List[Any]:
    """(ports {name: type}, definitions)"""
    res = []
    for t in types:
        for d in subsets([("p", f) for f in types[t][1]]):
            res.append(({"p": t}, d))
    # two ports: the definitions of the other port must not be mistaken for this one's
    for t1, t2 in (("A", "A"), ("A", "D"), ("D", "D"), ("B", "A")):
        allf = [("p", f) for f in types[t1][1]] + [("q", f) for f in types[t2][1]]
        for d in subsets(allf):
            res.append(({"p": t1, "q": t2}, d))
    return res


def fresh_types(types: Dict[str, Any]) -> Dict[str, Any]:
    return {k: PortType(i, [PortField(f) for f in fs]) for k, (i, fs) in types.items()}


def mk_model(spec: Any, types: Dict[str, Any], id: str) -> Any:
    ports, defs = spec
    return model(
        id=id,
        variables=[float_variable("x", lower_bound=literal(0))],
        ports=[ModelPort(port_type=types[t], port_name=n) for n, t in ports.items()],
        port_fields_definitions=[PortFieldDefinition(PortFieldId(p, f), ivar("x")) for p, f in defs],
    )


def valid(types: Dict[str, Any], s1: Any, p1: str, s2: Any, p2: str) -> bool:
    if p1 not in s1[0] or p2 not in s2[0]:
        return False
    t1, t2 = types[s1[0][p1]], types[s2[0][p2]]
    if t1 != t2:
        return False
    return all((((p1, f) in s1[1]) != ((p2, f) in s2[1])) for f in t1[1])


def attempt(f: Any) -> Tuple[bool, Any]:
    try:
        with time_limit(60):
            return True, f()
    except Exception as e:
        if not raised_by_implementation(e):
            raise
        return False, e


def api_worker(unit: Any, res: Result) -> None:
    types, pairs = unit
    for s1, s2 in pairs:
        for p1, p2 in product([*s1[0], "none"], [*s2[0], "none"]):
            case = {"model1": s1, "port1": p1, "model2": s2, "port2": p2}
            exp = valid(types, s1, p1, s2, p2)
            res.state(repr(case))
            res.trace()
            # port types of both models come from distinct but equal objects
            c1 = create_component(mk_model(s1, fresh_types(types), "m1"), "c1")
            c2 = Node(mk_model(s2, fresh_types(types), "m2"), "c2")
            net = Network("n")
            net.add_component(c1)
            net.add_node(c2)
            for a, b in (((c1, p1), (c2, p2)), ((c2, p2), (c1, p1))):
                before = len(list(net.connections))
                ok, out = attempt(lambda: net.connect(PortRef(*a), PortRef(*b)))
                res.step()
                res.outcome((ok, None if ok else type(out).__name__))
                if ok != exp:
                    res.violation(f"connection {'accepted' if ok else 'refused'}: {out!r}", case)
                    return
                if len(list(net.connections)) != before + (1 if ok else 0):
                    res.violation("a refused connection was registered", case)
                if ok:
                    # which side defines each field
                    cnx = list(net.connections)[-1]
                    sa, sb = (s1, s2) if a[0] is c1 else (s2, s1)
                    if cnx.port1 != PortRef(*a) or cnx.port2 != PortRef(*b):
                        res.violation("ends of the connection", case)
    res.sample({"models": pairs[0]})


def self_worker(unit: Any, res: Result) -> None:
    """Two ports of one component"""
    types = TYPES
    for s in model_specs(types):
        c = create_component(mk_model(s, fresh_types(types), "m"), "c")
        for p1, p2 in product([*s[0], "none"], [*s[0], "none"]):
            res.state(("self", repr(s), p1, p2))
            res.trace()
            res.step()
            ok, out = attempt(lambda: PortsConnection(PortRef(c, p1), PortRef(c, p2)))
            if ok != valid(types, s, p1, s, p2):
                res.violation(f"self connection {'accepted' if ok else 'refused'}", {"model": s, "ports": (p1, p2)})


def yaml_worker(unit: Any, res: Result) -> None:
    """The same table through YAML; types of the same id but different fields come from 2 libraries"""

    def lib(lid: str, s: Any) -> str:
        ts = {TYPES[t][0]: TYPES[t][1] for t in s[0].values()}
        out = [f"library:", f"  id: {lid}", "  port-types:"]
        for t, fs in ts.items():
            out += [f"    - id: {t}", "      fields: [" + ", ".join("{id: %s}" % f for f in fs) + "]"]
        out += ["  models:", "    - id: m", "      variables: [{id: x}]", "      ports:"]
        for n, t in s[0].items():
            out.append("        - {id: %s, type: %s}" % (n, TYPES[t][0]))
        if s[1]:
            out.append("      port-field-definitions:")
            for p, f in s[1]:
                out.append("        - {port: %s, field: %s, definition: x}" % (p, f))
        return "\n".join(out) + "\n"

    for s1, s2 in unit:
        if len({TYPES[t][0] for t in s1[0].values()}) != len(set(s1[0].values())):
            continue
        libs = resolve_library([parse_yaml_library(io.StringIO(lib("l1", s1))), parse_yaml_library(io.StringIO(lib("l2", s2)))])
        for p1, p2 in product([*s1[0], "none"], [*s2[0], "none"]):
            for i1, i2 in (("c1", "c2"), ("c1", "absent"), ("absent", "c2")):
                y = (
                    "system:\n  nodes:\n    - {id: c1, model: l1.m}\n  components:\n    - {id: c2, model: l2.m}\n"
                    f"  connections:\n    - {{component1: {i1}, port1: {p1}, component2: {i2}, port2: {p2}}}\n"
                )
                exp = valid(TYPES, s1, p1, s2, p2) and (i1, i2) == ("c1", "c2")
                res.state(("yaml", repr(s1), repr(s2), p1, p2, i1, i2))
                res.trace()
                res.step()
                ok, out = attempt(lambda: build_network(resolve_system(parse_yaml_components(io.StringIO(y)), libs)))
                res.outcome((ok, None if ok else type(out).__name__))
                if ok != exp:
                    res.violation(f"connection {'accepted' if ok else 'refused'} from YAML: {out!r}", {"m1": s1, "m2": s2, "cnx": (i1, p1, i2, p2)})
                    return
                if ok and len(list(out.connections)) != 1:
                    res.violation("connection lost", {"m1": s1, "m2": s2})


def base_system() -> SystemSpec:
    N = ModelSpec("N", vars={"y": VarSpec(lb=lit(0.0))}, ports={"b": "flow"},
                  cons=[ConsSpec("bal", ("cmp", "=", ("psum", "b", "f"), var("y")), binding=True)])
    G = ModelSpec("G", params={"c": (False, False)}, vars={"x": VarSpec(lb=lit(0.0))}, ports={"b": "flow"},
                  portdefs={("b", "f"): var("x")}, obj_op=("expec", ("tsum", ("mul", par("c"), var("x")))))
    return SystemSpec({"N": N, "G": G}, [], {}, [], {"flow": ["f"]})


def replicate_worker(unit: Any, res: Result) -> None:
    """Histories of additions to a network and to its replica: each keeps its own content"""
    from mc.impl import build_model, build_port_types

    spec = base_system()
    types = build_port_types(spec)
    models = {k: build_model(m, types) for k, m in spec.models.items()}
    db = DataBase()
    from andromede.study import ConstantData

    for g in ("g1", "g2", "g3"):
        db.add_data(g, "c", ConstantData(float(g[1:]) + 1))

    for hist in unit:
        nets: Dict[str, Any] = {"o": Network("o")}
        content: Dict[str, Dict[str, Any]] = {"o": {"comps": [], "cnx": []}}
        for who, act in hist:
            if act == "replicate":
                if "r" in nets:
                    continue
                nets["r"] = nets["o"].replicate(id="r")
                content["r"] = {k: list(v) for k, v in content["o"].items()}
                continue
            if who not in nets:
                continue
            ids = [c[0] for c in content[who]["comps"]]
            if act in ("n1", "n2") and act not in ids:
                nets[who].add_node(Node(models["N"], act))
                content[who]["comps"].append((act, "N", "node"))
            elif act in ("g1", "g2") and act not in ids:
                nets[who].add_component(create_component(models["G"], act))
                content[who]["comps"].append((act, "G", "component"))
            elif act == "cnx" and "n1" in ids and "g1" in ids:
                nets[who].connect(PortRef(nets[who].get_component("g1"), "b"), PortRef(nets[who].get_node("n1"), "b"))
                content[who]["cnx"].append(("g1", "b", "n1", "b"))
            res.step()
        for who, net in nets.items():
            c = content[who]
            sys = SystemSpec(spec.models, c["comps"], {(x[0], "c"): ("const", float(x[0][1:]) + 1) for x in c["comps"] if x[1] == "G"}, c["cnx"], spec.port_types)
            res.state((who, tuple(hist)))
            res.trace()
            actual = read_lp(build_problem(net, db, TimeBlock(1, [0, 1]), 1, solver_id="GLOP"))
            d = diff_lp(Reference(sys, [0, 1], 1).lp(), actual)
            res.outcome(repr(canon_lp(actual)))
            names = sorted(x.id for x in net.all_components)
            kinds = [sorted(x.id for x in net.nodes), sorted(x.id for x in net.components)]
            if kinds != [sorted(x[0] for x in c["comps"] if x[2] == k) for k in ("node", "component")]:
                res.violation(f"nodes and components of network {who}: {kinds}", {"history": hist})
                return
            if d or names != sorted(x[0] for x in c["comps"]) or len(list(net.connections)) != len(c["cnx"]) or net.is_empty() != (not c["comps"]):
                res.violation(f"content of network {who}: {d or names}", {"history": hist})
                return


def explore(run: Run) -> None:
    types = dict(TYPES)
    specs = model_specs(types)
    single = [s for s in specs if len(s[0]) == 1]
    pairs = [(a, b) for a in specs for b in specs] if run.thorough else [(a, b) for a in specs for b in specs if len(a[0]) == 1 or len(b[0]) == 1 or (a in specs[::3] and b in specs[::2])]
    run.parallel(api_worker, [(types, ch) for ch in chunks(pairs, 100)])
    run.local(self_worker)
    ypairs = [(a, b) for a in single for b in single] + [(a, b) for a in specs[len(single):][::2] for b in single]
    run.parallel(yaml_worker, chunks(ypairs, 25))
    acts = [("o", a) for a in ("n1", "g1", "cnx", "replicate")] + [("r", a) for a in ("n2", "g2", "cnx", "n1")] + [("o", "g2")]
    depth = 5 if run.thorough else 4
    hists = []
    prefixes: List[Any] = [(), (("o", "n1"), ("o", "g1")), (("o", "n1"), ("o", "g1"), ("o", "cnx"), ("o", "replicate"))]
    for pre in prefixes:
        for h in product(acts, repeat=depth - (1 if pre else 0)):
            hists.append(list(pre) + list(h))
    if not run.thorough:
        hists = [h for h in hists if any(a[1] == "replicate" for a in h)]
    run.parallel(names.worker, names.units(["model", "component"]))
    run.parallel(replicate_worker, chunks(hists, 200))
