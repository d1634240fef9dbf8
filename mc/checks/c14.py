"""
C14: fault enumeration on the input files. Every single fault of the classes below at every
position of two reference libraries and of a reference system: the loading chain (parse,
resolve, build network, load data, build problem) must raise; without fault it accepts.
"""
import copy
import io
import pathlib
import re
import shutil
import tempfile
from typing import Any, Dict, Iterator, List, Tuple

import yaml

from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
from andromede.simulation import TimeBlock, build_problem
from andromede.study.parsing import parse_yaml_components
from andromede.study.resolve_components import (
    build_data_base,
    build_network,
    consistency_check,
    resolve_system,
)
from mc.core import Result, Run, time_limit

PROPERTY = "C14"
ASSUMPTIONS = ["faults are single; repeated YAML keys (a fault of the YAML layer) are out of scope"]
BOUNDS = {
    "quick": "every position of 2 libraries (6 models) and 1 system of 7 components and nodes; classes: key removed, misspelt, unknown key added, entry duplicated (same or different content, at the end or the beginning), reference to a missing object, wrong type of section, unknown variable type, missing data file, inconsistent data flags",
    "thorough": "the same, and every pair of faults in different documents",
}

LIB_A = """
id: base
port-types:
  - id: flow
    fields: [{id: f}, {id: g}]
  - id: heat
    fields: [{id: q}]
models:
  - id: node
    parameters:
      - {id: spill}
    variables:
      - {id: unsup, lower-bound: 0}
    ports:
      - {id: inj, type: flow}
    binding-constraints:
      - {id: balance, expression: sum_connections(inj.f) + unsup = 0}
    constraints:
      - {id: cap, expression: sum_connections(inj.g), upper-bound: "100"}
    objective: expec(sum(spill * unsup))
  - id: load
    parameters:
      - {id: demand, time-dependent: true, scenario-dependent: true}
    ports:
      - {id: out, type: flow}
    port-field-definitions:
      - {port: out, field: f, definition: -demand}
      - {port: out, field: g, definition: "0"}
"""
LIB_B = """
id: ext
dependencies: [base]
port-types:
  - id: steam
    fields: [{id: s}]
models:
  - id: gen
    parameters:
      - {id: cost}
      - {id: pmax, time-dependent: true}
      - {id: lag}
    variables:
      - {id: power, lower-bound: 0, upper-bound: pmax}
      - {id: units, lower-bound: "0", upper-bound: "10", variable-type: integer, time-dependent: false}
    ports:
      - {id: out, type: flow}
      - {id: st, type: steam}
    port-field-definitions:
      - {port: out, field: f, definition: power}
      - {port: out, field: g, definition: power * 2}
      - {port: st, field: s, definition: "power[t-1]"}
    constraints:
      - {id: ramp, expression: "power - power[t-lag] <= pmax"}
      - {id: energy, expression: sum(power), lower-bound: "1", upper-bound: "50"}
      - {id: win, expression: "sum(t-1 .. t+lag, power) <= units * 40"}
    binding-constraints:
      - {id: b, expression: "power <= 10 * units"}
    objective: expec(sum(cost * power)) + expec(units)
  - id: boiler
    variables:
      - {id: h}
    ports:
      - {id: st, type: steam}
      - {id: ht, type: heat}
    port-field-definitions:
      - {port: ht, field: q, definition: h}
    constraints:
      - {id: c, expression: h = st.s}
  - id: sink
    parameters:
      - {id: need, scenario-dependent: true}
    ports:
      - {id: ht, type: heat}
    constraints:
      - {id: c, expression: sum_connections(ht.q) >= need}
"""
SYSTEM = """
nodes:
  - id: n1
    model: base.node
    parameters:
      - {id: spill, value: 1000}
components:
  - id: l1
    model: base.load
    parameters:
      - {id: demand, time-dependent: true, scenario-dependent: true, value: dem}
  - id: g1
    model: ext.gen
    parameters:
      - {id: cost, value: 10}
      - {id: pmax, time-dependent: true, value: pm}
      - {id: lag, value: 1}
  - id: g2
    model: ext.gen
    parameters:
      - {id: cost, value: 12}
      - {id: pmax, time-dependent: true, value: pm}
      - {id: lag, value: 2}
  - id: bo
    model: ext.boiler
  - id: si
    model: ext.sink
    parameters:
      - {id: need, scenario-dependent: true, value: nd}
connections:
  - {component1: n1, port1: inj, component2: l1, port2: out}
  - {component1: g1, port1: out, component2: n1, port2: inj}
  - {component1: n1, port1: inj, component2: g2, port2: out}
  - {component1: g1, port1: st, component2: bo, port2: st}
  - {component1: bo, port1: ht, component2: si, port2: ht}
"""
FILES = {"dem": "5 6\n7 8\n9 4\n", "pm": "10\n11\n12\n", "nd": "1 2\n"}
DOCS = {"A": LIB_A, "B": LIB_B, "S": SYSTEM}
REQUIRED = {
    "A": {"id", "expression", "type", "port", "field", "definition"},
    "B": {"id", "expression", "type", "port", "field", "definition"},
    "S": {"id", "model", "component1", "component2", "port1", "port2", "value"},
}
IDENTIFIED = {
    "port-types", "models", "parameters", "variables", "ports", "port-field-definitions",
    "binding-constraints", "constraints", "nodes", "components",
}
RESERVED = {"t", "sum", "sum_connections", "expec"}

Fault = Tuple[Any, ...]


def load(doc: str) -> Any:
    return yaml.safe_load(DOCS[doc])


def paths(x: Any, here: Tuple[Any, ...] = ()) -> Iterator[Tuple[Any, ...]]:
    yield here
    if isinstance(x, dict):
        for k in x:
            yield from paths(x[k], here + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            yield from paths(x[i], here + (i,))


def get(x: Any, path: Tuple[Any, ...]) -> Any:
    for p in path:
        x = x[p]
    return x


def faults(doc: str) -> Iterator[Fault]:
    d = load(doc)
    for path in paths(d):
        x = get(d, path)
        key = path[-1] if path else None
        if isinstance(x, dict):
            yield (doc, "unknown key", path)
            for k in x:
                if k in REQUIRED[doc]:
                    yield (doc, "remove", path + (k,))
                yield (doc, "misspell", path + (k,))
                if isinstance(x[k], str):
                    yield (doc, "null", path + (k,)) if k in REQUIRED[doc] else None
        if isinstance(x, list):
            if x:
                yield (doc, "scalar section", path)
            if key in IDENTIFIED:
                for i, e in enumerate(x):
                    for how in ("append", "prepend", "altered"):
                        yield (doc, "duplicate " + how, path + (i,))
                    for j in range(i + 1, len(x)):
                        if "id" in e:
                            yield (doc, "same id", path + (i,), x[j]["id"])
        if isinstance(x, str):
            if key in ("expression", "definition", "objective", "lower-bound", "upper-bound"):
                for m in re.finditer(r"[a-zA-Z_][a-zA-Z0-9_]*", x):
                    if m.group() not in RESERVED:
                        yield (doc, "dangling", path, x[: m.start()] + "zz_unknown" + x[m.end() :])
                for bad in (x + " +", x + ")", "(" + x, "$" + x, x + " x y"):
                    yield (doc, "syntax", path, bad)
            elif key == "model":
                lib, mod = x.split(".")
                for bad in (f"zz.{mod}", f"{lib}.zz", mod, f"{'ext' if lib == 'base' else 'base'}.{mod}", f"{lib}.{mod}.x", ""):
                    yield (doc, "dangling", path, bad)
            elif key in ("component1", "component2", "port1", "port2", "type", "port", "field"):
                yield (doc, "dangling", path, "zz_unknown")
            elif key == "variable-type":
                for bad in ("binary_", "Integer", "zz"):
                    yield (doc, "dangling", path, bad)
        if len(path) >= 2 and path[-2] == "dependencies":
            yield (doc, "dangling", path, "zz_unknown")
    for i, m in enumerate(d.get("models", [])):
        for p in m.get("parameters", []):
            yield (doc, "variable as parameter", ("models", i), p["id"])
        for name in ("new", "New", "X", "_n", "n_1"):
            yield (doc, "variable and parameter", ("models", i), name)
    if doc == "S":
        yield (doc, "node and component", ())
        for section in ("nodes", "components"):
            for i, c in enumerate(d[section]):
                ps = c.get("parameters", [])
                for j, p in enumerate(ps):
                    base = (section, i, "parameters")
                    yield (doc, "drop entry", base + (j,))
                    for flags in ((False, False), (True, False), (False, True), (True, True)):
                        actual = (p.get("time-dependent", False), p.get("scenario-dependent", False))
                        declared = flags_of(c["model"], p["id"])
                        if flags == actual:
                            continue
                        # data varying along an index that the parameter does not declare,
                        # flags without series, series without flags
                        is_series = isinstance(p["value"], str)
                        if not is_series or not any(flags) or (flags[0] and not declared[0]) or (flags[1] and not declared[1]):
                            yield (doc, "flags", base + (j,), flags)
                    if isinstance(p["value"], str):
                        yield (doc, "value", base + (j, "value"), "zz_missing_file")
                        yield (doc, "value", base + (j, "value"), 3)
                    else:
                        yield (doc, "value", base + (j, "value"), "dem")
                        yield (doc, "value", base + (j, "value"), "zz_missing_file")
    if doc == "A":
        yield ("A", "same library id", (), "ext")
    if doc == "B":
        yield ("B", "dependency removed", ())
        yield ("B", "self dependency", ())
        yield ("A", "cycle", ())
        yield ("B", "redefine port type", (), "flow")
        yield ("B", "variable as parameter", ("models", 0), "cost")
        yield ("B", "parameter as variable", ("models", 0), "power")


def flags_of(model: str, param: str) -> Tuple[bool, bool]:
    lib, mod = model.split(".")
    d = load("A" if lib == "base" else "B")
    for m in d["models"]:
        if m["id"] == mod:
            for p in m["parameters"]:
                if p["id"] == param:
                    return p.get("time-dependent", False), p.get("scenario-dependent", False)
    raise KeyError(model)


def apply(docs: Dict[str, Any], fault: Fault) -> None:
    doc, kind, path = fault[:3]
    d = docs[doc]
    parent = get(d, path[:-1]) if path else None
    if kind == "unknown key":
        get(d, path)["zz-unknown"] = "1"
    elif kind == "remove":
        del parent[path[-1]]
    elif kind == "misspell":
        parent[str(path[-1]) + "x"] = parent.pop(path[-1])
    elif kind == "null":
        parent[path[-1]] = None
    elif kind == "scalar section":
        parent[path[-1]] = "zz"
    elif kind.startswith("duplicate"):
        e = copy.deepcopy(parent[path[-1]])
        how = kind.split()[1]
        if how == "altered":
            alter(e)
        if how == "prepend":
            parent.insert(0, e)
        else:
            parent.append(e)
    elif kind == "same id":
        parent[path[-1]]["id"] = fault[3]
    elif kind in ("dangling", "syntax", "value"):
        parent[path[-1]] = fault[3]
    elif kind == "drop entry":
        del parent[path[-1]]
    elif kind == "flags":
        p = parent[path[-1]]
        p["time-dependent"], p["scenario-dependent"] = fault[3]
    elif kind == "node and component":
        d["components"].append(copy.deepcopy(d["nodes"][0]))
    elif kind == "same library id":
        d["id"] = "ext"
        docs["B"]["dependencies"] = []
    elif kind == "dependency removed":
        d["dependencies"] = []
    elif kind == "self dependency":
        d["dependencies"].append("ext")
    elif kind == "cycle":
        d["dependencies"] = ["ext"]
    elif kind == "redefine port type":
        d["port-types"].append({"id": "flow", "fields": [{"id": "f"}]})
    elif kind == "variable as parameter":
        get(d, path).setdefault("variables", []).append({"id": fault[3]})
    elif kind == "variable and parameter":
        m = get(d, path)
        m.setdefault("variables", []).append({"id": fault[3]})
        m.setdefault("parameters", []).append({"id": fault[3]})
        for c in docs["S"].get("nodes", []) + docs["S"].get("components", []):
            if c["model"] == f"{d['id']}.{m['id']}":
                c.setdefault("parameters", []).append({"id": fault[3], "value": 1})
    elif kind == "parameter as variable":
        get(d, path)["parameters"].append({"id": fault[3]})
    else:
        raise KeyError(kind)


def alter(e: Any) -> None:
    """Same identifier, other content"""
    if "model" in e:
        e["parameters"] = list(reversed(e.get("parameters", [])))
    elif "type" in e:
        e["type"] = "flow"
    elif "definition" in e:
        e["definition"] = "7"
    elif "expression" in e:
        e["expression"] = "1 <= 2"
    elif "fields" in e:
        e["fields"] = [{"id": "other"}]
    elif "value" in e:
        e["value"] = 99 if not isinstance(e["value"], str) else e["value"]
    elif "variables" in e or "ports" in e:
        e.pop("constraints", None)
    else:
        e["time-dependent"] = not e.get("time-dependent", False)


def chain(docs: Dict[str, Any], series: pathlib.Path, order: Tuple[str, str] = ("A", "B")) -> Any:
    parsed = [parse_yaml_library(io.StringIO(yaml.safe_dump({"library": docs[k]}, sort_keys=False))) for k in order]
    libs = resolve_library(parsed)
    text = yaml.safe_dump({"system": docs["S"]}, sort_keys=False)
    input_system = parse_yaml_components(io.StringIO(text))
    sys = resolve_system(input_system, libs)
    models: Dict[str, Any] = {}
    for lib in libs.values():
        models.update(lib.models)
    consistency_check(sys.components, models)
    net = build_network(sys)
    db = build_data_base(input_system, series)
    return build_problem(net, db, TimeBlock(1, [0, 1, 2]), 2)


def worker(unit: Any, res: Result) -> None:
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="c14-"))
    try:
        for name, content in FILES.items():
            (scratch / f"{name}.txt").write_text(content)
        for fs in unit:
            docs = {k: load(k) for k in DOCS}
            for f in fs:
                apply(docs, f)
            res.state(repr(fs))
            res.step()
            res.trace()
            try:
                with time_limit(60, "loading"):
                    p = chain(docs, scratch, ("B", "A") if len(repr(fs)) % 2 else ("A", "B"))
            except Exception as e:
                res.outcome((fs[0][1] if fs else "", type(e).__name__, str(e)[:60]))
                if not fs:
                    res.violation(f"valid files refused: {type(e).__name__}: {e}", None)
                continue
            if fs:
                res.violation(f"faulty files accepted: {fs}", {"fault": fs})
            else:
                res.outcome(("accepted", p.solver.NumConstraints()))
            if len(res.violations) > 3:
                return
        res.sample(unit[-1])
    finally:
        shutil.rmtree(scratch)


def explore(run: Run) -> None:
    all_faults: Dict[str, List[Fault]] = {k: [f for f in faults(k) if f] for k in DOCS}
    cases: List[Any] = [()] + [(f,) for k in DOCS for f in all_faults[k]]
    if run.thorough:
        for a, b in (("A", "S"), ("B", "S"), ("A", "B")):
            for f in all_faults[a][::4]:
                for g in all_faults[b][::4]:
                    if f[1] in ("cycle", "same library id") or g[1] == "dependency removed":
                        continue
                    cases.append((f, g))
    run.parallel(worker, [cases[i : i + 25] for i in range(0, len(cases), 25)])
    run.notes["faults"] = {k: len(v) for k, v in all_faults.items()}
