"""
C13: library resolution, for every dependency graph and every order of the libraries.
"""
import io
from itertools import permutations, product
from typing import Any, Dict, List, Optional, Set, Tuple

from andromede.model import PortField, PortType
from andromede.model.library import Library
from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
from andromede.study.parsing import parse_yaml_components
from andromede.study.resolve_components import resolve_system
from mc.core import Result, Run, raised_by_implementation, time_limit
from mc.lpcheck import chunks

PROPERTY = "C13"
ASSUMPTIONS = ["library ids are distinct (refused by the command line otherwise)"]
BOUNDS = {
    "quick": "all dependency digraphs with self-loops on <=3 libraries and without on 4 (4096), all orders (4 libraries: 4 orders), chains, stars, complete graphs, ladders and cycles of 5..25 libraries, every (user, provider) pair of port types, missing dependencies, duplicated port types at every pair, preloaded libraries (all lists of <=3 over 3 names and 5 sets of port types)",
    "thorough": "all 24 orders on the digraphs of 4 libraries, acyclic digraphs on 5",
}


def lib_yaml(i: int, deps: List[str], uses: List[str], own_types: Dict[str, List[str]]) -> str:
    out = ["library:", f"  id: l{i}"]
    if deps:
        out.append("  dependencies: [" + ", ".join(deps) + "]")
    if own_types:
        out.append("  port-types:")
        for t, fs in own_types.items():
            out += [f"    - id: {t}", "      fields: [" + ", ".join("{id: %s}" % f for f in fs) + "]"]
    out += ["  models:"]
    # the same model id in all libraries: models must not be mixed up
    out += ["    - id: m", f"      parameters: [{{id: p{i}}}]", "      variables: [{id: x}]"]
    if uses:
        out.append("      ports: [" + ", ".join("{id: q%s, type: %s}" % (t, t) for t in uses) + "]")
    out += [f"    - id: only{i}", f"      variables: [{{id: y{i}}}]"]
    return "\n".join(out) + "\n"


def closure(n: int, edges: Set[Tuple[int, int]]) -> List[Set[int]]:
    """Transitive closure (not reflexive)"""
    reach = [set(b for a, b in edges if a == i) for i in range(n)]
    for _ in range(n):
        for i in range(n):
            for j in list(reach[i]):
                reach[i] |= reach[j]
    return reach


_CACHE: Dict[str, Any] = {}


def parsed(y: str) -> Any:
    if y not in _CACHE:
        if len(_CACHE) > 5000:
            _CACHE.clear()
        _CACHE[y] = parse_yaml_library(io.StringIO(y))
    return _CACHE[y]


def attempt(f: Any) -> Tuple[bool, Any]:
    try:
        with time_limit(20, "resolution of libraries"):
            return True, f()
    except Exception as e:
        if type(e).__name__ == "Timeout" or not raised_by_implementation(e):
            raise
        return False, e


def check(n: int, edges: Set[Tuple[int, int]], uses: Dict[int, List[str]], types: Dict[int, Dict[str, List[str]]], order: Any, res: Result, preloaded: Optional[Dict[str, List[str]]] = None, missing: Optional[int] = None) -> None:
    case = {"n": n, "dependencies": sorted(edges), "uses": uses, "port types": types, "order": list(order), "preloaded": preloaded, "missing": missing}
    reach = closure(n, edges)
    pre = preloaded or {}
    ok_exp = all(i not in reach[i] for i in range(n)) and missing is None
    visible: List[Dict[str, List[str]]] = []
    if ok_exp:
        for i in range(n):
            vis: Dict[str, List[str]] = dict(pre)
            for j in sorted(reach[i]):
                for t, fs in types.get(j, {}).items():
                    if t in vis and vis[t] != fs:
                        ok_exp = False  # conflicting definitions
                    vis[t] = fs
            for t, fs in types.get(i, {}).items():
                if t in vis:
                    ok_exp = False  # defined again
                vis[t] = fs
            if any(u not in vis for u in uses.get(i, [])):
                ok_exp = False
            visible.append(vis)
    libs = []
    for i in order:
        deps = [f"l{b}" for a, b in sorted(edges) if a == i]
        if missing == i:
            deps.append("absent")
        libs.append(parsed(lib_yaml(i, deps, uses.get(i, []), types.get(i, {}))))
    res.trace()
    res.step(n + len(edges))
    pl = [Library("pre", port_types={t: PortType(t, [PortField(f) for f in fs]) for t, fs in pre.items()}, models={})] if pre else None
    try:
        ok, out = attempt(lambda: resolve_library(list(libs), pl) if pl else resolve_library(list(libs)))
    except Exception as e:
        if type(e).__name__ == "Timeout":
            res.violation("resolution of libraries never ends", case)
            return
        raise
    res.outcome((ok, None if ok else str(out)[:60]))
    if ok != ok_exp:
        res.violation(f"libraries {'accepted' if ok else 'refused: %r' % (out,)}", case)
        return
    if not ok:
        return
    if set(out) != {f"l{i}" for i in range(n)} | ({"pre"} if pre else set()):
        res.violation(f"libraries returned: {sorted(out)}", case)
        return
    for i in range(n):
        lib = out[f"l{i}"]
        if lib.id != f"l{i}" or set(lib.models) != {"m", f"only{i}"} or set(lib.models["m"].parameters) != {f"p{i}"}:
            res.violation(f"models of library {i}: {lib.models.keys()}", case)
            return
        ports = lib.models["m"].ports
        if set(ports) != {f"q{t}" for t in uses.get(i, [])}:
            res.violation("ports", case)
            return
        for t in uses.get(i, []):
            pt = ports[f"q{t}"].port_type
            if pt.id != t or [f.name for f in pt.fields] != visible[i][t]:
                res.violation(f"port type {t} of library {i} resolved to {pt}", case)
                return
        got = {t: [f.name for f in p.fields] for t, p in lib.port_types.items()}
        if got != visible[i]:
            res.violation(f"port types visible in library {i}: {got}, expected {visible[i]}", case)
            return


def own(i: int) -> Dict[str, List[str]]:
    return {f"T{i}": [f"f{i}"] + (["g"] if i % 2 else [])}


def graph_worker(unit: Any, res: Result) -> None:
    n, items = unit
    for edges, order, uses in items:
        res.state((n, tuple(sorted(edges)), tuple(order), repr(uses)))
        check(n, set(edges), uses, {i: own(i) for i in range(n)}, order, res)
        if len(res.violations) >= 2:
            return
    res.sample({"n": n, "dependencies": sorted(items[0][0]), "order": items[0][1], "uses": items[0][2]})


def digraphs(n: int, loops: bool) -> List[Set[Tuple[int, int]]]:
    es = [(a, b) for a in range(n) for b in range(n) if loops or a != b]
    return [{e for i, e in enumerate(es) if m >> i & 1} for m in range(1 << len(es))]


def all_uses(n: int, edges: Set[Tuple[int, int]]) -> Dict[int, List[str]]:
    """Each library uses every port type it can see"""
    reach = closure(n, edges)
    return {i: [f"T{j}" for j in sorted(reach[i] | {i})] for i in range(n)}


def dup_worker(unit: Any, res: Result) -> None:
    """A port type defined by 2 libraries, identically or not"""
    for edges, order, a, b, same in unit:
        types = {i: own(i) for i in range(3)}
        types[a]["Z"] = ["u"]
        types[b]["Z"] = {"same": ["u"], "more": ["u", "w"], "other": ["w"], "none": []}[same]
        uses = {2: ["Z"]} if any(x in closure(3, set(edges))[2] for x in (a, b)) or 2 in (a, b) else {}
        res.state(("dup", tuple(sorted(edges)), tuple(order), a, b, same))
        check(3, set(edges), uses, types, order, res)
        if len(res.violations) >= 2:
            return


def preloaded_worker(unit: Any, res: Result) -> None:
    """Several preloaded libraries, which may be of the same name or define the same port type, also when a file uses it"""
    for spec, uses in unit:
        res.state(("preloaded", repr(spec), uses))
        res.trace()
        case = {"preloaded": spec, "uses": uses}
        pl = [Library(i, port_types={t: PortType(t, [PortField(f) for f in fs]) for t, fs in ts.items()}, models={}) for i, ts in spec]
        ids = [i for i, _ in spec] + ["l0"]
        seen: Dict[str, List[str]] = {}
        exp = len(set(ids)) == len(ids)
        for _, ts in spec:
            for t, fs in ts.items():
                if seen.setdefault(t, fs) != fs:
                    exp = False
        exp = exp and (not uses or uses in seen)
        ok, out = attempt(lambda: resolve_library([parsed(lib_yaml(0, [], [uses] if uses else [], own(0)))], pl))
        res.outcome((ok, None if ok else str(out)[:60]))
        if ok != exp:
            res.violation(f"preloaded libraries {'accepted' if ok else 'refused: %r' % (out,)}", case)
            return
        if not ok:
            continue
        if set(out) != set(ids) or any(out[i].port_types.keys() != ts.keys() for i, ts in spec):
            res.violation(f"libraries returned: {out}", case)
            return
        if uses and [f.name for f in out["l0"].models["m"].ports[f"q{uses}"].port_type.fields] != seen[uses]:
            res.violation("port type of a preloaded library", case)
            return


def other_worker(unit: Any, res: Result) -> None:
    for g in digraphs(2, False) + [set([(0, 1), (1, 2)]), set([(2, 1), (2, 0)])]:
        n = 3 if any(2 in e for e in g) else 2
        for order in permutations(range(n)):
            # missing dependency
            for miss in range(n):
                res.state(("missing", repr(g), order, miss))
                check(n, g, {}, {i: own(i) for i in range(n)}, order, res, missing=miss)
            # preloaded port types
            for uses in ({0: ["P"]}, {n - 1: ["P", f"T{n - 1}"]}, {}):
                res.state(("pre", repr(g), order, repr(uses)))
                check(n, g, uses, {i: own(i) for i in range(n)}, order, res, preloaded={"P": ["a", "b"]})
            types = {i: own(i) for i in range(n)}
            types[0]["P"] = ["zz"]
            res.state(("pre-dup", repr(g), order))
            check(n, g, {}, types, order, res, preloaded={"P": ["a", "b"]})
    # "library.model" designates the model of that library
    libs = resolve_library([parsed(lib_yaml(i, [], [], {})) for i in range(3)])
    for lid, mid in product(("l0", "l1", "l2", "l9", ""), ("m", "only0", "only1", "absent", "")):
        for section in ("components", "nodes"):
            y = f"system:\n  {section}:\n    - {{id: c, model: {lid}.{mid}}}\n"
            exp = lid in libs and mid in libs[lid].models
            res.state(("ref", lid, mid, section))
            res.trace()
            res.step()
            ok, out = attempt(lambda: resolve_system(parse_yaml_components(io.StringIO(y)), libs))
            res.outcome((ok, None if ok else type(out).__name__))
            if ok != exp:
                res.violation(f"model reference {lid}.{mid} {'accepted' if ok else 'refused'}", {"section": section})
            elif ok:
                c = (out.components if section == "components" else out.nodes)["c"]
                if c.model is not libs[lid].models[mid] and (set(c.model.parameters) != set(libs[lid].models[mid].parameters) or c.model.id != mid):
                    res.violation(f"{lid}.{mid} resolved to another model", {"section": section})


def explore(run: Run) -> None:
    units = []
    for n in (1, 2, 3):
        items = []
        for g in digraphs(n, True):
            for order in permutations(range(n)):
                items.append((g, order, all_uses(n, g)))
                if n <= 3 and len(g) <= 4:
                    for i, j in product(range(n), range(n)):
                        items.append((g, order, {i: [f"T{j}"]}))
        units += [(n, ch) for ch in chunks(items, 400)]
    items = []
    orders = list(permutations(range(4)))
    for g in digraphs(4, False):
        for k, order in enumerate(orders if run.thorough else [orders[0], orders[-1], orders[9], orders[14]]):
            items.append((g, order, all_uses(4, g)))
    units += [(4, ch) for ch in chunks(items, 500)]
    if run.thorough:
        items = []
        es = [(a, b) for a in range(5) for b in range(5) if a > b]
        for m in range(1 << len(es)):
            g = {e for i, e in enumerate(es) if m >> i & 1}
            for order in ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 4, 0, 3, 1)):
                items.append((g, order, all_uses(5, g)))
        units += [(5, ch) for ch in chunks(items, 500)]
    for n in (5, 6, 8, 9, 10, 11, 12, 16, 25):
        graphs = [
            {(i, i + 1) for i in range(n - 1)},
            {(0, i) for i in range(1, n)},
            {(i, n - 1) for i in range(n - 1)},
            {(i, j) for i in range(n) for j in range(i)},
            {(i, i + k) for i in range(n) for k in (1, 2) if i + k < n},
            {(i, (i + 1) % n) for i in range(n)},
        ]
        orders2 = [tuple(range(n)), tuple(range(n))[::-1], tuple(sorted(range(n), key=lambda i: (i * 7) % n))]
        if len(set(orders2[2])) != n:
            orders2.pop()
        units.append((n, [(g, o, all_uses(n, g)) for g in graphs for o in orders2]))
    run.parallel(graph_worker, units)
    items2 = []
    for g in digraphs(3, False):
        for order in permutations(range(3)):
            for a, b in ((0, 1), (0, 2), (1, 2)):
                for same in ("same", "more", "other", "none"):
                    items2.append((g, order, a, b, same))
    run.parallel(dup_worker, chunks(items2, 200))
    types = [{}, {"P": ["a"]}, {"P": ["b", "a"]}, {"P": ["a"], "Q": ["c"]}, {"P": ["b"]}]
    libs = [(i, t) for i in ("pre", "other", "l0") for t in types]
    cases = [(list(spec), u) for n in (1, 2, 3) for spec in product(libs if n < 3 else libs[:8], repeat=n) for u in (None, "P", "Q")]
    run.parallel(preloaded_worker, chunks(cases, 300))
    run.local(other_worker)
