"""
C19: building, solving, decomposing and exporting leave their inputs as they were, earlier
problems are not altered by later ones, and the same inputs give the same problem in every
process. All histories of operations over shared inputs, up to a depth.
"""
import gc
import hashlib
import os
import pathlib
import subprocess
import sys
import tempfile
from dataclasses import replace
from itertools import product
from typing import Any, Dict, List, Optional, Tuple

from andromede.simulation import OutputValues, TimeBlock, build_benders_decomposed_problem, build_problem
from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
from andromede.simulation.strategy import ExpectedValue, InvestmentProblemStrategy, OperationalProblemStrategy
from andromede.study import ConstantData, DataBase, Network, Node, PortRef, create_component
from mc.benders import TreeNode, build_tree, models, node_system, reference, tree_data
from mc.checks.c17 import CPL, compare as compare_benders
from mc.core import ROOT, Result, Run, raised_by_implementation, time_limit
from mc.impl import build_data, build_database, build_model, build_port_types, build_system_network, proto_of, read_lp
from mc.lpcheck import chunks, lit, par, var
from mc.spec import ConsSpec, ModelSpec, Reference, SystemSpec, VarSpec, canon_lp, diff_lp

PROPERTY = "C19"
ASSUMPTIONS = ["processes differ by their hash seed and by what they built before; one version of each library"]
BOUNDS = {
    "quick": "all histories of <=3 operations among 13 (4 kinds of builds, solve, decompose, decompose and export, other tree, replicate and extend, other systems with the same identifiers kept and discarded, two failing builds) over shared models, network and data; each problem compared with its reference when built and again at the end; 6 hash seeds x 2 preambles; all histories of 4 changes of the inputs among 6, a problem built after each",
    "thorough": "all histories of <=4 operations, 16 hash seeds",
}

COMPS = ["N", "D", "C", "U", "C2"]
IDS = ["", "root", "a"]
T, S = 4, 3


class World:
    """Shared inputs"""

    def __init__(self) -> None:
        nodes = [TreeNode(i, None, 1.0, [(0, [0])], 1, COMPS) for i in IDS]
        self.data = tree_data(nodes, T, S)
        self.spec = node_system(nodes[0], self.data)
        types = build_port_types(self.spec)
        self.models = {k: build_model(m, types) for k, m in models().items()}
        self.net = build_system_network(self.spec, self.models)
        self.db = build_database(self.spec)
        self.tree_nodes = [
            TreeNode("root", None, 1.0, [(0, [0, 1]), (1, [2])], 2, COMPS, [CPL["C"], CPL["U"]]),
            TreeNode("a", 0, 1.0, [(0, [3])], 1, COMPS, [CPL["C"]]),
        ]
        self.tree = self.make_tree(self.tree_nodes)
        self.held: List[Any] = []

    def make_tree(self, nodes: List[TreeNode]) -> Any:
        res: List[Any] = []
        for n in nodes:
            cfg = InterDecisionTimeScenarioConfig([TimeBlock(b, list(ts)) for b, ts in n.blocks], n.scenarios)
            res.append(DecisionTreeNode(n.id, cfg, self.net, parent=None if n.parent is None else res[n.parent], prob=n.prob))
        for n, r in zip(nodes, res):
            for cp, cum_p, c, cum, inc in n.couplings:
                r.define_coupling_constraint(self.net.get_component(cp), cum_p, self.net.get_component(c), cum, inc)
        return res[0]

    def snapshot(self) -> Any:
        out: List[Any] = []
        for k, m in self.models.items():
            out.append((k, m.id, repr(m.objective_operational_contribution), repr(m.objective_investment_contribution)))
            for v in m.variables.values():
                out.append((v.name, str(v.data_type), repr(v.lower_bound), repr(v.upper_bound), repr(v.structure), str(v.context)))
            for c in m.get_all_constraints():
                out.append((c.name, repr(c.expression), repr(c.lower_bound), repr(c.upper_bound), str(c.context)))
            for d in m.port_fields_definitions.values():
                out.append((repr(d.port_field), repr(d.definition)))
            out.append(sorted((p.name, repr(p.structure)) for p in m.parameters.values()))
        out.append([(c.id, c.model.id) for c in self.net.all_components])
        out.append([(c.port1.component.id, c.port1.port_id, c.port2.component.id, c.port2.port_id) for c in self.net.connections])
        for (c, p) in self.data:
            out.append([self.db.get_data(c, p).get_value(t, s, i) for t in range(T) for s in range(S) for i in IDS])
        return out


def merged(block: List[int], s: int) -> Any:
    def f(w: World) -> Any:
        p = build_problem(w.net, w.db, TimeBlock(1, list(block)), s, solver_id="GLOP")
        return [(p, Reference(w.spec, block, s).lp())]

    return f


def operational(w: World) -> Any:
    p = build_problem(w.net, w.db, TimeBlock(2, [1, 2]), 2, solver_id="GLOP", build_strategy=OperationalProblemStrategy(), risk_strategy=ExpectedValue(0.25), decision_tree_node="a")
    return [(p, Reference(w.spec, [1, 2], 2, "a").lp(("operational", "coupling"), ("op",), 0.25))]


def investment(w: World) -> Any:
    p = build_problem(w.net, w.db, TimeBlock(0, [0]), 1, solver_id="GLOP", build_strategy=InvestmentProblemStrategy(), decision_tree_node="root")
    return [(p, Reference(w.spec, [0], 1, "root").lp(("investment", "coupling"), ("inv",)))]


def solve(w: World) -> Any:
    p = build_problem(w.net, w.db, TimeBlock(1, [0, 1]), 2, solver_id="CBC")
    p.solver.Solve()
    OutputValues(p)
    return [(p, Reference(w.spec, [0, 1], 2).lp())]


class BendersViolation(Exception):
    pass


def decompose(w: World, folder: Optional[pathlib.Path] = None, tree: Any = None, nodes: Any = None) -> Any:
    nodes = nodes or w.tree_nodes
    bp = build_benders_decomposed_problem(tree or w.tree, w.db)
    if folder is not None:
        bp.emplacement = folder
        bp.initialise(is_debug=True)
    r = Result()
    if not compare_benders(bp, nodes, w.data, r, None):
        raise BendersViolation(r.violations[0]["what"])
    return [("benders", bp, nodes)]


def decompose_export(w: World) -> Any:
    with tempfile.TemporaryDirectory() as tmp:
        return decompose(w, pathlib.Path(tmp) / "x")


def other_tree(w: World) -> Any:
    nodes = [
        TreeNode("root", None, 1.0, [(0, [1])], 1, COMPS, [CPL["C2"]]),
        TreeNode("a", 0, 1.0, [(0, [2])], 1, COMPS),
    ]
    return decompose(w, tree=w.make_tree(nodes), nodes=nodes)


def replicate(w: World) -> Any:
    net = w.net.replicate()
    net.add_component(create_component(w.models["DEMAND"], "extra"))
    db = DataBase()
    for (c, p), d in w.data.items():
        db.add_data(c, p, w.db.get_data(c, p))
    db.add_data("extra", "demand", ConstantData(5.0))
    p = build_problem(net, db, TimeBlock(1, [0]), 1, solver_id="GLOP")
    spec = SystemSpec(w.spec.models, [*w.spec.components, ("extra", "DEMAND", "component")], {**w.spec.data, ("extra", "demand"): ("const", 5.0)}, w.spec.connections, w.spec.port_types)
    return [(p, Reference(spec, [0], 1).lp())]


def _scaled(e: Any, k: float) -> Any:
    if isinstance(e, tuple) and e and e[0] == "lit":
        return lit(e[1] * k)
    if isinstance(e, tuple) and e and e[0] == "shift":
        return (e[0], _scaled(e[1], k), e[2])
    return tuple(_scaled(x, k) for x in e) if isinstance(e, tuple) else e


def _other_data(d: Any, k: float) -> Any:
    if d[0] == "const":
        return ("const", d[1] + k)
    if d[0] == "ts":
        return ("ts", [[v + k for v in row] for row in d[1]], d[2])
    return ("tree", {n: _other_data(x, k) for n, x in d[1].items()})


def namesake_spec(w: World, k: int) -> SystemSpec:
    """Another system, whose every identifier is one of the shared system's"""
    ms = {}
    for name, m in w.spec.models.items():
        ms[name] = ModelSpec(
            m.id,
            params=dict(m.params),
            vars={n: replace(v, lb=v.lb if n == "nb" else lit(-1.0 - k), ub=lit(500.0 + k)) for n, v in m.vars.items()},
            cons=[replace(c, expr=_scaled(c.expr, 1.0 + k)) for c in m.cons],
            obj_op=_scaled(m.obj_op, 2.0 + k) if m.obj_op else None,
            obj_inv=_scaled(m.obj_inv, 3.0 + k) if m.obj_inv else None,
            ports=dict(m.ports),
            portdefs={f: ("mul", lit(2.0 + k), d) for f, d in m.portdefs.items()},
        )
    data = {c: _other_data(d, 1.0 + k) for c, d in w.spec.data.items()}
    connections = w.spec.connections[:k] + w.spec.connections[k + 1 :]
    return SystemSpec(ms, list(reversed(w.spec.components)) if k else w.spec.components, data, connections, w.spec.port_types)


def build_namesake(w: World, k: int) -> Any:
    spec = namesake_spec(w, k)
    types = build_port_types(spec)
    ms = {n: build_model(m, types) for n, m in spec.models.items()}
    net = build_system_network(spec, ms)
    p = build_problem(net, build_database(spec), TimeBlock(1, [0, 1]), 2, solver_id="GLOP", decision_tree_node="a")
    return (p, Reference(spec, [0, 1], 2, "a").lp())


def namesake(w: World) -> Any:
    return [build_namesake(w, 1)]


def transient(w: World) -> Any:
    """Systems of the same names built one after the other, none of which is kept"""
    for k in (0, 2, 1):
        item = build_namesake(w, k)
        d = recheck(item, w)
        if d:
            raise BendersViolation(f"system {k} of the same names: {d}")
        del item
        gc.collect(0)
    return []


def failing_data(w: World) -> Any:
    try:
        build_problem(w.net, DataBase(), TimeBlock(1, [0]), 1, solver_id="GLOP")
    except Exception as e:
        if not raised_by_implementation(e):
            raise
    return []


def failing_block(w: World) -> Any:
    try:
        build_problem(w.net, w.db, TimeBlock(1, [0, T + 3]), 1, solver_id="GLOP")
    except Exception as e:
        if not raised_by_implementation(e):
            raise
    return []


OPS: Dict[str, Any] = {
    "merged1": merged([0], 1),
    "merged2": merged([2, 3, 1], 3),
    "operational": operational,
    "investment": investment,
    "solve": solve,
    "decompose": decompose,
    "export": decompose_export,
    "other_tree": other_tree,
    "replicate": replicate,
    "namesake": namesake,
    "transient": transient,
    "failing_data": failing_data,
    "failing_block": failing_block,
}


def recheck(item: Any, w: World) -> Optional[str]:
    if item[0] == "benders":
        r = Result()
        compare_benders(item[1], item[2], w.data, r, None)
        return r.violations[0]["what"] if r.violations else None
    return diff_lp(item[1], read_lp(item[0]))


def history_worker(unit: Any, res: Result) -> None:
    for hist in unit:
        w = World()
        before = w.snapshot()
        for i, op in enumerate(hist):
            case = {"history": hist, "step": i}
            with time_limit(120):
                try:
                    items = OPS[op](w)
                except BendersViolation as e:
                    res.violation(f"after {hist[:i]}, {op} does not give the problem built alone: {e}", case)
                    return
            res.step()
            for it in items:
                d = recheck(it, w)
                if d:
                    res.violation(f"after {hist[:i]}, {op} does not give the problem built alone: {d}", case)
                    return
            w.held += items
            res.state(tuple(hist[: i + 1]))
        for it in w.held:
            d = recheck(it, w)
            res.trace()
            if d:
                res.violation(f"a problem built earlier was altered: {d}", {"history": hist})
                return
        after = w.snapshot()
        res.outcome(repr([type(x).__name__ for x in w.held]))
        if after != before:
            bad = [(a, b) for a, b in zip(before, after) if a != b]
            res.violation(f"the inputs were altered: {bad[:2]}", {"history": hist})
            return
    res.sample({"history": unit[0]})


# -- reproducibility --------------------------------------------------------------
def dump_all(preamble: int) -> str:
    """Everything that a process builds, in order, as a text"""
    from mc.checks.c21 import full_system  # the richest system of the harness, by files
    from mc.impl import build_from_yaml

    w = World()
    if preamble:
        merged([1], 2)(w)
        other_tree(w)
        w = World()
    out: List[str] = []

    def dump(p: Any) -> None:
        proto = proto_of(p.solver)
        out.append(p.name)
        for v in proto.variable:
            out.append(f"V {v.name} {v.lower_bound} {v.upper_bound} {v.is_integer} {v.objective_coefficient}")
        for c in proto.constraint:
            out.append(f"R {c.name} {c.lower_bound} {c.upper_bound} {list(zip(c.var_index, c.coefficient))}")

    for name in ("merged1", "merged2", "operational", "investment", "replicate"):
        for p, _ in OPS[name](w):
            dump(p)
    bp = build_benders_decomposed_problem(w.tree, w.db)
    for p in (bp.master, *bp.subproblems):
        dump(p)
    out.append(bp.export_structure())
    with tempfile.TemporaryDirectory() as tmp:
        dump(build_from_yaml(full_system(), [0, 1], 2, pathlib.Path(tmp)))
    return "\n".join(out)


def seeds_worker(unit: Any, res: Result) -> None:
    texts: Dict[str, Any] = {}
    for seed, preamble in unit:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        out = subprocess.run(
            [sys.executable, "-c", f"import logging; logging.disable(50)\nfrom mc.checks.c19 import dump_all\nprint(dump_all({preamble}))"],
            cwd=ROOT, env=env, capture_output=True, text=True, timeout=300,
        )
        if out.returncode != 0:
            if "/repo/src" in out.stderr:
                res.violation(f"fails in a process of its own: {out.stderr[-1500:]}", {"seed": seed, "preamble": preamble})
                return
            raise RuntimeError(out.stderr[-3000:])
        res.trace()
        res.step(out.stdout.count("\n"))
        res.state(("seed", seed, preamble))
        res.outcome(hashlib.sha256(out.stdout.encode()).hexdigest())
        texts.setdefault(out.stdout, (seed, preamble))
    if len(texts) > 1:
        a, b = list(texts)[:2]
        diff = [(x, y) for x, y in zip(a.splitlines(), b.splitlines()) if x != y]
        res.violation(f"two processes build different problems from the same inputs: {diff[:3]}", {"seeds": list(texts.values())})


EVOLVE = ["replace constant", "replace series", "replace load", "add component", "connect", "other block"]


def evolve_worker(unit: Any, res: Result) -> None:
    """Inputs which the user completes or corrects between two builds: each problem is the one of the inputs of the moment"""
    gen = ModelSpec(
        "gen", params={"k": (False, False), "c": (True, True), "v": (True, False)}, vars={"p": VarSpec(lb=lit(0.0), ub=par("k")), "q": VarSpec(False, True, lb=par("k"))},
        cons=[ConsSpec("m", ("cmp", "<=", ("add", var("p"), ("mul", par("v"), var("q"))), par("c")))],
        obj_op=("expec", ("tsum", ("mul", par("c"), var("p")))), ports={"b": "flow"}, portdefs={("b", "f"): var("p")},
    )
    node = ModelSpec("node", params={"load": (True, False)}, cons=[ConsSpec("bal", ("cmp", "=", ("psum", "b", "f"), par("load")), binding=True)], ports={"b": "flow"})

    def data_of(c: str, k: float) -> Dict[Any, Any]:
        return {
            (c, "k"): ("const", 5.0 + k), (c, "c"): ("ts", [[10.0 * t + s + k for s in range(2)] for t in range(3)], None), (c, "v"): ("time", {t: 2.0 + t + k for t in range(3)}),
        }

    for hist in unit:
        data = {**data_of("g0", 0.5), ("n", "load"): ("time", {t: 3.0 + t for t in range(3)})}
        spec = SystemSpec({"gen": gen, "node": node}, [("n", "node", "node"), ("g0", "gen", "component")], data, [("g0", "b", "n", "b")], {"flow": ["f"]})
        types = build_port_types(spec)
        mods = {k: build_model(m, types) for k, m in spec.models.items()}
        net, db = build_system_network(spec, mods), build_database(spec)
        objs = {"n": net.get_node("n"), "g0": net.get_component("g0")}
        block, loose, done = [0, 1], [], []
        for i, op in enumerate(("start",) + tuple(hist)):
            done.append(op)
            new: Dict[Any, Any] = {}
            if op == "replace constant":
                new = {("g0", "k"): ("const", 20.0 + i)}
            elif op == "replace series":
                new = {k: v for k, v in data_of("g0", 30.0 + i).items() if k[1] != "k"}
            elif op == "replace load":
                new = {("n", "load"): ("const", 40.0 + i)}
            elif op == "add component":
                cid = f"g{i + 1}"
                new = data_of(cid, float(i))
                objs[cid] = create_component(model=mods["gen"], id=cid)
                net.add_component(objs[cid])
                spec = replace(spec, components=spec.components + [(cid, "gen", "component")])
                loose.append(cid)
            elif op == "connect" and loose:
                cid = loose.pop()
                net.connect(PortRef(objs["n"], "b"), PortRef(objs[cid], "b"))
                spec = replace(spec, connections=spec.connections + [("n", "b", cid, "b")])
            elif op == "other block":
                block = {(0, 1): [2, 0, 1], (2, 0, 1): [1], (1,): [0, 1]}[tuple(block)]  # type: ignore
            for k, v in new.items():
                db.add_data(k[0], k[1], build_data(v))
            spec = replace(spec, data={**spec.data, **new})
            with time_limit(60):
                lp = read_lp(build_problem(net, db, TimeBlock(1, block), 2))
            res.step()
            res.trace()
            d = diff_lp(Reference(spec, block, 2).lp(), lp)
            if d:
                res.violation(f"the problem built after these changes is not the one of the inputs: {d}", {"history": done})
                return
        res.state(tuple(hist))
    res.sample({"history": unit[0]})


def explore(run: Run) -> None:
    n = 4 if run.thorough else 3
    hists = [list(h) for h in product(OPS, repeat=n)]
    run.parallel(history_worker, chunks(hists, 40))
    seeds = range(16) if run.thorough else range(6)
    unit = [(s, p) for s in seeds for p in (0, 1)]
    # each unit is compared with the reference process (0, 0)
    run.parallel(seeds_worker, [[(0, 0), u] for u in unit if u != (0, 0)])
    run.parallel(evolve_worker, chunks(list(product(EVOLVE, repeat=5 if run.thorough else 4)), 60))
