"""
C18: the files written for the Benders solver describe the decomposed problem. The files are
read back by an independent reader and compared with the reference decomposition.
"""
import json
import pathlib
import re
import tempfile
from itertools import permutations, product
from typing import Any, Dict, List

from andromede.expression import literal, param as iparam, var as ivar
from andromede.expression.indexing_structure import IndexingStructure
from andromede.model import Constraint, float_variable, model
from andromede.model.common import ProblemContext
from andromede.model.variable import int_variable
from andromede.simulation import TimeBlock, build_benders_decomposed_problem, build_problem
from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
from andromede.study import DataBase, Network, create_component
from mc.benders import reference
from mc.checks.c17 import BLOCKS, FULL, SETS, decompose, large, make
from mc.benders import shapes
from mc.core import Result, Run, raised_by_implementation, time_limit
from mc.lpcheck import chunks, lit, std_data, std_model, var, par
from mc.mps import read_mps
from mc.spec import ConsSpec, Reference, SystemSpec, VarSpec, canon_row, diff_lp_close

PROPERTY = "C18"
ASSUMPTIONS = [
    "the exporter of the solver library writes six significant digits: numbers are compared to 2e-5",
    "characters outside letters, digits and underscore may be replaced in the names of the problem files",
    "a column without any coefficient is not written in the COLUMNS section by the exporter of the solver library: its position is not compared",
]
BOUNDS = {
    "quick": "candidates and operational variables whose names extend each other (110 pairs); all trees of <=3 nodes (4 shapes) and 4 of 4 nodes, 5 block partitions, 1..2 scenarios, 3 component sets (continuous and integer investments), coupled or not; trees of 5..12 nodes, 9..25 blocks or scenarios; all ordered mixes of <=4 variables (continuous/integer, used or not, investment/operational/coupling); names of 1..120 characters; all trees of <=3 nodes with identifiers of nodes and blocks equal, different or colliding once joined; 3 structure names, solver names, log levels",
    "thorough": "all trees of <=4 nodes, and mixes of <=5 variables",
}


def norm(s: str) -> str:
    return re.sub(r"[^A-Za-z0-9_]", "_", s)


def sol_name(node: str, T: int, S: int) -> Any:
    def f(k: Any) -> str:
        c, v, t, s = k
        name = "_".join(x for x in (node, c, v) if x)
        if t is not None and T > 1:
            name += f"_t{t}"
        if s is not None and S > 1:
            name += f"_s{s}"
        return norm(name)

    return f


def read_structure(text: str) -> Dict[str, Dict[str, int]]:
    out: Dict[str, Dict[str, int]] = {}
    for line in text.splitlines():
        if not line.strip():
            continue
        p, c, i = line.split()
        if c in out.setdefault(p, {}):
            c += " (again)"
        out[p][c] = int(i)
    return out


def check_structure(structure: Dict[str, Dict[str, int]], files: Dict[str, Any], res: Result, case: Any) -> bool:
    """files: problem -> (columns in the order of the file, all columns)"""
    # the problem under which the candidates of the master are listed
    masters = files["master"][1]
    for p, (columns, all_columns) in files.items():
        linked = structure.get(p, {})
        candidates = {c for c in all_columns if c in masters}
        res.step(len(linked))
        names = {norm(c) for c in linked}
        if names != {norm(c) for c in candidates}:
            res.violation(f"{p} is linked to {sorted(linked)} instead of {sorted(candidates)}", case)
            return False
        for c, i in linked.items():
            if norm(c) in columns and (i >= len(columns) or i < 0 or columns[i] != norm(c)):
                at = columns.index(norm(c))
                res.violation(f"{c} of {p} is column {at} of its file, the structure gives {i}", case)
                return False
    extra = [p for p in structure if p not in files]
    if extra:
        res.violation(f"the structure has problems that were not written: {extra}", case)
        return False
    return True


def export(bp: Any, folder: pathlib.Path, **kw: Any) -> Dict[str, Any]:
    bp.emplacement = folder
    bp.initialise(**kw)
    return {f.name: f.read_text() for f in folder.iterdir() if f.is_file()}


def tree_worker(unit: Any, res: Result) -> None:
    for k, nodes in enumerate(unit):
        case = {"tree": [n.describe() for n in nodes]}
        res.state(repr(case))
        data, tree, db = decompose(nodes, False)
        sname = ("structure.txt", "links.dat", "s.txt")[k % 3]
        solver, level, debug = (("XPRESS", 0, False), ("CBC", 3, True), ("COIN", 1, False))[(k // 2) % 3]
        with time_limit(120), tempfile.TemporaryDirectory() as tmp:
            bp = build_benders_decomposed_problem(tree[0], db, struct_filename=sname)
            files = export(bp, pathlib.Path(tmp) / "lp", solver_name=solver, log_level=level, is_debug=debug)
        master, subs = reference(nodes, data)
        expected = {"master.mps", *[f"{p}.mps" for p in subs], sname, "options.json"}
        if debug:
            expected |= {"master.lp", *[f"{p}.lp" for p in subs]}
        if set(files) != expected:
            res.violation(f"files {sorted(files)} instead of {sorted(expected)}", case)
            return
        cols: Dict[str, Any] = {}
        ref_lps = {"master": master.rename(norm)}
        for i, n in enumerate(nodes):
            for bid, ts in n.blocks:
                p = "subproblem" + (f"_{n.id}" if len(nodes) > 1 else "") + (f"_b{bid}" if len(n.blocks) > 1 else "")
                ref_lps[p] = subs[p].rename(sol_name(n.id, len(ts), n.scenarios))
        for p, ref in ref_lps.items():
            columns, lp = read_mps(files[f"{p}.mps"])
            d = diff_lp_close(ref, lp, 2e-5)
            res.trace()
            res.step(len(ref.rows))
            res.outcome(tuple(map(repr, map(canon_row, lp.rows)))[:40])
            if d:
                res.violation(f"{p}.mps: {d}", case)
                return
            cols[p] = (columns, set(lp.vars))
        if not check_structure(read_structure(files[sname]), cols, res, case):
            return
        opts = json.loads(files["options.json"])
        want = {"MASTER_NAME": "master", "STRUCTURE_FILE": sname, "SOLVER_NAME": solver, "LOG_LEVEL": level, "INPUTROOT": ".", "JSON_FILE": "expansion/out.json", "SLAVE_WEIGHT": "CONSTANT", "SLAVE_WEIGHT_VALUE": 1}
        bad = {k2: opts.get(k2) for k2, v in want.items() if opts.get(k2) != v}
        if bad:
            res.violation(f"options {bad}", case)
            return
    res.sample(case)


# -- mixes of variables -----------------------------------------------------------
KINDS = [(ctx, integer, used) for ctx in ("I", "C", "O") for integer in (False, True) for used in (True, False)]


def mix_system(kinds: Any) -> Any:
    ctx = {"I": ProblemContext.INVESTMENT, "C": ProblemContext.COUPLING, "O": ProblemContext.OPERATIONAL}
    vs, inv, op = [], [], []
    row: List[Any] = []
    for i, (c, integer, used) in enumerate(kinds):
        mk = int_variable if integer else float_variable
        name = f"v{i}"
        vs.append(mk(name, literal(0), literal(10 + i), structure=IndexingStructure(used == "cancel", False), context=ctx[c]))
        if used == "cancel":  # on a block of one timestep, these are the same
            row.append(ivar(name) - ivar(name).shift(1))
        elif used == "zero":
            # named by the problem, with a coefficient of zero
            row.append(literal(0) * ivar(name))
            if c in "IC":
                inv.append(literal(0) * ivar(name))
        elif used:
            row.append(literal(i + 3) * ivar(name))
            if c in "IC":
                inv.append(literal(i + 2) * ivar(name))
            if c in "CO":
                op.append(literal(i + 20) * ivar(name))
    kw: Dict[str, Any] = {}
    if inv:
        e = inv[0]
        for x in inv[1:]:
            e = e + x
        kw["objective_investment_contribution"] = e
    if op:
        e = op[0]
        for x in op[1:]:
            e = e + x
        kw["objective_operational_contribution"] = e
    if any(k[2] in ("zero", "cancel") for k in kinds):
        row = [r for r, k in zip(row, [k for k in kinds if k[2]]) if k[0] in "CO"]
        if row:
            e = row[0]
            for x in row[1:]:
                e = e + x
            kw["constraints"] = [Constraint("row", e <= literal(100))]
    net = Network("n")
    net.add_component(create_component(model(id="M", variables=vs, **kw), "c"))
    return net


def mix_worker(unit: Any, res: Result) -> None:
    for kinds in unit:
        case = {"variables": kinds}
        res.state(repr(kinds))
        net = mix_system(kinds)
        root = DecisionTreeNode("", InterDecisionTimeScenarioConfig([TimeBlock(0, [0])], 1), net)
        with time_limit(60):
            bp = build_benders_decomposed_problem(root, DataBase())
            structure = read_structure(bp.export_structure())
            cols = {}
            for p in [bp.master, *bp.subproblems]:
                columns, lp = read_mps(p.export_as_mps())
                # unused columns without explicit bound lines are still in the problem
                allc = {"c_" + f"v{i}" for i, k in enumerate(kinds) if k[0] in ("IC" if p is bp.master else "CO")}
                cols[p.name] = (columns, allc)
        res.trace()
        res.outcome(repr(structure))
        if not check_structure(structure, cols, res, case):
            return
    res.sample(case)


def names_worker(unit: Any, res: Result) -> None:
    """Names of all lengths around the widths of the fields, and usual punctuation"""
    for n, sep in unit:
        for tree in (False, True):
            cid = ("c" * n)[: n - 1] + sep if sep else "c" * n
            case = {"component": cid, "tree": tree}
            res.state(repr(case))
            net = mix_system([("C", False, True), ("I", True, True), ("O", False, True)])
            net = Network("n")
            src = mix_system([("C", False, True), ("I", True, True), ("O", True, True)])
            net.add_component(create_component(src.get_component("c").model, cid))
            cfg = InterDecisionTimeScenarioConfig([TimeBlock(0, [0]), TimeBlock(7, [1])], 1)
            root = DecisionTreeNode("r" * n if tree else "r", cfg, net)
            if tree:
                DecisionTreeNode("k" * n, cfg, net, parent=root)
            bp = build_benders_decomposed_problem(root, DataBase())
            structure = read_structure(bp.export_structure())
            cols = {}
            ids = [x.id for x in root.traverse()]
            for p in [bp.master, *bp.subproblems]:
                columns, lp = read_mps(p.export_as_mps())
                cols[p.name] = (columns, {norm(c) for c in lp.vars})
            res.trace()
            if not check_structure({p: {norm(c): i for c, i in x.items()} for p, x in structure.items()}, cols, res, case):
                return
            want = {f"{i}_{cid}_{v}" for i in ids for v in ("v0", "v1")}
            if set(structure["master"]) != want:
                res.violation(f"candidates {structure['master']} instead of {sorted(want)}", case)
                return


def row_worker(unit: Any, res: Result) -> None:
    """Problem files: all kinds of bounds and rows"""
    bounds = [None, lit(0.0), lit(-4.5), lit(3.0)]
    for kind, lb, ub in product(("continuous", "integer", "boolean"), bounds, bounds + [lit(1.0 / 3)]):
        if kind == "boolean" and (lb is not None or ub is not None):
            continue
        if lb is not None and ub is not None and lb[1] > ub[1]:
            continue
        if kind == "integer" and ub is not None and ub[1] == 1.0 / 3:
            continue
        m = std_model()
        m.vars = {k: VarSpec(v.time, v.scen, lb=lb, ub=ub, kind=kind) for k, v in m.vars.items()}
        e = ("add", ("mul", par("pt"), var("xts")), ("div", var("xt"), lit(3.0)), var("xs"), var("xc"), par("ps"))
        for clb, cub in product(bounds, bounds):
            if clb is not None and cub is not None and clb[1] > cub[1]:
                continue
            if clb is None and cub is None:
                continue
            m.cons = [ConsSpec("row", e, clb, cub)]
            m.obj_op = ("expec", ("tsum", ("add", ("mul", par("pts"), var("xts")), var("xt"), lit(2.0))))
            sys = SystemSpec({"M": m}, [("c1", "M", "component")], std_data("c1", 2, 2))
            from mc.impl import build

            case = {"variable": (kind, lb, ub), "row": (clb, cub)}
            res.state(repr(case))
            ref = Reference(sys, [0, 1], 2).lp().rename(sol_name("", 2, 2))
            for solver in ("GLOP", "CBC"):
                columns, lp = read_mps(build(sys, [0, 1], 2, solver).export_as_mps())
                d = diff_lp_close(ref, lp, 2e-5)
                res.trace()
                res.step(len(ref.rows))
                res.outcome(repr(lp.rows[0]))
                if d:
                    res.violation(f"problem file: {d}", case)
                    return


def prefix_worker(unit: Any, res: Result) -> None:
    """Variables whose names begin, end or continue like that of a candidate"""
    names = ["i_t", "i_t0x", "i_s", "i2", "ii", "I", "x_i", "i_i", "_i", "i_"]
    for (cand, other), coupling, tree in product(permutations(["i"] + names, 2), (False, True), (False, True)):
        ctx = ProblemContext.COUPLING if coupling else ProblemContext.INVESTMENT
        case = {"candidate": cand, "operational variable": other, "in the sub-problem": coupling, "tree": tree}
        res.state(repr(case))
        res.trace()
        m = model(
            id="M",
            variables=[
                float_variable(other, literal(0), structure=IndexingStructure(True, True)),
                float_variable(cand, literal(0), literal(9), structure=IndexingStructure(False, False), context=ctx),
            ],
            constraints=[Constraint("c", ivar(other) + (ivar(cand) if coupling else literal(0)) >= literal(1))],
            objective_operational_contribution=ivar(other).time_sum().expec(),
            objective_investment_contribution=ivar(cand),
        )
        net = Network("n")
        net.add_component(create_component(m, "G"))
        cfg = InterDecisionTimeScenarioConfig([TimeBlock(0, [0, 1]), TimeBlock(1, [2])], 2)
        root = DecisionTreeNode("r", cfg, net)
        if tree:
            DecisionTreeNode("k", cfg, net, parent=root)
        bp = build_benders_decomposed_problem(root, DataBase())
        cols = {}
        for p in [bp.master, *bp.subproblems]:
            columns, lp = read_mps(p.export_as_mps())
            cols[p.name] = (columns, {norm(c) for c in lp.vars})
        if not check_structure(read_structure(bp.export_structure()), cols, res, case):
            return


def collision_worker(unit: Any, res: Result) -> None:
    """Recorded limit: identifiers which collide once joined by underscores"""
    mk = lambda name, c: model(
        id="M" + c,
        variables=[
            float_variable("z", literal(0), literal(5), structure=IndexingStructure(False, False)),
            float_variable(name, literal(0), literal(5), structure=IndexingStructure(False, False), context=ProblemContext.COUPLING),
        ],
        objective_operational_contribution=ivar("z") + ivar(name),
        objective_investment_contribution=ivar(name),
    )
    for (c1, v1), (c2, v2), known in (
        (("a", "b_c"), ("a_b", "c"), True),
        (("a", "b_c"), ("ab", "c"), False),
        (("a", "v"), ("b", "v"), False),
        (("a_b", "c"), ("a", "c"), False),
    ):
        net = Network("n")
        net.add_component(create_component(mk(v1, "1"), c1))
        net.add_component(create_component(mk(v2, "2"), c2))
        root = DecisionTreeNode("", InterDecisionTimeScenarioConfig([TimeBlock(0, [0])], 1), net)
        res.state((c1, v1, c2, v2))
        res.trace()
        bp = build_benders_decomposed_problem(root, DataBase())
        structure = read_structure(bp.export_structure())
        if len(structure["master"]) != 2 or len(structure["subproblem"]) != 2:
            if known:
                res.known_finding("joined-identifiers")
            else:
                res.violation(f"structure {structure}", {"variables": ((c1, v1), (c2, v2))})


def ids_worker(unit: Any, res: Result) -> None:
    """Identifiers of nodes and blocks: each problem has its own file and each candidate its own column, or the tree is refused"""
    cand = model(
        id="M",
        variables=[
            float_variable("x", literal(0), structure=IndexingStructure(True, False)),
            float_variable("i", literal(0), literal(9), structure=IndexingStructure(False, False), context=ProblemContext.COUPLING),
        ],
        constraints=[Constraint("c", ivar("x") >= ivar("i"))],
        objective_operational_contribution=ivar("x").time_sum(),
        objective_investment_contribution=ivar("i"),
    )
    for ids, blocks, chain in unit:
        case = {"nodes": ids, "blocks": blocks, "chain": chain}
        res.state(repr(case))
        res.trace()
        n = len(ids)
        nodes: List[Any] = []
        for k, (i, bs) in enumerate(zip(ids, blocks)):
            net = Network("n")
            net.add_component(create_component(cand, "G"))
            cfg = InterDecisionTimeScenarioConfig([TimeBlock(b, [j]) for j, b in enumerate(bs)], 1)
            parent = None if not nodes else nodes[-1 if chain else 0]
            nodes.append(DecisionTreeNode(i, cfg, net, parent=parent, prob=1.0 if not nodes or chain else 1.0 / (n - 1)))
        names = [f"_{i}" * (n > 1) + f"_b{b}" * (len(bs) > 1) for i, bs in zip(ids, blocks) for b in bs]
        clear = len(set(ids)) == n and len(set(names)) == len(names)
        with tempfile.TemporaryDirectory() as tmp:
            try:
                bp = build_benders_decomposed_problem(nodes[0], DataBase())
                bp.emplacement = pathlib.Path(tmp) / "x"
                bp.initialise()
            except Exception as e:
                if not raised_by_implementation(e):
                    raise
                res.outcome("refused")
                if clear:
                    res.violation(f"a tree whose nodes and blocks have different identifiers was refused: {e!r}", case)
                    return
                continue
            files = {f.stem for f in (pathlib.Path(tmp) / "x").glob("*.mps")}
            structure = read_structure((pathlib.Path(tmp) / "x" / "structure.txt").read_text())
        res.step()
        res.outcome(repr((len(files), len(structure))))
        if len(files) != 1 + len(names):
            res.violation(f"{len(files)} problem files for {1 + len(names)} problems: {sorted(files)}", case)
            return
        if len(structure) != 1 + len(names) or len(structure["master"]) != n or any(len(structure[p]) != 1 for p in structure if p != "master"):
            res.violation(f"the structure file does not have each candidate of each problem: {structure}", case)
            return


def explore(run: Run) -> None:
    trees: List[Any] = []
    shape_list = [s for n in range(1, 4) for s in shapes(n)]
    four = list(shapes(4))
    shape_list += four if run.thorough else four[::2]
    for shape in shape_list:
        n = len(shape)
        every = {i: ["C", "U", "C2"] for i in range(n)}
        for b, s, cs, cpl in product(range(len(BLOCKS)), (1, 2), ("full", "two", "min"), (every, {})):
            trees.append(make(shape, [BLOCKS[(b + i) % 5] for i in range(n)], [s] * n, [SETS[cs]] * n, cpl))
    run.parallel(tree_worker, chunks(trees, 12) + chunks(large(), 3))
    top = 5 if run.thorough else 4
    mixes = []
    for n in range(1, top + 1):
        kinds = KINDS if n <= 3 else [k for k in KINDS if k[2]]
        mixes += list(product(kinds, repeat=n))
    # a master needs a candidate
    mixes = [m for m in mixes if any(k[0] in "IC" for k in m)]
    used = [k for k in KINDS if k[2]]
    zero = [(c, i, "zero") for c in "ICO" for i in (False, True)] + [("O", i, "cancel") for i in (False, True)]
    for n in (1, 2, 3):
        mixes += [m for m in product(used + zero if n < 3 else used[::2] + zero, repeat=n) if any(k in zero for k in m) and any(k[0] in "IC" for k in m)]
    run.parallel(mix_worker, chunks(mixes, 150))
    run.parallel(names_worker, [[(n, s)] for n in [1, 2, 10, 22, 30, 40, 44, 45, 46, 47, 48, 49, 50, 51, 52, 60, 100, 120] for s in ("", "-")])
    run.local(row_worker)
    run.local(collision_worker)
    run.local(prefix_worker)
    block_ids = [[0], [1], [0, 1], [0, 0], [1, 0], [2, 1]]
    cases = []
    for n in (1, 2, 3):
        for ids in product(("a", "b", "a_b1"), repeat=n):
            for bs in product(block_ids if n < 3 else block_ids[2:4] + block_ids[:1], repeat=n):
                for chain in (False, True) if n == 3 else (True,):
                    cases.append((ids, bs, chain))
    run.parallel(ids_worker, chunks(cases, 60))
