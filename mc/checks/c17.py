"""
C17: the Benders decomposition of a decision tree is the whole problem: each operational
element in exactly one sub-problem, each investment one in the master, with the weight of
its node, and the coupling of cumulative variables along the tree.
"""
from itertools import product
from typing import Any, List

from andromede.simulation import TimeBlock, build_benders_decomposed_problem
from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
from mc.benders import TreeNode, build_tree, models, probabilities, reference, shapes, tree_data
from mc import names
from mc.core import Result, Run, raised_by_implementation, time_limit
from mc.impl import read_lp, read_lp_by_name
from mc.lpcheck import chunks
from mc.spec import canon_lp, canon_row, diff_lp, nothing_cancels

PROPERTY = "C17"
ASSUMPTIONS = [
    "investment variables depend neither on time nor on scenarios",
    "identifiers of tree nodes, components and variables do not collide once joined by underscores (limit recorded in known_findings.txt)",
]
BOUNDS = {
    "quick": "all trees of <=4 nodes (10 shapes), coupled everywhere, nowhere or at any subset of nodes; 5 block partitions, equal or different per node, 1..2 scenarios, 3 component sets, shared or own networks; each decomposed twice; trees of 5..12 nodes in 4 shapes (chains, stars, binary...), 9..25 blocks, timesteps or scenarios, look-alike identifiers of nodes, costs and coefficients multiplied by -1, -0.001, 1e-9, 1e-5, 1e7, children of probability zero",
    "thorough": "all trees of <=5 nodes (34 shapes), the same options in full combination",
}

FULL = ["N", "D", "C", "U"]
SETS = {"full": FULL, "two": ["N", "D", "C", "C2"], "min": ["N", "D", "C"]}
BLOCKS: List[Any] = [
    [(0, [0])],
    [(1, [0, 1])],
    [(1, [0, 1]), (2, [2])],
    [(3, [2]), (1, [0, 1])],
    [(0, [0]), (1, [1]), (2, [2, 3])],
]
IDS = ["root", "a", "b", "c2", "leaf"]
CPL = {
    "C": ("C", "invested", "C", "invested", "delta"),
    "C2": ("C2", "invested", "C2", "invested", "delta"),
    "U": ("U", "nb", "U", "nb", "new"),
    # the component of the parent is another one
    "X": ("C2", "invested", "C", "invested", "delta"),
}


def make(shape: Any, blocks: Any, scens: Any, comps: Any, coupled: Any, ids: Any = None) -> List[TreeNode]:
    pr = probabilities(shape)
    nodes = []
    for i, p in enumerate(shape):
        cs = comps[i]
        cpl = []
        for c in coupled.get(i, []):
            if CPL[c][2] in cs and (p is None or CPL[c][0] in comps[p]):
                cpl.append(CPL[c])
        nodes.append(TreeNode((ids or IDS)[i], p, pr[i], blocks[i], scens[i], cs, cpl))
    return nodes


def decompose(nodes: List[TreeNode], share: bool, scale: float = 1.0, eager: bool = False) -> Any:
    steps = max(t for n in nodes for b in n.blocks for t in b[1]) + 1
    data = tree_data(nodes, max(steps, 4), max([3] + [n.scenarios for n in nodes]), scale)
    tree, db = build_tree(nodes, data, share, eager)
    return data, tree, db


def compare(bp: Any, nodes: Any, data: Any, res: Result, case: Any) -> bool:
    master, subs = reference(nodes, data)
    got_names = [p.name for p in bp.subproblems]
    if sorted(got_names) != sorted(subs):
        res.violation(f"sub-problems {got_names} instead of {sorted(subs)}", case)
        return False
    for p in bp.subproblems:
        d = diff_lp(subs[p.name], read_lp(p))
        res.trace()
        res.step(len(subs[p.name].rows))
        if d:
            res.violation(f"sub-problem {p.name}: {d}", case)
            return False
    lp = read_lp_by_name(bp.master.solver)
    if len(lp.vars) != bp.master.solver.NumVariables():
        res.violation("two columns of the master have the same name", case)
        return False
    d = diff_lp(master, lp)
    res.trace()
    res.step(len(master.rows))
    res.outcome(tuple(map(repr, map(canon_row, lp.rows))))
    if d:
        res.violation(f"master: {d}", case)
        return False
    return True


def worker(unit: Any, res: Result) -> None:
    for k, (nodes, share, *more) in enumerate(unit):
        scale = more[0] if more else 1.0
        case = {"tree": [n.describe() for n in nodes], "shared network": share, "scale of costs": scale, "coupled before the next nodes exist": bool(k % 2)}
        res.state(repr(case))
        with time_limit(300), nothing_cancels():
            data, tree, db = decompose(nodes, share, scale, bool(k % 2))
            for _ in range(2):  # the second decomposition must not see the first one
                bp = build_benders_decomposed_problem(tree[0], db)
                if not compare(bp, nodes, data, res, case):
                    return
        # an unrelated tree decomposed afterwards
    res.sample(case)


def two_trees_worker(unit: Any, res: Result) -> None:
    """Two trees over the same networks and database, in all orders of building"""
    nodes1 = make([None, 0], [BLOCKS[1]] * 2, [1, 1], [FULL] * 2, {0: ["C"], 1: ["C"]})
    nodes2 = make([None, 0, 0], [BLOCKS[0]] * 3, [2] * 3, [FULL] * 3, {0: ["U"], 2: ["C", "U"]})
    for order in ((0, 1), (1, 0), (0, 1, 0), (1, 0, 1), (0, 0, 1, 1)):
        trees = [decompose(nodes1, True), decompose(nodes2, True)]
        for i in order:
            data, tree, db = trees[i]
            nodes = (nodes1, nodes2)[i]
            case = {"order": order, "tree": [n.describe() for n in nodes]}
            res.state(repr(case))
            if not compare(build_benders_decomposed_problem(tree[0], db), nodes, data, res, case):
                return


def refused_worker(unit: Any, res: Result) -> None:
    """Probabilities that do not sum to one, unknown components and variables in couplings"""

    def expect(what: str, f: Any, ok: bool) -> None:
        res.state(what)
        res.trace()
        res.step()
        try:
            with time_limit(60):
                f()
            good = True
        except Exception as e:
            if not raised_by_implementation(e):
                raise
            good = False
        res.outcome((what, good))
        if good != ok:
            res.violation(f"{what}: {'accepted' if good else 'refused'}", what)

    for shape in ([None, 0], [None, 0, 0], [None, 0, 0, 1, 1], [None, 0, 1, 1]):
        n = len(shape)
        for i in range(1, n):
            for delta in (0.0, -0.0625, 0.125):
                nodes = make(shape, [BLOCKS[0]] * n, [1] * n, [SETS["min"]] * n, {})
                nodes[i].prob += delta
                if nodes[i].prob > 1:
                    continue
                data, tree, db = decompose(nodes, False)
                expect(f"shape {shape}, probability of node {i} changed by {delta}", lambda: build_benders_decomposed_problem(tree[0], db), delta == 0)
    nodes = make([None, 0], [BLOCKS[0]] * 2, [1] * 2, [SETS["two"], SETS["min"]], {})
    data, tree, db = decompose(nodes, False)
    root, child = tree
    c, c2 = root.network.get_component("C"), root.network.get_component("C2")
    cc = child.network.get_component("C")
    other = build_tree(make([None], [BLOCKS[0]], [1], [FULL], {}), data)[0][0].network.get_component("U")
    tbl = [
        ("child coupling", lambda: child.define_coupling_constraint(c, "invested", cc, "invested", "delta"), True),
        ("other component of the parent", lambda: child.define_coupling_constraint(c2, "invested", cc, "invested", "delta"), True),
        ("component of another network as parent", lambda: child.define_coupling_constraint(other, "nb", cc, "invested", "delta"), False),
        ("component of another network", lambda: child.define_coupling_constraint(c, "invested", other, "nb", "new"), False),
        ("component of the parent as child", lambda: child.define_coupling_constraint(c, "invested", c2, "invested", "delta"), False),
        ("unknown cumulative variable of the parent", lambda: child.define_coupling_constraint(c, "none", cc, "invested", "delta"), False),
        ("unknown cumulative variable", lambda: child.define_coupling_constraint(c, "invested", cc, "none", "delta"), False),
        ("unknown incremental variable", lambda: child.define_coupling_constraint(c, "invested", cc, "invested", "none"), False),
        ("root coupling", lambda: root.define_coupling_constraint(c, "invested", c, "invested", "delta"), True),
        ("root coupling, unknown variable", lambda: root.define_coupling_constraint(c, "invested", c, "none", "delta"), False),
    ]
    for what, f, ok in tbl:
        expect(what, f, ok)


def large() -> List[List[TreeNode]]:
    """Deep and wide trees, many blocks and scenarios"""
    out = []
    ids = [f"n{i}" for i in range(25)]
    for n in (5, 6, 8, 12):
        for shape in ([None] + list(range(n - 1)), [None] + [0] * (n - 1), [None] + [(i - 1) // 2 for i in range(1, n)], [None] + [max(0, i - 2) for i in range(1, n)]):
            out.append(make(shape, [BLOCKS[i % 2] for i in range(n)], [1] * n, [SETS["two"]] * n, {i: ["C", "C2"] for i in range(n)}, ids))
    for n in (9, 10, 11, 12, 25):
        blocks = [(b, [b]) for b in range(n)]
        out.append(make([None], [blocks], [1], [FULL], {0: ["C", "U"]}))
        out.append(make([None, 0], [blocks, blocks[::-1]], [1, 1], [FULL] * 2, {1: ["C", "U"]}))
        out.append(make([None, 0], [[(0, list(range(n)))]] * 2, [1, 1], [FULL] * 2, {1: ["C", "U"]}))
        out.append(make([None, 0], [BLOCKS[1]] * 2, [n, 1], [FULL] * 2, {1: ["C", "U"]}))
    for group in names.PLAIN:
        out.append(make([None] + [0] * (len(group) - 1), [BLOCKS[1]] * len(group), [1] * len(group), [SETS["two"]] * len(group), {i: ["C", "C2"] for i in range(len(group))}, group))
    return out


def explore(run: Run) -> None:
    top = 5 if run.thorough else 4
    cases: List[Any] = []
    for n in range(1, top + 1):
        for shape in shapes(n):
            subsets = [[i for i in range(n) if m >> i & 1] for m in range(1 << n)]
            # every subset of coupled nodes, with small sub-problems
            for sub in subsets:
                cases.append((make(shape, [BLOCKS[0]] * n, [1] * n, [FULL] * n, {i: ["C"] for i in sub}), False))
                cases.append((make(shape, [BLOCKS[0]] * n, [1] * n, [SETS["two"]] * n, {i: ["C", "C2"] for i in sub}), True))
                cases.append((make(shape, [BLOCKS[0]] * n, [1] * n, [SETS["two"]] * n, {i: (["X"] if i else ["X", "C2"]) for i in sub}), False))
                cases.append((make(shape, [BLOCKS[0]] * n, [1] * n, [SETS["two"]] * n, {i: ["C", "X"] for i in sub}), False))
                cases.append((make(shape, [BLOCKS[0]] * n, [1] * n, [FULL] * n, {i: (["C", "U"] if i % 2 else ["U"]) for i in sub}), False))
            # blocks and scenarios
            every = {i: ["C", "U", "C2"] for i in range(n)}
            for b, s in product(range(len(BLOCKS)), (1, 2)):
                for cs, share in (("full", True), ("min", False)):
                    cases.append((make(shape, [BLOCKS[b]] * n, [s] * n, [SETS[cs]] * n, every), share))
                    # different at each node
                    blocks = [BLOCKS[(b + i) % len(BLOCKS)] for i in range(n)]
                    scens = [1 + (s + i) % 3 for i in range(n)]
                    comps = [[SETS["full"], SETS["min"], SETS["two"]][(b + i) % 3] for i in range(n)]
                    cases.append((make(shape, blocks, scens, comps, every), False))
    # identifiers: empty for a single node
    for b in BLOCKS:
        for cpl in ({}, {0: ["C"]}, {0: ["C", "U"]}):
            cases.append((make([None], [b], [2], [FULL], cpl, [""]), False))
    cases += [(nodes, False) for nodes in large()]
    # costs and coefficients of any sign and magnitude, nodes of probability zero
    for shape in [s for n in (1, 2, 3) for s in shapes(n)]:
        n = len(shape)
        for scale in (-1.0, -0.001, 1e-9, 1e-5, 1e7):
            for cpl in ({}, {i: ["C", "U"] for i in range(n)}):
                cases.append((make(shape, [BLOCKS[1]] * n, [2] * n, [FULL] * n, cpl), False, scale))
    for shape in [s for n in (3, 4) for s in shapes(n)]:
        n = len(shape)
        for p in range(n):
            kids = [i for i in range(n) if shape[i] == p]
            for last in kids if len(kids) > 1 else []:
                nodes = make(shape, [BLOCKS[0]] * n, [1] * n, [SETS["two"]] * n, {i: ["C", "C2"] for i in range(n)})
                for i in kids:
                    nodes[i].prob = float(i == last)
                cases.append((nodes, False))
    run.notes["trees"] = len(cases)
    run.parallel(worker, chunks(cases, 6))
    run.local(two_trees_worker)
    run.local(refused_worker)
