"""
C29: decision trees. All trees up to a size, all conditional probabilities over an alphabet,
all ways of attaching each node (when created, through the children of its parent, later), in
all orders; invalid probabilities at each position.
"""
import itertools
from fractions import Fraction
from typing import Any, Dict, List, Optional, Tuple

from andromede.simulation import TimeBlock
from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
from andromede.study.network import Network
from mc.core import Result, Run

PROPERTY = "C29"
ASSUMPTIONS = ["the sum over the leaves is only judged for trees without a node of probability zero above the leaves (below it every sum is zero)"]
BOUNDS = {
    "quick": "all ordered trees of <=5 nodes, conditional probabilities in {0,1/4,1/2,3/4,1} (<=4 nodes) or {1/2,1} (5 nodes); nodes attached when created, through children=, or by a later assignment, in every order (<=4 nodes); 7 invalid probabilities at every position; children summing to one or off by 1e-5..0.5 below nodes of probability 1..1e-9",
    "thorough": "the same with all probabilities for 5 nodes, {1/2,1} for 6 nodes, and every order for 5 nodes",
}
ALPHABET = [Fraction(0), Fraction(1, 4), Fraction(1, 2), Fraction(3, 4), Fraction(1)]


def shapes(n: int) -> List[Tuple[int, ...]]:
    """parent of nodes 1..n-1, each among the previous nodes"""
    return list(itertools.product(*[range(i) for i in range(1, n)]))


def check(nodes: Dict[int, Any], parents: Dict[int, Optional[int]], order: Dict[int, List[int]], probs: Any, nets: Any, cfgs: Any, what: Any, res: Result) -> bool:
    n = len(parents)

    def ref(i: int) -> Fraction:
        return probs[i] * (ref(parents[i]) if parents[i] is not None else 1)  # type: ignore

    for i in range(n):
        if abs(nodes[i].prob - float(ref(i))) > 1e-12:
            res.violation(f"probability of node {i} is {nodes[i].prob}, expected {float(ref(i))}", what)
            return False
        if nodes[i].network is not nets[i] or nodes[i].config is not cfgs[i] or nodes[i].id != f"n{i}":
            res.violation(f"node {i} does not keep its identifier, network or configuration", what)
            return False
        got = [int(c.id[1:]) for c in nodes[i].children]
        if got != order[i]:
            res.violation(f"children of node {i}: {got}, expected {order[i]}", what)
            return False
    roots = [i for i in range(n) if parents[i] is None]
    for r in roots:
        levels: List[List[int]] = [[r]]
        while levels[-1]:
            levels.append([c for p in levels[-1] for c in order[p]])
        for depth in [None] + list(range(1, len(levels) + 3)):
            exp = [i for l in (levels if depth is None else levels[:depth]) for i in l]
            got = [int(x.id[1:]) for x in nodes[r].traverse(depth)] if depth is not None else [int(x.id[1:]) for x in nodes[r].traverse()]
            if got != exp:
                res.violation(f"traversal from {r} to depth {depth}: {got}, expected {exp}", what)
                return False
        inner = [i for l in levels for i in l if order[i]]
        if all(ref(i) > 0 for i in inner):
            exp_one = all(sum(probs[c] for c in order[i]) == 1 for i in inner)
            got_one = nodes[r].is_leaves_prob_sum_one()
            if got_one != exp_one:
                res.violation(f"is_leaves_prob_sum_one of node {r}: {got_one}, expected {exp_one}", what)
                return False
            res.outcome((got_one, tuple(sorted(map(str, (ref(i) for i in range(n)))))))
    return True


def worker(unit: Any, res: Result) -> None:
    shape, alphabet = unit
    n = len(shape) + 1
    nets = [Network(f"net{i}") for i in range(n)]
    cfgs = [InterDecisionTimeScenarioConfig([TimeBlock(i + 1, list(range(i + 1)))], i + 1) for i in range(n)]
    for probs in itertools.product(alphabet, repeat=n):
        nodes: Dict[int, Any] = {}
        parents: Dict[int, Optional[int]] = {}
        order: Dict[int, List[int]] = {}
        what = {"parents": shape, "probabilities": [str(p) for p in probs]}
        for i in range(n):
            p = None if i == 0 else shape[i - 1]
            nodes[i] = DecisionTreeNode(f"n{i}", cfgs[i], nets[i], parent=None if p is None else nodes[p], prob=float(probs[i]))
            parents[i] = p
            order[i] = []
            if p is not None:
                order[p].append(i)
            res.step()
        res.state((shape, probs))
        if not check(nodes, parents, order, probs, nets, cfgs, what, res):
            return
        res.trace()
        res.sample(what)


def w_near(unit: Any, res: Result) -> None:
    """Children whose probabilities sum to nearly one, below a node of any probability, are told from those which sum to one"""
    nets = [Network(f"net{i}") for i in range(5)]
    cfgs = [InterDecisionTimeScenarioConfig([TimeBlock(1, [0])], 1) for _ in range(5)]
    for up in NEAR_UP:
        for gap, left in itertools.product(NEAR_GAPS, NEAR_LEFT):
            right = 1 - left + gap
            if not 0 <= right <= 1:
                continue
            probs = [Fraction(1), 1 - up, up, left, right]
            parents: Dict[int, Optional[int]] = {0: None, 1: 0, 2: 0, 3: 2, 4: 2}
            order = {0: [1, 2], 1: [], 2: [3, 4], 3: [], 4: []}
            nodes: Dict[int, Any] = {}
            for i in range(5):
                q = parents[i]
                nodes[i] = DecisionTreeNode(f"n{i}", cfgs[i], nets[i], parent=None if q is None else nodes[q], prob=float(probs[i]))
                res.step()
            what = {"probabilities": [str(x) for x in probs]}
            res.state(what["probabilities"])
            if not check(nodes, parents, order, probs, nets, cfgs, what, res):
                return
            res.trace()


NEAR_UP = [Fraction(1, 10**k) for k in range(0, 10)] + [Fraction(1, 3), Fraction(2, 7)]
NEAR_GAPS = [Fraction(0)] + [g * Fraction(k, 10**e) for e in range(1, 6) for k in (1, 5) for g in (1, -1)]
NEAR_LEFT = [Fraction(0), Fraction(1, 3), Fraction(1, 10), Fraction(1, 2), Fraction(7, 10), Fraction(1), Fraction(999, 1000)]


def w_orders(unit: Any, res: Result) -> None:
    """Every order of creation; a node whose parent exists is attached when created or later, one whose children exist may take them all when created"""
    shape, every = unit
    n = len(shape) + 1
    probs = [Fraction(1), Fraction(1, 2), Fraction(3, 4), Fraction(1, 4), Fraction(1, 2), Fraction(1, 8)][:n]
    parent_of = {i + 1: p for i, p in enumerate(shape)}
    kids = {i: [c for c, p in parent_of.items() if p == i] for i in range(n)}
    nets = [Network(f"net{i}") for i in range(n)]
    cfgs = [InterDecisionTimeScenarioConfig([TimeBlock(i + 1, [i])], 1) for i in range(n)]
    for perm in itertools.permutations(range(n)):
        for modes in itertools.product(("now", "later"), ("take", "leave")) if not every else itertools.product(itertools.product(("now", "later"), ("take", "leave")), repeat=n):
            per_node = [modes] * n if not every else list(modes)
            nodes: Dict[int, Any] = {}
            parents: Dict[int, Optional[int]] = {}
            order: Dict[int, List[int]] = {}
            ops: List[Any] = []
            for i in perm:
                up, down = per_node[i]
                p = parent_of.get(i)
                attach = up == "now" and p in nodes
                free = [c for c in kids[i] if c in nodes and parents[c] is None]
                kw: Dict[str, Any] = {}
                if attach:
                    kw["parent"] = nodes[p]
                if down == "take" and free:
                    kw["children"] = [nodes[c] for c in free]
                nodes[i] = DecisionTreeNode(f"n{i}", cfgs[i], nets[i], prob=float(probs[i]), **kw)
                parents[i] = p if attach else None
                order[i] = []
                if attach:
                    order[p].append(i)  # type: ignore
                if "children" in kw:
                    for c in free:
                        parents[c] = i
                        order[i].append(c)
                ops.append((i, sorted(kw)))
                res.step()
                sub = sorted(nodes)
                # judged after every operation, on the nodes which exist
                m = {x: k for k, x in enumerate(sub)}
                if len(sub) == n and not check(nodes, parents, order, probs, nets, cfgs, {"shape": shape, "operations": ops}, res):
                    return
                for x in sub:
                    exp = Fraction(1)
                    y: Optional[int] = x
                    while y is not None:
                        exp *= probs[y]
                        y = parents[y]
                    if abs(nodes[x].prob - float(exp)) > 1e-12:
                        res.violation(f"probability of node {x} is {nodes[x].prob}, expected {float(exp)}", {"shape": shape, "operations": ops})
                        return
            for i in range(1, n):
                if parents[i] is None:
                    nodes[i].parent = nodes[parent_of[i]]
                    parents[i] = parent_of[i]
                    order[parent_of[i]].append(i)
                    ops.append((i, "attach"))
                    res.step()
            res.state((shape, tuple(map(str, ops))))
            if not check(nodes, parents, order, probs, nets, cfgs, {"shape": shape, "operations": ops}, res):
                return
            res.trace()


def w_invalid(unit: Any, res: Result) -> None:
    """A refused node leaves the tree as it was"""
    shape, bad = unit
    n = len(shape) + 1
    net, cfg = Network("n"), InterDecisionTimeScenarioConfig([TimeBlock(1, [0])], 1)
    nodes: Dict[int, Any] = {}
    parents: Dict[int, Optional[int]] = {}
    order: Dict[int, List[int]] = {}
    for i in range(n):
        p = None if i == 0 else shape[i - 1]
        nodes[i] = DecisionTreeNode(f"n{i}", cfg, net, parent=None if p is None else nodes[p], prob=0.5 if i else 1.0)
        parents[i], order[i] = p, []
        if p is not None:
            order[p].append(i)
    probs = [Fraction(1)] + [Fraction(1, 2)] * (n - 1)
    for i in [None] + list(range(n)):
        what = {"shape": shape, "probability": bad, "parent": i}
        res.step()
        res.state(str(what))
        try:
            DecisionTreeNode("bad", cfg, net, parent=None if i is None else nodes[i], prob=bad)
        except ValueError:
            res.outcome((str(bad), i))
        else:
            res.violation(f"probability {bad} accepted", what)
            return
        if any(c.id == "bad" for x in nodes.values() for c in x.children):
            res.violation(f"a node refused because of its probability {bad} stays in the tree", what)
            return
        if not check(nodes, parents, order, probs, [net] * n, [cfg] * n, what, res):
            return
        res.trace()


def explore(run: Run) -> None:
    units: List[Any] = []
    for n in range(1, 5):
        units += [(s, ALPHABET) for s in shapes(n)]
    units += [(s, ALPHABET if run.thorough else [Fraction(1, 2), Fraction(1)]) for s in shapes(5)]
    if run.thorough:
        units += [(s, [Fraction(1, 2), Fraction(1)]) for s in shapes(6)]
    run.parallel(worker, units)
    orders = [(s, True) for n in range(1, 5) for s in shapes(n)] + [(s, run.thorough) for s in shapes(5)]
    run.parallel(w_orders, orders)
    run.local(w_near)
    run.parallel(w_invalid, [(s, b) for n in range(1, 5) for s in shapes(n) for b in (-0.3, -1e-9, 1.0000001, 2.0, float("inf"), float("-inf"), float("nan"))])
