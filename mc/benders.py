"""
Decision trees of systems, their construction in the implementation and their reference
decomposition. Used by C17, C18, C19, C22.
"""
from dataclasses import dataclass, field
from itertools import product
from typing import Any, Dict, Iterator, List, Optional, Tuple

from andromede.simulation import TimeBlock, build_benders_decomposed_problem
from andromede.simulation.decision_tree import (
    DecisionTreeNode,
    InterDecisionTimeScenarioConfig,
)
from mc.impl import build_database, build_model, build_port_types, build_system_network
from mc.lpcheck import lit, par, var
from mc.spec import LP, ConsSpec, ModelSpec, Reference, SystemSpec, VarSpec

Blocks = List[Tuple[int, List[int]]]


@dataclass
class TreeNode:
    id: str
    parent: Optional[int]
    prob: float  # conditional
    blocks: Blocks
    scenarios: int
    components: List[str]  # candidates and others present at this node
    # (component of the parent, its cumulative, component, cumulative, incremental)
    couplings: List[Tuple[str, str, str, str, str]] = field(default_factory=list)

    def describe(self) -> Any:
        return (self.id, self.parent, self.prob, self.blocks, self.scenarios, self.components, self.couplings)


def models() -> Dict[str, ModelSpec]:
    cand = ModelSpec(
        "CAND",
        params={"op_cost": (True, True), "invest_cost": (False, False), "max_invest": (False, False), "capa": (False, False), "ratio": (False, False)},
        vars={
            "generation": VarSpec(lb=lit(0.0)),
            "invested": VarSpec(False, False, lb=lit(0.0), ub=lit(900.0), context="coupling"),
            "delta": VarSpec(False, False, lb=lit(0.0), ub=par("max_invest"), context="investment"),
        },
        cons=[
            ConsSpec("max generation", ("cmp", "<=", var("generation"), ("add", par("capa"), var("invested")))),
            ConsSpec("link", ("cmp", ">=", ("mul", par("ratio"), var("invested")), var("delta")), context="investment"),
            ConsSpec("cap", ("cmp", "<=", var("invested"), ("mul", lit(4.0), par("max_invest"))), context="coupling"),
        ],
        obj_op=("expec", ("tsum", ("mul", par("op_cost"), var("generation")))),
        obj_inv=("add", ("mul", par("invest_cost"), var("delta")), ("mul", lit(0.5), var("invested")), lit(7.0)),
        ports={"bal": "flow"},
        portdefs={("bal", "f"): var("generation")},
    )
    units = ModelSpec(
        "UNITS",
        params={"cost": (False, False), "size": (False, False)},
        vars={
            "prod": VarSpec(lb=lit(0.0)),
            "nb": VarSpec(False, False, lb=lit(-3.0), ub=lit(6.0), kind="integer", context="coupling"),
            "new": VarSpec(False, False, lb=lit(-2.0), ub=lit(4.0), kind="integer", context="investment"),
            "stop": VarSpec(True, False, lb=lit(0.0)),
        },
        cons=[
            ConsSpec("limit", ("cmp", "<=", var("prod"), ("mul", par("size"), var("nb")))),
            ConsSpec("stops", ("cmp", ">=", var("stop"), ("sub", ("shift", var("prod"), lit(-1)), var("prod")))),
        ],
        obj_op=("add", ("expec", ("tsum", ("mul", lit(3.0), var("prod")))), ("tsum", var("stop")), ("mul", par("cost"), var("nb"))),
        obj_inv=("mul", par("cost"), var("new")),
        ports={"bal": "flow"},
        portdefs={("bal", "f"): var("prod")},
    )
    node = ModelSpec(
        "NODE",
        params={"ens_cost": (False, False)},
        vars={"ens": VarSpec(lb=lit(0.0)), "spill": VarSpec(lb=lit(0.0))},
        cons=[ConsSpec("balance", ("cmp", "=", ("psum", "bal", "f"), ("sub", var("spill"), var("ens"))), binding=True)],
        obj_op=("expec", ("tsum", ("add", ("mul", par("ens_cost"), var("ens")), var("spill")))),
        ports={"bal": "flow"},
    )
    demand = ModelSpec(
        "DEMAND", params={"demand": (True, True)}, ports={"bal": "flow"}, portdefs={("bal", "f"): ("neg", par("demand"))}
    )
    return {"CAND": cand, "UNITS": units, "NODE": node, "DEMAND": demand}


MODEL_OF = {"N": ("NODE", "node"), "D": ("DEMAND", "component"), "C": ("CAND", "component"), "C2": ("CAND", "component"), "U": ("UNITS", "component")}


def tree_data(nodes: List[TreeNode], T: int, S: int, scale: float = 1.0) -> Dict[Any, Any]:
    """Distinct data at each node; some data is common to all nodes. Costs and ratios are multiplied by scale."""

    def by_node(f: Any) -> Any:
        return ("tree", {n.id: f(i) for i, n in enumerate(nodes)})

    data: Dict[Any, Any] = {
        ("N", "ens_cost"): ("const", 1000.0),
        ("D", "demand"): by_node(lambda i: ("ts", [[100.0 * (i + 1) + 10 * t + s for s in range(S)] for t in range(T)], None)),
    }
    for k, c in enumerate(("C", "C2")):
        data[(c, "op_cost")] = ("ts", [[scale * (10.0 + 5 * k + t + 0.25 * s) for s in range(S)] for t in range(T)], None)
        data[(c, "invest_cost")] = by_node(lambda i: ("const", scale * (50.0 * (i + 1) + 7 * k)))
        data[(c, "max_invest")] = by_node(lambda i: ("const", 80.0 + 30 * i + k))
        data[(c, "ratio")] = ("const", 2.0 * scale)
        data[(c, "capa")] = ("const", 20.0 + 3 * k)
    data[("U", "cost")] = by_node(lambda i: ("const", scale * (11.0 + i)))
    data[("U", "size")] = ("const", 40.0)
    return data


def node_system(n: TreeNode, data: Dict[Any, Any]) -> SystemSpec:
    ms = models()
    comps = [(c, *MODEL_OF[c]) for c in n.components]
    cnx = [(c, "bal", "N", "bal") for c in n.components if c != "N"]
    return SystemSpec(
        {k: ms[k] for k in {m for _, m, _ in comps}} if comps else {},
        comps,
        {k: v for k, v in data.items() if k[0] in n.components},
        cnx,
        {"flow": ["f"]},
    )


def couple(n: TreeNode, r: DecisionTreeNode) -> None:
    for cp, cum_p, c, cum, inc in n.couplings:
        comp = r.network.get_component(c)
        pcomp = r.parent.network.get_component(cp) if r.parent is not None else comp
        r.define_coupling_constraint(pcomp, cum_p, comp, cum, inc)


def build_tree(
    nodes: List[TreeNode], data: Dict[Any, Any], share_network: bool = False, eager: bool = False
) -> Tuple[List[DecisionTreeNode], Any]:
    """
    The implementation's tree and database. The models are shared by all nodes; with
    share_network, so is the network (all nodes have then the same components).
    """
    types = {"flow": None}
    sys0 = SystemSpec({}, [], {}, [], {"flow": ["f"]})
    types = build_port_types(sys0)
    ms = {k: build_model(m, types) for k, m in models().items()}
    res: List[DecisionTreeNode] = []
    shared = None
    for i, n in enumerate(nodes):
        if share_network and shared is not None:
            net = shared
        else:
            net = shared = build_system_network(node_system(n, data), ms, id=f"net_{i}")
        res.append(
            DecisionTreeNode(
                n.id,
                InterDecisionTimeScenarioConfig([TimeBlock(b, ts) for b, ts in n.blocks], n.scenarios),
                net,
                parent=None if n.parent is None else res[n.parent],
                prob=n.prob,
            )
        )
        if eager:  # before the next nodes exist
            couple(n, res[-1])
    for n, r in zip(nodes, res):
        if not eager:
            couple(n, r)
    sys = SystemSpec({}, [], data, [], {})
    return res, build_database(sys)


def prob_of(nodes: List[TreeNode], i: int) -> float:
    n = nodes[i]
    return n.prob * (1.0 if n.parent is None else prob_of(nodes, n.parent))


def col(node: str, comp: str, name: str) -> str:
    return "_".join(x for x in (node, comp, name) if x)


def reference(nodes: List[TreeNode], data: Dict[Any, Any]) -> Tuple[LP, Dict[str, LP]]:
    """The master by column names, the sub-problems by problem names"""
    master = LP()
    subs: Dict[str, LP] = {}
    for i, n in enumerate(nodes):
        sys = node_system(n, data)
        p = prob_of(nodes, i)
        # masters do not depend on time nor on scenarios
        lp = Reference(sys, [0], 1, n.id).lp(("investment", "coupling"), ("inv",), p)
        lp = lp.rename(lambda k: col(n.id, k[0], k[1]))
        master.vars.update(lp.vars)
        master.rows += lp.rows
        master.obj.update(lp.obj)
        master.obj_const += lp.obj_const
        for bid, ts in n.blocks:
            name = "subproblem" + (f"_{n.id}" if len(nodes) > 1 else "") + (f"_b{bid}" if len(n.blocks) > 1 else "")
            subs[name] = Reference(sys, ts, n.scenarios, n.id).lp(("operational", "coupling"), ("op",), p)
        for cp, cum_p, c, cum, inc in n.couplings:
            row = {col(n.id, c, cum): 1.0, col(n.id, c, inc): -1.0}
            if n.parent is not None:
                row[col(nodes[n.parent].id, cp, cum_p)] = -1.0
            master.rows.append((row, 0.0, 0.0))
    return master, subs


# -- the space of trees -----------------------------------------------------------
def shapes(n: int) -> Iterator[List[Optional[int]]]:
    """All rooted trees with n labelled positions: parents of nodes 1..n-1 among former nodes"""
    for ps in product(*[range(i) for i in range(1, n)]):
        yield [None, *ps]


def probabilities(shape: List[Optional[int]], uneven: bool = True) -> List[float]:
    """Conditional probabilities; those of the children of a node sum to one"""
    table = {1: [1.0], 2: [0.25, 0.75], 3: [0.5, 0.375, 0.125], 4: [0.5, 0.25, 0.125, 0.125]}
    count: Dict[Any, int] = {}
    res = []
    for p in shape:
        k = sum(1 for q in shape if q == p)
        i = count.get(p, 0)
        count[p] = i + 1
        res.append(1.0 if p is None else table[k][i] if k in table else 2.0 ** -(i + 1) if i < k - 1 else 2.0 ** -i)
    return res
