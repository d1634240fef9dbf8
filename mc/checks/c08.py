"""
C08: ports. All connection graphs of small networks: a port field means the definition
provided by the other side, and sum_connections the sum over all connections.
"""
from itertools import combinations, product
from typing import Any, Dict, Iterator, List, Tuple

from mc import names, sizes
from mc.core import Result, Run, raised_by_implementation, time_limit
from mc.impl import build, read_lp
from mc.lpcheck import chunks, lit, par, var
from mc.spec import (
    ConsSpec,
    Expr,
    ModelSpec,
    Reference,
    SystemSpec,
    Undefined,
    VarSpec,
    canon_row,
    diff_lp,
)

PROPERTY = "C08"
ASSUMPTIONS = ["every connection is valid (validity is decided by C12)"]
BOUNDS = {
    "quick": "all sub-multigraphs (each edge 0..2 times, both orientations) of networks with 2 nodes, 3 producers of 2 models, 2 links; 8 definitions x 7 uses; 2-field ports with definitions on opposite sides; all sets of connections of two components with themselves and each other; T=2, S=2; one system with 0..25, 50 and 101 components; one system with each pair of 38 look-alike names for two ports or fields or types",
    "thorough": "the same with 3 nodes and all combinations of definitions and uses on all graphs",
}

PT = {"flow": ["f"], "duo": ["f", "g"]}

DEFS: List[Expr] = [
    var("x"),
    ("neg", var("x")),
    ("mul", par("p"), var("x")),
    ("sub", var("x"), par("p")),
    ("add", var("x"), ("shift", var("x"), lit(-1)), lit(2.0)),
    ("wsum", var("x"), lit(0), lit(1)),
    ("div", var("z"), lit(4.0)),
    ("expec", var("x")),
    ("sub", ("neg", ("sub", var("x"), var("z"))), lit(1.0)),
    par("p"),
]

S_ = ("psum", "b", "f")
USES: List[Expr] = [
    S_,
    ("sub", S_, var("y")),
    ("mul", par("q"), S_),
    ("neg", ("div", S_, lit(2.0))),
    ("shift", S_, lit(1)),
    ("add", S_, S_, var("y")),
    ("tsum", S_),
    ("expec", ("sub", S_, par("q"))),
    ("eval", S_, lit(1)),
    ("wsum", S_, lit(-1), lit(0)),
    ("sub", lit(3.0), S_),
]


def node_model(use: Expr, id: str = "N") -> ModelSpec:
    return ModelSpec(
        id,
        params={"q": (True, True), "p": (False, False)},
        vars={"y": VarSpec(), "x": VarSpec(False, False)},
        ports={"b": "flow"},
        cons=[ConsSpec("bal", ("cmp", "=", use, lit(0.0)), binding=True),
              ConsSpec("own", ("sub", var("x"), par("p")), lb=lit(0.0))],
    )


def prod_model(d: Expr, id: str) -> ModelSpec:
    return ModelSpec(
        id,
        params={"p": (True, False)},
        vars={"x": VarSpec(), "z": VarSpec(False, True)},
        ports={"b": "flow"},
        portdefs={("b", "f"): d},
        cons=[ConsSpec("lim", ("cmp", "<=", ("psum", "b", "f"), par("p"))),
              ConsSpec("lim2", ("cmp", "<=", var("x"), par("p")))],
    )


def link_model() -> ModelSpec:
    return ModelSpec(
        "L",
        params={"p": (False, True)},
        vars={"x": VarSpec(), "z": VarSpec(True, False)},
        ports={"from": "flow", "to": "flow"},
        portdefs={("from", "f"): ("neg", var("x")), ("to", "f"): ("mul", par("p"), var("x"))},
        cons=[ConsSpec("own", ("cmp", "<=", var("x"), par("p")))],
    )


def data_for(components: List[Tuple[str, str, str]], models: Dict[str, ModelSpec], T: int, S: int) -> Dict[Any, Any]:
    data: Dict[Any, Any] = {}
    for i, (cid, mid, _) in enumerate(components):
        for p, (t, s) in models[mid].params.items():
            v = 2.0 + 3 * i + (0.5 if p == "q" else 0.0)
            if t and s:
                data[(cid, p)] = ("ts", [[v + 10 * k + 100 * j for j in range(S)] for k in range(T)], None)
            elif t:
                data[(cid, p)] = ("time", {k: v + 10 * k for k in range(T)})
            elif s:
                data[(cid, p)] = ("scen", [v + 100 * j for j in range(S)], None)
            else:
                data[(cid, p)] = ("const", v)
    return data


def check(sys: SystemSpec, T: int, S: int, res: Result, case: Any) -> None:
    block = list(range(T))
    res.trace()
    try:
        expected = Reference(sys, block, S).lp()
    except Undefined:
        # a plain port field without exactly one definition: must be refused
        try:
            with time_limit(60):
                build(sys, block, S)
        except Exception as e:
            if not raised_by_implementation(e):
                raise
            res.outcome(("refused", type(e).__name__))
            return
        res.violation("port field without a single definition was accepted", case)
        return
    with time_limit(60):
        actual = read_lp(build(sys, block, S))
    for r in actual.rows:
        res.outcome(canon_row(r))
    d = diff_lp(expected, actual)
    if d:
        res.violation(d, case)


def graphs(edges: List[Any], max_mult: int) -> Iterator[List[Any]]:
    for mult in product(range(max_mult + 1), repeat=len(edges)):
        g = []
        for e, m in zip(edges, mult):
            for i in range(m):
                # both orientations are used
                g.append(e if i == 0 else (e[2], e[3], e[0], e[1]))
        yield g


def topo_worker(unit: Any, res: Result) -> None:
    use, use2, d1, d2, gs, comps, T, S = unit
    models = {"N": node_model(use), "N2": node_model(use2, "N2"), "P": prod_model(d1, "P"), "Q": prod_model(d2, "Q"), "L": link_model()}
    for g in gs:
        sys = SystemSpec(
            models=models,
            components=comps,
            data=data_for(comps, models, T, S),
            connections=g,
            port_types=PT,
        )
        res.state((use, use2, d1, d2, tuple(g), tuple(comps), T, S))
        res.step(len(g) + 1)
        check(sys, T, S, res, {"use": use, "definitions": (d1, d2), "connections": g})
        if len(res.violations) >= 2:
            return
    res.sample({"connections": gs[-1], "use": use, "definitions": (d1, d2)})


COMPS = [
    ("n", "N", "node"),
    ("m", "N2", "component"),
    ("n_g", "P", "component"),
    ("h", "P", "node"),
    ("k", "Q", "component"),
    ("l", "L", "component"),
    ("l_l", "L", "component"),
]
E1 = [
    ("n", "b", "n_g", "b"),
    ("h", "b", "n", "b"),
    ("n", "b", "k", "b"),
    ("l", "from", "n", "b"),
    ("m", "b", "l", "to"),
    ("l_l", "from", "m", "b"),
    ("l_l", "to", "n", "b"),
    ("m", "b", "k", "b"),
]


def duo_worker(unit: Any, res: Result) -> None:
    """
    A port type with 2 fields: f defined by one side, g by the other; plain references
    to a port field (exactly one definition)
    """
    df, dg, uf, ug, conns = unit
    A = ModelSpec(
        "A",
        params={"p": (True, False), "q": (True, True)},
        vars={"x": VarSpec(), "z": VarSpec(False, True), "y": VarSpec()},
        ports={"b": "duo"},
        portdefs={("b", "f"): df},
        cons=[ConsSpec("c", ("cmp", "=", ug, var("y")))],
    )
    B = ModelSpec(
        "B",
        params={"p": (True, False), "q": (True, True)},
        vars={"x": VarSpec(), "z": VarSpec(False, True), "y": VarSpec()},
        ports={"b": "duo"},
        portdefs={("b", "g"): dg},
        cons=[ConsSpec("c", ("cmp", "<=", uf, var("y")))],
    )
    comps = [("a", "A", "component"), ("b", "B", "node"), ("b2", "B", "component"), ("a2", "A", "component")]
    models = {"A": A, "B": B}
    sys = SystemSpec(models=models, components=comps, data=data_for(comps, models, 2, 2), connections=conns, port_types=PT)
    res.state(("duo", unit))
    res.step(2 * len(conns))
    check(sys, 2, 2, res, {"duo": unit})


def duo_group(unit: Any, res: Result) -> None:
    for u in unit:
        duo_worker(u, res)
        if len(res.violations) >= 2:
            return


def loop_worker(unit: Any, res: Result) -> None:
    d, u, gs = unit
    use = lambda port: [("sub", ("psum", port, "f"), var("y")), ("mul", par("p"), ("psum", port, "f")), ("add", ("shift", ("psum", port, "f"), lit(-1)), var("z"))][u]
    A = ModelSpec(
        "A",
        params={"p": (True, False)},
        vars={"x": VarSpec(), "z": VarSpec(False, True), "y": VarSpec()},
        ports={"out": "flow", "in": "flow", "in2": "flow"},
        portdefs={("out", "f"): d},
        cons=[ConsSpec("c", ("cmp", "<=", use("in"), par("p"))), ConsSpec("c2", ("cmp", "=", use("in2"), var("x")))],
    )
    comps = [("a", "A", "component"), ("b", "A", "node")]
    for g in gs:
        sys = SystemSpec(models={"A": A}, components=comps, data=data_for(comps, {"A": A}, 2, 2), connections=g, port_types=PT)
        res.state(("loop", d, u, tuple(g)))
        res.step(len(g) + 1)
        check(sys, 2, 2, res, {"self-connections": g, "definition": d, "use": use("in")})
        if len(res.violations) >= 2:
            return


def explore(run: Run) -> None:
    units = []
    gs = list(graphs(E1[:6], 1)) + list(graphs(E1[:3], 2)) + list(graphs(E1[3:], 1))
    gs = [list(x) for x in dict.fromkeys(tuple(g) for g in gs)]
    # all graphs, with a fixed rich pair of definitions
    for ch in chunks(gs, 12):
        units.append((USES[1], USES[0], DEFS[2], DEFS[3], ch, COMPS, 2, 2))
    # all definitions x all uses, on 4 graphs (none, one, two, double connection + link)
    some = [[], E1[:1], E1[:3], [*E1[:5], ("n_g", "b", "n", "b")], [E1[2], E1[1], E1[0]], E1]
    pick = gs if run.thorough else some
    for use, d1, d2 in product(USES, DEFS, DEFS if run.thorough else DEFS[:3]):
        for ch in chunks(some, 6):
            units.append((use, USES[0], d1, d2, ch, COMPS, 2, 2))
    for use in USES:
        for T, S in ((1, 1), (3, 1), (1, 3)):
            units.append((use, USES[2], DEFS[4], DEFS[2], some, COMPS, T, S))
    if run.thorough:
        for use in USES:
            for ch in chunks(gs, 24):
                units.append((use, USES[1], DEFS[3], DEFS[4], ch, COMPS, 2, 2))
    run.parallel(topo_worker, units)

    F, G = ("pf", "b", "f"), ("pf", "b", "g")
    SF, SG = ("psum", "b", "f"), ("psum", "b", "g")
    conns = [
        [("a", "b", "b", "b"), ("a2", "b", "b2", "b")],
        [("b", "b", "a", "b"), ("b2", "b", "a2", "b")],
        [("b", "b", "a2", "b"), ("a", "b", "b2", "b")],
        [("a", "b", "b", "b"), ("a2", "b", "b", "b"), ("b2", "b", "a", "b")],
        [("a", "b", "b", "b"), ("a", "b", "b2", "b"), ("a2", "b", "b2", "b"), ("b", "b", "a2", "b")],
        [],
    ]
    units2 = []
    duse = lambda f, s: [f, ("mul", par("q"), f), ("sub", ("shift", f, lit(1)), f), s, ("sub", s, lit(1.0)), ("add", s, f)]
    for df, dg in product(DEFS[:5], DEFS[:5]):
        for uf, ug in zip(duse(F, SF), duse(G, SG)):
            for c in conns:
                units2.append((df, dg, uf, ug, c))
    run.parallel(duo_group, chunks(units2, 40))

    # a component connected to itself: all connections between its own ports
    loops = [("a", "out", "a", "in"), ("a", "in2", "a", "out"), ("a", "out", "b", "in"), ("b", "out", "a", "in"), ("b", "in", "b", "out")]
    gs = [g for g in graphs(loops, 2 if run.thorough else 1)]
    units3 = [(d, u, ch) for d in DEFS[:5] for u in range(3) for ch in chunks(gs, 16)]
    run.parallel(sizes.worker, sizes.units("n"))
    run.parallel(names.worker, names.units(["port", "field", "type"]))
    run.parallel(loop_worker, units3)
