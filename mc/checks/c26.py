"""
C26: the shipped storage, network, renewable, load and PyPSA models. Every point of a grid is
classified by the rows built from the shipped libraries and by reference equations written
here; injections are observed through a closing component at each port, costs through the
objective.
"""
from itertools import product
from typing import Any, Callable, Dict, List, Tuple

import numpy as np

from mc.core import Result, Run
from mc.libs import Polyhedron, problem

PROPERTY = "C26"
ASSUMPTIONS = [
    "storages are cyclic over the block (only possibility offered by the shipped libraries)",
    "upper limits of PyPSA storage units are positive (p_min_pu <= 0 <= p_max_pu)",
]
BOUNDS = {
    "quick": "every model of the shipped libraries but thermal (C25); all combinations of two-valued parameters (series vary over time, and over scenarios where declared); all points of a grid of 2..4 values per variable over 2 timesteps (or 3), in 1 and 2 scenarios; every flow closed exactly and off by 1/4 at each timestep; reactive balance of 1 or 2 loads",
    "thorough": "the same with all the combinations of parameters for PyPSA storage units and 3 timesteps for stores and batteries",
}
A, V, P = "antares-historic", "andromede-v1-models", "pypsa_models"


class Spec:
    """One component under study, with the reference meaning of its model"""

    def __init__(self, lib: str, model: str, params: Dict[str, List[Any]], grids: Dict[str, List[float]], T: int, ports: List[str], ref: Callable, cap: str = "") -> None:
        self.lib, self.model, self.params, self.grids, self.T, self.ports, self.ref, self.cap = lib, model, params, grids, T, ports, ref, cap


class Par:
    """Values of the parameters in one scenario"""

    def __init__(self, values: Dict[str, Any], T: int, s: int) -> None:
        self.v, self.T, self.s = values, T, s

    def __getattr__(self, name: str) -> Any:
        x = self.v[name]
        if not isinstance(x, list):
            return float(x)
        if isinstance(x[0], list):
            return np.array([r[self.s] for r in x], float)
        return np.array(x, float)


def both(x: Any, lo: Any, hi: Any) -> Any:
    return ((x >= lo - 1e-9) & (x <= hi + 1e-9)).all(axis=1)


def same(x: Any, y: Any) -> Any:
    return (np.abs(x - y) < 1e-9).all(axis=1)


def following(x: Any) -> Any:
    return np.roll(x, -1, axis=1)


def previous(x: Any) -> Any:
    return np.roll(x, 1, axis=1)


def total(x: Any) -> Any:
    return x.sum(axis=1)


# -- references: (v, p) -> (feasible, {port: flow}, operational cost, capital cost) -----
def r_load(v: Any, p: Par) -> Any:
    n = v["n"]
    return np.ones(n, bool), {"balance_port": np.zeros((n, p.T)) - p.load}, np.zeros(n), None


def r_renewable(v: Any, p: Par) -> Any:
    n = v["n"]
    return np.ones(n, bool), {"balance_port": np.zeros((n, p.T)) + p.generation}, np.zeros(n), None


def r_link(v: Any, p: Par) -> Any:
    ok = both(v["flow_direct"], 0, p.capacity_direct) & both(v["flow_indirect"], 0, p.capacity_indirect) & same(v["flow"], v["flow_direct"] - v["flow_indirect"])
    return ok, {"out_port": v["flow"], "in_port": -v["flow"]}, np.zeros(v["n"]), None


def storage(v: Any, p: Par, inflows: Any) -> Any:
    return (
        both(v["p_injection"], 0, p.p_max_injection_modulation * p.injection_nominal_capacity)
        & both(v["p_withdrawal"], 0, p.p_max_withdrawal_modulation * p.withdrawal_nominal_capacity)
        & both(v["level"], p.lower_rule_curve * p.reservoir_capacity, p.upper_rule_curve * p.reservoir_capacity)
        & same(following(v["level"]), v["level"] + p.efficiency_injection * v["p_injection"] - p.efficiency_withdrawal * v["p_withdrawal"] + inflows)
    )


def r_sts(v: Any, p: Par) -> Any:
    ok = storage(v, p, p.inflows) & (np.abs(v["level"][:, 0] - p.initial_level * p.reservoir_capacity) < 1e-9)
    return ok, {"injection_port": v["p_withdrawal"] - v["p_injection"]}, np.zeros(v["n"]), None


def r_battery(v: Any, p: Par) -> Any:
    return storage(v, p, 0.0), {"injection_port": v["p_withdrawal"] - v["p_injection"]}, total(v["p_injection"] * p.marginal_cost), None


def r_dsr(v: Any, p: Par) -> Any:
    return both(v["curtailment"], 0, p.max_load), {"balance_port": v["curtailment"] - p.max_load}, total(v["curtailment"]) * p.curtailment_price, None


def r_electrolyser(v: Any, p: Par) -> Any:
    return both(v["power"], 0, p.p_max), {"power_port": -v["power"], "hydrogen_port": p.efficiency * v["power"]}, np.zeros(v["n"]), None


def r_pload(v: Any, p: Par) -> Any:
    n = v["n"]
    return np.ones(n, bool), {"p_balance_port": np.zeros((n, p.T)) + p.sign * p.p_set}, np.zeros(n), None


def r_generator(v: Any, p: Par) -> Any:
    x, cap = v["p"], v["p_nom"]
    ok = both(cap, p.p_nom_min, p.p_nom_max) & both(x, cap * p.p_min_pu, cap * p.p_max_pu) & both(total(x)[:, None], p.e_sum_min, p.e_sum_max)
    return ok, {"p_balance_port": x * p.sign}, total(x * p.marginal_cost), cap[:, 0] * p.capital_cost


def r_plink(v: Any, p: Par) -> Any:
    x, cap = v["p0"], v["p_nom"]
    ok = both(cap, p.p_nom_min, p.p_nom_max) & both(x, cap * p.p_min_pu, cap * p.p_max_pu)
    return ok, {"p0_port": -x, "p1_port": x * p.efficiency}, total(x * p.marginal_cost), cap[:, 0] * p.capital_cost


def r_unit(v: Any, p: Par) -> Any:
    cap, st, di, soc, sp = v["p_nom"], v["p_store"], v["p_dispatch"], v["state_of_charge"], v["spill"]
    ok = both(cap, p.p_nom_min, p.p_nom_max) & both(st, 0, -p.p_min_pu * cap) & both(di, 0, p.p_max_pu * cap) & both(soc, 0, p.max_hours * cap) & both(sp, 0, np.inf)
    ok &= same(soc, (1 - p.standing_loss) * previous(soc) + p.efficiency_store * st - di / p.efficiency_dispatch + p.inflow - sp)
    cost = total(p.marginal_cost * di + p.spill_cost * sp + p.marginal_cost_storage * soc)
    return ok, {"p_balance_port": p.sign * (di - st)}, cost, cap[:, 0] * p.capital_cost


def r_store(v: Any, p: Par) -> Any:
    cap, e, x = v["e_nom"], v["e"], v["p"]
    ok = both(cap, p.e_nom_min, p.e_nom_max) & both(e, p.e_min_pu * cap, p.e_max_pu * cap) & same(e, (1 - p.standing_loss) * previous(e) - x)
    return ok, {"p_balance_port": p.sign * x}, total(p.marginal_cost * x + p.marginal_cost_storage * e), cap[:, 0] * p.capital_cost


# values over time / over time and scenarios (columns 0 and 1)
def ts(a: Any, b: Any, c: Any = None) -> List[Any]:
    return [[a[0], a[1]], [b[0], b[1]]] + ([[c[0], c[1]]] if c else [])


def specs(thorough: bool) -> List[Spec]:
    res = [
        Spec(A, "load", {"load": [ts((1, 2), (3, 0)), ts((-1, 1), (0, 2)), 2]}, {}, 2, ["balance_port"], r_load),
        Spec(A, "renewable", {"nominal_capacity": [5, 0], "unit_count": [0, 3], "generation": [ts((1, 2), (3, 0)), 2]}, {}, 2, ["balance_port"], r_renewable),
        Spec(
            A, "link",
            {"capacity_direct": [ts((1, 2), (0, 1)), 1], "capacity_indirect": [ts((2, 0), (1, 2)), 2]},
            {"flow_direct": [-1, 0, 1, 2], "flow_indirect": [-1, 0, 1, 2], "flow": [-2, -1, 0, 1, 2]}, 2, ["out_port", "in_port"], r_link,
        ),
        Spec(V, "dsr", {"max_load": [ts((1, 2), (3, 1)), 2], "curtailment_price": [3, 0]}, {"curtailment": [-1, 0, 0.5, 1, 2, 3]}, 2, ["balance_port"], r_dsr),
        Spec(V, "electrolyser", {"efficiency": [0.5, 1], "p_max": [ts((1, 2), (3, 1)), 2]}, {"power": [-1, 0, 0.5, 1, 2, 3]}, 2, ["power_port", "hydrogen_port"], r_electrolyser),
    ]
    common: Dict[str, List[Any]] = {
        "reservoir_capacity": [2, 4], "injection_nominal_capacity": [1, 2], "withdrawal_nominal_capacity": [2, 4], "efficiency_injection": [1, 0.5], "efficiency_withdrawal": [1, 0.5],
        "lower_rule_curve": [0, ts((0, 0), (0.5, 0.25))], "upper_rule_curve": [1, ts((0.5, 1), (1, 0.5))],
        "p_max_injection_modulation": [1, ts((1, 0.5), (0.5, 1))], "p_max_withdrawal_modulation": [1, ts((0.5, 1), (1, 0.5))],
    }
    grid = {"p_injection": [-1, 0, 0.5, 1, 2], "p_withdrawal": [-1, 0, 1, 2, 4], "level": [0, 0.5, 1, 2, 4]}
    res.append(Spec(A, "short-term-storage", {**common, "inflows": [0, ts((1, 0), (-1, 1))], "initial_level": [0.5, 0.25]}, grid, 2, ["injection_port"], r_sts))
    res.append(Spec(V, "battery", {**common, "marginal_cost": [0, [3, 5]]}, grid, 2, ["injection_port"], r_battery))
    # three timesteps: the direction of time shows
    three: Dict[str, List[Any]] = {**{k: [v[0]] for k, v in common.items()}, "reservoir_capacity": [2], "efficiency_injection": [1, 0.5], "efficiency_withdrawal": [1, 2]}
    grid3 = {"p_injection": [0, 1], "p_withdrawal": [0, 1], "level": [0, 0.5, 1, 1.5, 2]}
    res.append(Spec(A, "short-term-storage", {**three, "inflows": [ts((1, 0), (-1, 0), (0, 1)), 0], "initial_level": [0.5, 0.25]}, grid3, 3, ["injection_port"], r_sts))
    res.append(Spec(V, "battery", {**three, "marginal_cost": [[3, 5, 7]]}, grid3, 3, ["injection_port"], r_battery))

    res.append(Spec(P, "load", {"p_set": [ts((1, 2), (3, 0)), 2], "q_set": [0, 1], "sign": [-1, 1]}, {}, 2, ["p_balance_port"], r_pload))
    res.append(Spec(
        P, "generator",
        {
            "p_nom_min": [0, 1], "p_nom_max": [1, 2], "p_min_pu": [0, [0.5, -0.5]], "p_max_pu": [1, [0.5, 1]], "e_sum_min": [-100, 1], "e_sum_max": [100, 2],
            "sign": [1, -1], "marginal_cost": [2, [3, 5]], "capital_cost": [0, 7], "efficiency": [1], "emission_factor": [0],
        },
        {"p_nom": [-1, 0, 1, 2, 3], "p": [-1, -0.5, 0, 0.5, 1, 2, 3]}, 2, ["p_balance_port"], r_generator, "p_nom",
    ))
    res.append(Spec(
        P, "link",
        {
            "efficiency": [1, [0.5, 2]], "p_nom_min": [0, 1], "p_nom_max": [1, 2], "p_min_pu": [0, [-1, -0.5]], "p_max_pu": [1, [0.5, 1]],
            "capital_cost": [0, 7], "marginal_cost": [2, [3, 5]],
        },
        {"p_nom": [-1, 0, 1, 2, 3], "p0": [-2, -1, -0.5, 0, 0.5, 1, 2, 3]}, 2, ["p0_port", "p1_port"], r_plink, "p_nom",
    ))
    unit: Dict[str, List[Any]] = {
        "p_nom_min": [0, 1], "p_nom_max": [1, 2], "p_min_pu": [-1, [-0.5, -1]], "p_max_pu": [1, [1, 0.5]], "sign": [1, -1],
        "spill_cost": [[2, 3]], "marginal_cost": [[5, 7]], "marginal_cost_storage": [[11, 13]], "capital_cost": [0, 17],
        "max_hours": [1, 2], "efficiency_store": [1, [0.5, 1]], "efficiency_dispatch": [1, [0.5, 1]], "standing_loss": [0, [0.5, 0]], "inflow": [0, ts((1, 0), (0.5, 1))], "emission_factor": [0],
    }
    ugrid = {"p_nom": [0, 1, 2, 3], "p_store": [0, 0.5, 1, 2], "p_dispatch": [0, 0.5, 1], "state_of_charge": [0, 1, 2], "spill": [-0.5, 0, 0.5]}
    if thorough:
        res.append(Spec(P, "storage_unit", unit, ugrid, 2, ["p_balance_port"], r_unit, "p_nom"))
    else:
        # efficiencies and losses in all combinations, then limits in all combinations
        fixed = {"p_nom_min", "p_nom_max", "p_min_pu", "p_max_pu", "max_hours", "capital_cost"}
        res.append(Spec(P, "storage_unit", {k: (v[-1:] if k in fixed else v) for k, v in unit.items()}, ugrid, 2, ["p_balance_port"], r_unit, "p_nom"))
        res.append(Spec(P, "storage_unit", {k: (v if k in fixed else v[:1]) for k, v in unit.items()}, ugrid, 2, ["p_balance_port"], r_unit, "p_nom"))
    store: Dict[str, List[Any]] = {
        "e_nom_min": [0, 1], "e_nom_max": [1, 2], "e_min_pu": [0, [0.5, -0.5]], "e_max_pu": [1, [0.5, 1]], "sign": [1, -1],
        "marginal_cost": [2, [3, 5]], "marginal_cost_storage": [0, [7, 11]], "capital_cost": [0, 13], "standing_loss": [0, [0.5, 0]], "emission_factor": [0],
    }
    res.append(Spec(P, "store", store, {"e_nom": [-1, 0, 1, 2, 3], "e": [-0.5, 0, 0.5, 1, 2], "p": [-1, -0.5, 0, 0.5, 1]}, 2, ["p_balance_port"], r_store, "e_nom"))
    res.append(Spec(
        P, "store", {**{k: v[:1] for k, v in store.items()}, "e_nom_max": [2], "standing_loss": [0, [0.5, 0, 0.25]], "sign": [1, -1], "marginal_cost_storage": [[7, 11, 0]]},
        {"e_nom": [1, 2], "e": [0, 0.5, 1, 2], "p": [-1, -0.5, 0, 0.5, 1]}, 3, ["p_balance_port"], r_store, "e_nom",
    ))
    return res


def closing(spec: Spec, k: int) -> Tuple[List[Any], List[Any], str]:
    """Components closing the port number k"""
    port = spec.ports[k]
    if spec.lib == P:
        bus = {"v_nom": 1, "x": 0, "y": 0, "v_mag_pu_set": 1, "v_mag_pu_min": 0, "v_mag_pu_max": 1}
        slack = {"p_nom_min": 100, "p_nom_max": 100, "p_min_pu": -1, "p_max_pu": 1, "e_sum_min": -1000, "e_sum_max": 1000, "sign": 1, "marginal_cost": 0, "capital_cost": 0, "efficiency": 1, "emission_factor": 0}
        return (
            [(f"bus{k}", f"{P}:bus", bus), (f"slack{k}", f"{P}:generator", slack)],
            [("x", port, f"bus{k}", "p_balance_port"), (f"slack{k}", "p_balance_port", f"bus{k}", "p_balance_port")],
            f"slack{k}",
        )
    return [(f"area{k}", f"{A}:area", {"spillage_cost": 0, "ens_cost": 0})], [("x", port, f"area{k}", "balance_port")], f"area{k}"


def worker(unit: Any, res: Result) -> None:
    k, start, step, S, thorough = unit
    spec = specs(thorough)[k]
    T = spec.T
    names = list(spec.params)
    combos = list(product(*spec.params.values()))[start::step]
    # the grid of points, common to all the parameters
    axes, cols = [], []
    for v, g in spec.grids.items():
        for t in [None] if v == spec.cap else range(T):
            axes.append(g)
            cols.append((v, t))
    mesh = np.array(list(product(*axes)), float).reshape(-1, len(cols)) if cols else np.zeros((1, 0))
    n = len(mesh)
    v: Dict[str, Any] = {"n": n}
    for name in spec.grids:
        v[name] = mesh[:, [i for i, c in enumerate(cols) if c[0] == name]]
    for values in combos:
        params = dict(zip(names, values))
        if S == 1:
            # a table with one column is the first scenario
            used = {a: ([[r[0]] for r in b] if isinstance(b, list) and isinstance(b[0], list) else b) for a, b in params.items()}
        else:
            used = params
        comps: List[Any] = [("x", f"{spec.lib}:{spec.model}", used)]
        conns: List[Any] = []
        closers = []
        for j in range(len(spec.ports)):
            c, l, name = closing(spec, j)
            comps += c
            conns += l
            closers.append(name)
        poly = Polyhedron(problem(spec.lib, comps, conns, T, S))
        case = {"model": spec.model, "parameters": params, "scenarios": S}
        scen = np.array([-1 if key[3] is None else key[3] for key in poly.keys])
        obj = np.zeros(len(poly.keys))
        for key, a in poly.lp.obj.items():
            obj[poly.index[key]] = a
        # no row ties scenarios together
        mixed = [r for r in range(len(poly.rlb)) if len({scen[i] for i in np.nonzero(poly.A[r])[0]} - {-1}) > 1]
        if mixed:
            res.violation("a constraint ties two scenarios together", case)
            return
        for s in range(S):
            ok, flows, cost, capital = spec.ref(v, Par(params, T, s))
            pts = np.zeros((n, len(poly.keys)))

            def put(comp: str, var: str, t: Any, arr: Any) -> None:
                for key in ((comp, var, t, s), (comp, var, t, None)) if t is not None else ((comp, var, None, None),):
                    if key in poly.index:
                        pts[:, poly.index[key]] = arr
                        return
                raise KeyError((comp, var, t, s))

            for i, (name, t) in enumerate(cols):
                put("x", name, t, mesh[:, i])

            def close(shift: Any) -> None:
                for j, name in enumerate(closers):
                    f = flows[spec.ports[j]].copy()
                    for (jj, t), d in shift.items():
                        if jj == j:
                            f[:, t] += d
                    for t in range(T):
                        if spec.lib == P:
                            put(name, "p", t, -f[:, t])
                        else:
                            put(name, "spillage", t, np.maximum(f[:, t], 0))
                            put(name, "unsupplied_energy", t, np.maximum(-f[:, t], 0))
                    if spec.lib == P:
                        put(name, "p_nom", None, 100.0)

            rows = [r for r in range(len(poly.rlb)) if all(scen[i] in (-1, s) for i in np.nonzero(poly.A[r])[0]) and (np.any(poly.A[r]) or s == 0)]
            mask = (scen == -1) | (scen == s)

            def inside() -> Any:
                acc = ((pts[:, mask] >= poly.lb[mask] - 1e-9) & (pts[:, mask] <= poly.ub[mask] + 1e-9)).all(axis=1)
                val = pts @ poly.A[rows].T
                return acc & ((val >= poly.rlb[rows] - 1e-9) & (val <= poly.rub[rows] + 1e-9)).all(axis=1)

            close({})
            got = inside()
            res.step(n)
            res.trace(int(ok.sum()))
            res.outcome((k, int(ok.sum()), str(params), s))
            if (got != ok).any():
                i = int(np.nonzero(got != ok)[0][0])
                res.violation(
                    f"{spec.model}: point {dict(zip(map(str, cols), mesh[i]))} with flows { {a: f[i].tolist() for a, f in flows.items()} } in scenario {s} is {'accepted' if got[i] else 'refused'}, expected {'accepted' if ok[i] else 'refused'}",
                    case,
                )
                return
            if ok.any():
                for j in range(len(closers)):
                    for t in range(T):
                        close({(j, t): 0.25})
                        if inside()[ok].any():
                            res.violation(f"{spec.model}: balance at port {spec.ports[j]} is not enforced at timestep {t} of scenario {s}", case)
                            return
                        res.step(int(ok.sum()))
                # costs: the share of the scenario, and the capital
                close({})
                own = np.where(scen == s, obj, 0.0)
                if not np.allclose((pts @ own)[ok] * S, cost[ok], atol=1e-9):
                    res.violation(f"{spec.model}: objective contribution {((pts @ own)[ok] * S)[:5].tolist()} expected {cost[ok][:5].tolist()}", case)
                    return
                cap = pts @ np.where(scen == -1, obj, 0.0)
                if not np.allclose(cap[ok], 0.0 if capital is None else capital[ok], atol=1e-9) or abs(poly.lp.obj_const) > 1e-9:
                    res.violation(f"{spec.model}: capital cost {cap[ok][:5].tolist()}", case)
                    return
            res.state((k, str(params), s, S))
        res.sample(case)


# -- balances of several components, area costs, emissions ------------------------------
def w_area(unit: Any, res: Result) -> None:
    """Areas with several loads, renewables and links: one exact balance per area, cost of its own slacks"""
    spc, ens, links = unit
    T = 2
    D = {"d0": [[1, 4], [2, 0]], "d1": [[3, 1], [0, 2]]}
    G = {"g0": [[2, 2], [2, 1]]}
    comps: List[Any] = [("a", "area", {"spillage_cost": spc, "ens_cost": ens}), ("b", "area", {"spillage_cost": spc + 1, "ens_cost": ens + 2})]
    comps += [("d0", "load", {"load": D["d0"]}), ("d1", "load", {"load": D["d1"]}), ("g0", "renewable", {"nominal_capacity": 1, "unit_count": 1, "generation": G["g0"]})]
    conns = [("d0", "balance_port", "a", "balance_port"), ("d1", "balance_port", "b", "balance_port"), ("g0", "balance_port", "a", "balance_port")]
    for i, (o, d) in enumerate(links):
        comps.append((f"l{i}", "link", {"capacity_direct": 2, "capacity_indirect": 2}))
        conns += [(f"l{i}", "out_port", o, "balance_port"), (f"l{i}", "in_port", d, "balance_port")]
    poly = Polyhedron(problem(A, comps, conns, T, 2))
    for s in range(2):
        for f in product([-2, 0, 1], repeat=len(links)):
            net = []
            for t in range(T):
                x = {"a": G["g0"][t][s] - D["d0"][t][s], "b": -D["d1"][t][s]}
                for fl, (o, d) in zip(f, links):
                    x[o] += fl
                    x[d] -= fl
                net.append(x)
            for off in [None] + list(product("ab", range(T), [-0.5, 0.5])):
                pt = np.zeros((1, len(poly.keys)))
                for t in range(T):
                    for i, fl in enumerate(f):
                        pt[0, poly.index[(f"l{i}", "flow", t, s)]] = fl
                        pt[0, poly.index[(f"l{i}", "flow_direct", t, s)]] = max(fl, 0)
                        pt[0, poly.index[(f"l{i}", "flow_indirect", t, s)]] = max(-fl, 0)
                    for a in "ab":
                        y = net[t][a] + (off[2] if off and off[:2] == (a, t) else 0)
                        pt[0, poly.index[(a, "spillage", t, s)]] = max(y, 0) + 1
                        pt[0, poly.index[(a, "unsupplied_energy", t, s)]] = max(-y, 0) + 1
                rows = [r for r in range(len(poly.rlb)) if {poly.keys[i][3] for i in np.nonzero(poly.A[r])[0]} <= {s}]
                val = poly.A[rows] @ pt[0]
                got = bool(((val >= poly.rlb[rows] - 1e-9) & (val <= poly.rub[rows] + 1e-9)).all())
                res.step()
                res.state((unit, s, f, off))
                res.outcome((unit, got, s, f))
                if got != (off is None):
                    res.violation(f"area balance with flows {f}, imbalance {off}, scenario {s}: {'accepted' if got else 'refused'}", unit)
                    return
                if off is None:
                    res.trace()
                    cost = sum(poly.lp.obj.get(k, 0.0) * pt[0, i] for i, k in enumerate(poly.keys))
                    exp = sum((spc + (a == "b")) * pt[0, poly.index[(a, "spillage", t, s)]] + (ens + 2 * (a == "b")) * pt[0, poly.index[(a, "unsupplied_energy", t, s)]] for t in range(T) for a in "ab") / 2
                    if abs(cost - exp) > 1e-9:
                        res.violation(f"area costs: {cost} expected {exp}", unit)
                        return
    for k, i in poly.index.items():
        if k[1] in ("spillage", "unsupplied_energy") and (poly.lb[i] != 0 or poly.ub[i] < 1e6):
            res.violation(f"{k} is limited to [{poly.lb[i]}, {poly.ub[i]}]", unit)


def w_reactive(unit: Any, res: Result) -> None:
    """Buses balance the reactive power of their loads, apart from the active power"""
    qs, signs = unit
    T = 2
    bus = {"v_nom": 1, "x": 0, "y": 0, "v_mag_pu_set": 1, "v_mag_pu_min": 0, "v_mag_pu_max": 1}
    slack = {"p_nom_min": 100, "p_nom_max": 100, "p_min_pu": -1, "p_max_pu": 1, "e_sum_min": -1000, "e_sum_max": 1000, "sign": 1, "marginal_cost": 0, "capital_cost": 0, "efficiency": 1, "emission_factor": 0}
    comps: List[Any] = [("b", "bus", bus), ("s", "generator", slack)]
    conns = [("s", "p_balance_port", "b", "p_balance_port")]
    active = np.zeros(T)
    reactive = np.zeros(T)
    for i, (q, sign) in enumerate(zip(qs, signs)):
        comps.append((f"l{i}", "load", {"p_set": [[3.0 + i], [5.0]], "q_set": [[float(a)] for a in q], "sign": sign}))
        conns += [(f"l{i}", "p_balance_port", "b", "p_balance_port"), (f"l{i}", "q_balance_port", "b", "q_balance_port")]
        active += sign * np.array([3.0 + i, 5.0])
        reactive += sign * np.array(q, float)
    poly = Polyhedron(problem(P, comps, conns, T, 1))
    for delta in (0.0, 0.25):
        pt = np.zeros(len(poly.keys))
        pt[poly.index[("s", "p_nom", None, None)]] = 100.0
        for t in range(T):
            pt[poly.index[("s", "p", t, 0)]] = -active[t] + delta
        got = bool(poly.feasible(pt[None, :])[0])
        exp = not np.any(reactive) and delta == 0
        res.step()
        res.state((unit, delta))
        res.outcome((got, tuple(reactive)))
        if got != exp:
            res.violation(f"reactive powers {qs} with signs {signs}, active power off by {delta}: {'accepted' if got else 'refused'}", unit)
            return
        if exp:
            res.trace()


def w_co2(unit: Any, res: Result) -> None:
    """Quotas: sum over time and connected components of p * emission_factor / efficiency"""
    model, quota, factors, effs, with_store = unit
    T = 2
    comps: List[Any] = [("q", model, {"quota": quota})]
    conns = []
    gens = []
    for i, (ef, eff) in enumerate(zip(factors, effs)):
        comps.append((f"g{i}", "generator", {"p_nom_min": 9, "p_nom_max": 9, "p_min_pu": -1, "p_max_pu": 1, "e_sum_min": -100, "e_sum_max": 100, "sign": 1, "marginal_cost": 1, "capital_cost": 0, "efficiency": eff, "emission_factor": ef}))
        conns.append((f"g{i}", "emission_port", "q", "emission_port"))
        gens.append(f"g{i}")
    if with_store:
        comps.append(("st", "store", {"e_nom_min": 9, "e_nom_max": 9, "e_min_pu": -1, "e_max_pu": 1, "sign": 1, "marginal_cost": 0, "marginal_cost_storage": 0, "capital_cost": 0, "standing_loss": 0, "emission_factor": 5}))
        comps.append(("su", "storage_unit", {"p_nom_min": 9, "p_nom_max": 9, "p_min_pu": -1, "p_max_pu": 1, "sign": 1, "spill_cost": 0, "marginal_cost": 0, "marginal_cost_storage": 0, "capital_cost": 0, "max_hours": 1, "efficiency_store": 1, "efficiency_dispatch": 1, "standing_loss": 0, "inflow": 0, "emission_factor": 5}))
        conns += [("st", "emission_port", "q", "emission_port"), ("su", "emission_port", "q", "emission_port")]
    poly = Polyhedron(problem(P, comps, conns, T, 1))
    for ps in product([0, 1, 2], repeat=len(gens) * T):
        for st in [0, 1] if with_store else [0]:
            pt = np.zeros(len(poly.keys))
            em = 0.0
            it = iter(ps)
            for i, g in enumerate(gens):
                pt[poly.index[(g, "p_nom", None, None)]] = 9
                for t in range(T):
                    x = next(it)
                    pt[poly.index[(g, "p", t, 0)]] = x
                    em += x * factors[i] / effs[i]
            if with_store:
                pt[poly.index[("st", "e_nom", None, None)]] = 9
                pt[poly.index[("su", "p_nom", None, None)]] = 9
                # stored at the first timestep, given back at the second
                pt[poly.index[("st", "p", 0, 0)]] = -st
                pt[poly.index[("st", "p", 1, 0)]] = st
                pt[poly.index[("st", "e", 0, 0)]] = st
                pt[poly.index[("su", "p_store", 0, 0)]] = st
                pt[poly.index[("su", "p_dispatch", 1, 0)]] = st
                pt[poly.index[("su", "state_of_charge", 0, 0)]] = st
            got = bool(poly.feasible(pt[None, :])[0])
            exp = abs(em - quota) < 1e-9 if model.endswith("eq") else em <= quota + 1e-9
            res.step()
            res.state((unit, ps, st))
            res.outcome((unit, got, ps))
            if got != exp:
                res.violation(f"{model} quota {quota}, productions {ps}, stored {st}, emissions {em}: {'accepted' if got else 'refused'}", unit)
                return
            if exp:
                res.trace()


def explore(run: Run) -> None:
    units = []
    for k, spec in enumerate(specs(run.thorough)):
        count = int(np.prod([len(x) for x in spec.params.values()]))
        step = max(1, count // 32)
        for S in (1, 2):
            units += [(k, i, step, S, run.thorough) for i in range(step)]
    run.parallel(worker, units)
    run.parallel(w_area, [(s, e, l) for s in (0, 3) for e in (0, 10) for l in ((), (("a", "b"),), (("b", "a"),), (("a", "b"), ("a", "b")), (("a", "b"), ("b", "a")))])
    q = [(0, 0), (1, 2), (2, 2), (-1, -2)]
    run.parallel(w_reactive, [((a,), (s,)) for a in q for s in (1, -1)] + [((a, b), (s, -1)) for a in q for b in q for s in (1, -1)])
    run.parallel(
        w_co2,
        [(m, q, f, e, st) for m in ("global_constraint_co2_max", "global_constraint_co2_eq") for q in (0, 2, 3) for f in product((0, 1, 2), repeat=2) for e in ((1, 1), (0.5, 2)) for st in (False, True)]
        + [(m, q, (f,), (0.5,), st) for m in ("global_constraint_co2_max", "global_constraint_co2_eq") for q in (0, 2) for f in (0, 1) for st in (False, True)],
    )
