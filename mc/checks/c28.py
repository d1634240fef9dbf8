"""
C28: the PyPSA converter, on all small networks of a bounded family. The external package is
not installed: a stand-in holds the same tables (static and time-varying) and the operation
add("Carrier", ...), which is all the converter uses.
"""
import io
import itertools
import shutil
import sys
import tempfile
import types
from pathlib import Path
from typing import Any, Dict, List, Optional, Set, Tuple

import numpy as np
import pandas as pd

import mc.libs as libs
from andromede.simulation import TimeBlock, build_problem
from andromede.study.parsing import parse_yaml_components
from andromede.study.resolve_components import build_data_base, build_network, consistency_check, resolve_system
from mc.antares import logger
from mc.core import Result, Run, time_limit
from mc.impl import read_lp


class FakeNetwork:
    pass


stub = types.ModuleType("pypsa")
stub.Network = FakeNetwork  # type: ignore
sys.modules["pypsa"] = stub

from andromede.pypsa_converter.pypsa_converter import PyPSAStudyConverter  # noqa: E402
from andromede.pypsa_converter.utils import transform_to_yaml  # noqa: E402

PROPERTY = "C28"
ASSUMPTIONS = [
    "the external package is replaced by a stand-in with the same tables",
    "components of a kind have distinct names, and buses, links and global constraints have names distinct from one another (the converter does not rename them)",
    "a value of at least 1e20 in absolute value is infinite for the solver",
]
BOUNDS = {
    "quick": "for each kind: one component with each subset of its parameters varying in time, two components with each pair of subsets of size <=2 or full; extendable or not, finite or infinite capacities, 5 carriers (none, three declared of which one takes CO2 out, undeclared); each parameter with each of 10 values (zero, negative, tiny, huge, with many digits), constant or in a series; all pairs of 13 names which differ by a space, a case, a suffix...; networks with 0..2 components of each kind on 1..3 buses, the same name in several kinds; 0..2 global constraints; each unsupported feature on each component of two; written and read back, and the problem built compared with the one built from the PyPSA tables",
    "thorough": "the same with all pairs of subsets for generators, links and stores",
}

# parameter: PyPSA column -> (Gems parameter, may vary in time)
KINDS: Dict[str, Dict[str, Any]] = {
    "generators": dict(
        model="generator", suffix="_generator", cap="p_nom", buses={"bus": "p_balance_port"}, carrier=True,
        params={"p_nom_min": 0, "p_nom_max": 0, "p_min_pu": 1, "p_max_pu": 1, "marginal_cost": 1, "capital_cost": 0, "e_sum_min": 0, "e_sum_max": 0, "sign": 0, "efficiency": 1},
    ),
    "loads": dict(model="load", suffix="_load", cap=None, buses={"bus": "p_balance_port"}, carrier=False, params={"p_set": 1, "q_set": 1, "sign": 0}),
    "links": dict(
        model="link", suffix="", cap="p_nom", buses={"bus0": "p0_port", "bus1": "p1_port"}, carrier=False,
        params={"p_nom_min": 0, "p_nom_max": 0, "p_min_pu": 1, "p_max_pu": 1, "marginal_cost": 1, "capital_cost": 0, "efficiency": 1},
    ),
    "storage_units": dict(
        model="storage_unit", suffix="_storage", cap="p_nom", buses={"bus": "p_balance_port"}, carrier=True,
        params={
            "p_nom_min": 0, "p_nom_max": 0, "p_min_pu": 1, "p_max_pu": 1, "sign": 0, "efficiency_store": 1, "efficiency_dispatch": 1, "standing_loss": 1, "max_hours": 0,
            "marginal_cost": 1, "capital_cost": 0, "marginal_cost_storage": 1, "spill_cost": 1, "inflow": 1,
        },
    ),
    "stores": dict(
        model="store", suffix="_store", cap="e_nom", buses={"bus": "p_balance_port"}, carrier=True,
        params={"sign": 0, "e_nom_min": 0, "e_nom_max": 0, "e_min_pu": 1, "e_max_pu": 1, "standing_loss": 1, "marginal_cost": 1, "capital_cost": 0, "marginal_cost_storage": 1},
    ),
    "buses": dict(model="bus", suffix="", cap=None, buses={}, carrier=False, params={"v_nom": 0, "x": 0, "y": 0, "v_mag_pu_set": 1, "v_mag_pu_min": 0, "v_mag_pu_max": 0}),
}
EXTRA = {
    "generators": {"marginal_cost_quadratic": 0.0, "active": True, "committable": False},
    "loads": {"active": True, "carrier": ""},
    "links": {"active": True, "carrier": ""},
    "storage_units": {"active": True, "cyclic_state_of_charge": True, "marginal_cost_quadratic": 0.0},
    "stores": {"active": True, "e_cyclic": True, "marginal_cost_quadratic": 0.0},
    "buses": {"carrier": "AC"},
}
T = 3
CARRIERS = {"gas": 0.25, "coal": 0.5, "beccs": -0.75, "wind": 0.0}


VALUES = (0.0, 0.25, -3.5, 1.0 / 3, 1e-7, 2.0**-30, -1e-12, 123456.789012, 98765432109876.5, 1e19)


def series_params(kind: str) -> List[str]:
    return [p for p, t in KINDS[kind]["params"].items() if t]


class Comp:
    def __init__(self, kind: str, name: str, buses: Tuple[str, ...], k: int, varying: Any = (), ext: bool = True, carrier: str = "", infinite: bool = False, over: Any = ()):
        self.over = tuple(over)  # (parameter, value) pairs
        self.kind, self.name, self.buses, self.k, self.varying, self.ext, self.carrier, self.infinite = kind, name, buses, k, tuple(varying), ext, carrier, infinite

    def key(self) -> Any:
        return (self.kind, self.name, self.buses, self.k, self.varying, self.ext, self.carrier, self.infinite, self.over)

    def static(self) -> Dict[str, Any]:
        """Distinct values for each parameter and component (binary fractions)"""
        row: Dict[str, Any] = {}
        for i, p in enumerate(KINDS[self.kind]["params"]):
            row[p] = 1.0 + i + 32 * self.k
        if "p_min_pu" in row:
            row["p_min_pu"] = -row["p_min_pu"]
        row["sign"] = -1.0 if self.kind == "loads" else 1.0
        if self.infinite:
            for p in row:
                if p.endswith("_max"):
                    row[p] = float("inf")
                if p == "e_sum_min":
                    row[p] = float("-inf")
        cap = KINDS[self.kind]["cap"]
        if cap:
            row[cap] = 500.0 + self.k
            row[cap + "_extendable"] = self.ext
        row.update(self.over)
        row.update(EXTRA[self.kind])
        if KINDS[self.kind]["carrier"]:
            row["carrier"] = self.carrier
        for col, b in zip(KINDS[self.kind]["buses"], self.buses):
            row[col] = b
        return row

    def series(self, p: str) -> List[float]:
        i = list(KINDS[self.kind]["params"]).index(p)
        if p in dict(self.over):
            return [2000.0, dict(self.over)[p], 0.0][:T]
        return [(2000.0 + 256 * self.k + 16 * i + 0.5 * t) * (-1 if p == "p_min_pu" else 1) for t in range(T)]

    # reference
    def id(self) -> str:
        return self.name + KINDS[self.kind]["suffix"]

    def expected(self) -> Dict[str, Any]:
        row, res = self.static(), {}
        cap = KINDS[self.kind]["cap"]
        for p in KINDS[self.kind]["params"]:
            v: Any = self.series(p) if p in self.varying else row[p]
            if cap and not self.ext:
                v = row[cap] if p in (cap + "_min", cap + "_max") else 0.0 if p == "capital_cost" else v
            res[p] = v
        if KINDS[self.kind]["carrier"]:
            res["emission_factor"] = CARRIERS.get(self.carrier, 0.0)
        return res


class Net:
    def __init__(self, comps: List[Comp], constraints: Any = (), name: str = "sys") -> None:
        self.comps, self.constraints, self.name = comps, list(constraints), name

    def key(self) -> Any:
        return (self.name, tuple(c.key() for c in self.comps), tuple(self.constraints))

    def pypsa(self, change: Any = None) -> Any:
        n = FakeNetwork()
        n.name = self.name  # type: ignore
        n.investment_periods = []  # type: ignore
        n.snapshots = list(range(T))  # type: ignore
        n.snapshot_weightings = pd.DataFrame(1.0, index=range(T), columns=["objective", "stores", "generators"])  # type: ignore
        n.carriers = pd.DataFrame({"co2_emissions": list(CARRIERS.values()), "max_growth": float("inf"), "nice_name": "", "color": ""}, index=list(CARRIERS))  # type: ignore
        for kind, d in KINDS.items():
            own = [c for c in self.comps if c.kind == kind]
            proto = Comp(kind, "", ("",) * len(d["buses"]), 0).static()
            table = pd.DataFrame([c.static() for c in own], index=pd.Index([c.name for c in own], dtype=object), columns=list(proto))
            if not own:
                table = pd.DataFrame([proto], index=pd.Index([""], dtype=object)).iloc[:0]
            setattr(n, kind, table)
            ts = {}
            for p in series_params(kind):
                cols = {c.name: c.series(p) for c in own if p in c.varying}
                ts[p] = pd.DataFrame(cols, index=range(T)) if cols else pd.DataFrame(index=range(T), columns=pd.Index([], dtype=object))
            # outputs of PyPSA live in the same tables
            ts["p"] = pd.DataFrame({c.name: [0.0] * T for c in own}, index=range(T), columns=pd.Index([c.name for c in own], dtype=object))
            setattr(n, kind + "_t", ts)
        n.global_constraints = pd.DataFrame(  # type: ignore
            [{"type": "primary_energy", "carrier_attribute": "co2_emissions", "sense": s, "constant": q} for _, s, q in self.constraints],
            index=[c[0] for c in self.constraints], columns=["type", "carrier_attribute", "sense", "constant"],
        )

        def add(what: str, name: str, **kw: Any) -> None:
            assert what == "Carrier", what
            row = {c: kw.get(c, "" if n.carriers[c].dtype == object else 0.0) for c in n.carriers.columns}  # type: ignore
            n.carriers.loc[name] = row  # type: ignore

        n.add = add  # type: ignore
        if change:
            change(n)
        return n

    def expected(self) -> Tuple[Dict[str, Any], Set[Any]]:
        comps: Dict[str, Any] = {}
        conns: Set[Any] = set()
        for c in self.comps:
            comps[c.id()] = (KINDS[c.kind]["model"], c.expected())
            for port, b in zip(KINDS[c.kind]["buses"].values(), c.buses):
                conns.add(frozenset([(b, "p_balance_port"), (c.id(), port)]))
        for g, s, q in self.constraints:
            comps[g] = ("global_constraint_co2_max" if s == "<=" else "global_constraint_co2_eq", {"quota": q})
            for c in self.comps:
                # without emission, being connected or not changes nothing
                if KINDS[c.kind]["carrier"] and c.expected()["emission_factor"]:
                    conns.add(frozenset([(g, "emission_port"), (c.id(), "emission_port")]))
        return comps, conns


def value(x: Any) -> Any:
    if isinstance(x, list):
        return [float(v) for v in x]
    x = float(x)
    return float("inf") if x >= 1e20 else float("-inf") if x <= -1e20 else x


def observed(system: Any, series: Path) -> Tuple[Dict[str, Any], List[Any]]:
    comps: Dict[str, Any] = {}
    for c in system.components + system.nodes:
        if c.id in comps:
            raise ValueError(f"component {c.id} appears twice")
        params: Dict[str, Any] = {}
        for p in c.parameters or []:
            if p.id in params:
                raise ValueError(f"parameter {p.id} of {c.id} appears twice")
            if isinstance(p.value, str):
                if not p.time_dependent or p.scenario_dependent:
                    raise ValueError(f"parameter {p.id} of {c.id} refers to a series but is not time dependent only")
                params[p.id] = [float(l) for l in (series / f"{p.value}.txt").read_text().split()]
            else:
                if p.time_dependent or p.scenario_dependent:
                    raise ValueError(f"parameter {p.id} of {c.id} is a number but dependent on time or scenario")
                params[p.id] = value(p.value)
        if not c.model.startswith("pypsa_models."):
            raise ValueError(f"model {c.model}")
        comps[c.id] = (c.model[len("pypsa_models."):], params)
    return comps, [frozenset([(k.component1, k.port1), (k.component2, k.port2)]) for k in system.connections]


def same_lp(a: Any, b: Any) -> Optional[str]:
    def canon(lp: Any) -> Any:
        inf = lambda x: float("inf") if x >= 1e20 else float("-inf") if x <= -1e20 else round(x, 9)  # noqa: E731
        return (
            {k: (inf(v[0]), inf(v[1]), v[2]) for k, v in lp.vars.items()},
            sorted((sorted((str(k), round(v, 9)) for k, v in c.items() if v), inf(lo), inf(hi)) for c, lo, hi in lp.rows),
            {k: round(v, 9) for k, v in lp.obj.items()},
        )

    ca, cb = canon(a), canon(b)
    for name, x, y in zip(("variables", "rows", "objective"), ca, cb):
        if x != y:
            return name
    return None


def judge(net: Net, d: Path, res: Result, build: bool) -> None:
    case = {"network": net.key()}
    series = d / "series"
    shutil.rmtree(series, ignore_errors=True)
    series.mkdir()
    with time_limit(60, "conversion"):
        system = PyPSAStudyConverter(net.pypsa(), logger(), d, series).to_gems_study()
    res.step()
    res.state(net.key())
    path = d / "system.yml"
    transform_to_yaml(system, str(path))
    with path.open() as f:
        read = parse_yaml_components(f)
    exp_c, exp_k = net.expected()
    exp_c = {i: (m, {p: value(v) for p, v in ps.items()}) for i, (m, ps) in exp_c.items()}
    for what, s in (("converted", system), ("written", read)):
        try:
            comps, conns = observed(s, series)
        except (ValueError, OSError) as e:
            res.violation(f"{what} system: {e}", case)
            return
        if comps != exp_c:
            diff = {i: (comps.get(i), exp_c.get(i)) for i in set(comps) | set(exp_c) if comps.get(i) != exp_c.get(i)}
            res.violation(f"{what} system: components (got, expected) {diff}", case)
            return
        neutral = {c.id() for c in net.comps if KINDS[c.kind]["carrier"] and not c.expected()["emission_factor"]}
        kept = [k for k in conns if not any(p == "emission_port" and c in neutral for c, p in k)]
        if set(kept) != exp_k or len(conns) != len(set(conns)):
            res.violation(f"{what} system: connections {sorted(map(sorted, conns))} expected {sorted(map(sorted, exp_k))}", case)
            return
        res.outcome(str(sorted(comps.items())))
    if build:
        lib = {"pypsa_models": libs.library("pypsa_models")}
        resolved = resolve_system(read, lib)
        consistency_check(resolved.components, {k: m for k, m in lib["pypsa_models"].models.items()})
        p = build_problem(build_network(resolved), build_data_base(read, series), TimeBlock(1, list(range(T))), 1)
        own = [(i, m, {q: (v if isinstance(v, list) else max(min(v, 1e20), -1e20)) for q, v in ps.items()}) for i, (m, ps) in exp_c.items()]
        for i, m, ps in own:
            for q, v in ps.items():
                if isinstance(v, list) and (m, q) in (("load", "p_set"), ("load", "q_set"), ("storage_unit", "inflow")):
                    ps[q] = [[x] for x in v]
        links = []
        for k in exp_k:
            (c1, p1), (c2, p2) = sorted(k)
            links.append((c1, p1, c2, p2))
        ref = libs.problem("pypsa_models", own, links, T, 1)
        err = same_lp(read_lp(p), read_lp(ref))
        if err:
            res.violation(f"the problem of the converted system differs from the one of the PyPSA tables: {err}", case)
            return
    res.trace()
    res.sample(case)


def bus(name: str, k: int, varying: Any = ()) -> Comp:
    return Comp("buses", name, (), k, varying)


def with_buses(comps: List[Comp]) -> List[Comp]:
    names: List[str] = []
    for c in comps:
        names += [b for b in c.buses if b not in names]
    return [bus(b, i + 1) for i, b in enumerate(sorted(names))] + comps


def subsets(ps: List[str]) -> List[Tuple[str, ...]]:
    return [s for n in range(len(ps) + 1) for s in itertools.combinations(ps, n)]


def networks(part: Any, thorough: bool) -> List[Tuple[Net, bool]]:
    what, kind = part
    out: List[Tuple[Net, bool]] = []
    if what == "one":
        nb = len(KINDS[kind]["buses"])
        for s in subsets(series_params(kind)):
            c = Comp(kind, "x", ("b0", "b1")[:nb], 3, s)
            out.append((Net(with_buses([c])), len(s) <= 1 or len(s) == len(series_params(kind))))
    elif what == "two":
        ps = series_params(kind)
        subs = [s for s in subsets(ps) if len(s) in (0, 1, len(ps)) or (len(s) == 2 and len(ps) <= 4) or (thorough and len(ps) <= 5)]
        nb = len(KINDS[kind]["buses"])
        for s1, s2 in itertools.product(subs, repeat=2):
            cs = [Comp(kind, "x", ("b0", "b1")[:nb], 3, s1), Comp(kind, "xy", ("b1", "b0")[:nb], 4, s2)]
            out.append((Net(with_buses(cs)), len(s1) + len(s2) <= 1))
    elif what == "capacity":
        nb = len(KINDS[kind]["buses"])
        carriers = ["", "gas", "coal", "peat", "beccs"] if KINDS[kind]["carrier"] else [""]
        for e1, e2, i1, i2, c1, c2 in itertools.product((True, False), (True, False), (True, False), (True, False), carriers, carriers):
            cs = [Comp(kind, "x", ("b0", "b1")[:nb], 3, (), e1, c1, i1), Comp(kind, "y", ("b0", "b1")[:nb], 4, (), e2, c2, i2)]
            gcs = [("co2", "<=", 7.0)] if c1 or c2 else []
            out.append((Net(with_buses(cs), gcs), True))
    elif what == "values":
        # each parameter takes each value, alone
        nb = len(KINDS[kind]["buses"])
        cap = KINDS[kind]["cap"]
        for p in [*KINDS[kind]["params"], *([cap] if cap else [])]:
            if p == "sign" and kind in ("storage_units", "stores"):
                continue
            for v in VALUES:
                for ext in ((True, False) if cap else (True,)):
                    for varying in ((), (p,)) if KINDS[kind]["params"].get(p) else ((),):
                        cs = [Comp(kind, "x", ("b0", "b1")[:nb], 3, varying, ext, "gas" if KINDS[kind]["carrier"] else "", over=[(p, v)]), Comp(kind, "y", ("b0", "b1")[:nb], 4, (), ext)]
                        out.append((Net(with_buses(cs)), v in (0.0, 0.25) and (not p.startswith(("p_", "e_", "efficiency")) or (p == cap and not ext))))
    elif what == "names":
        # names which differ by little: every component keeps its own series
        nb = len(KINDS[kind]["buses"])
        names = ["a b", "a_b", "a-b", "a.b", "ab", "A b", "a  b", "a,b", "1", "01", "1.0", "a b" + (KINDS[kind]["suffix"] or "_link"), "\u00e9"]
        for n1, n2 in itertools.combinations(names, 2):
            ps = series_params(kind)
            cs = [Comp(kind, n1, ("b0", "b1")[:nb], 3, ps), Comp(kind, n2, ("b1", "b0")[:nb], 4, ps)]
            out.append((Net(with_buses(cs)), (names.index(n1) + names.index(n2)) % 4 == 0))
    elif what == "mixed":
        # 0..2 components of each kind; the same names in several kinds
        kinds = ["generators", "loads", "links", "storage_units", "stores"]
        for counts in itertools.product((0, 1, 2), repeat=5):
            if not thorough and sum(counts) > 6:
                continue
            comps: List[Comp] = []
            k = 1
            for kd, n in zip(kinds, counts):
                for i in range(n):
                    bs = (f"b{(k + i) % 3}", f"b{(k + i + 1) % 3}")[: len(KINDS[kd]["buses"])]
                    ps = series_params(kd)
                    name = ("p", "q")[i] if kd != "links" else ("l0", "l1")[i]
                    comps.append(Comp(kd, name, bs, k, ps[k % len(ps):][:2], (k + i) % 2 == 0, ("", "gas", "coal")[(k + i) % 3] if KINDS[kd]["carrier"] else ""))
                    k += 1
            gcs = [(), (("co2", "<=", 3.0),), (("cap", "==", 2.0), ("co2", "<=", 5.0))][sum(counts) % 3]
            out.append((Net([bus("b0", 20), bus("b1", 21, ("v_mag_pu_set",)), bus("b2", 22)] + comps, gcs, "my net" if counts[0] else "n"), sum(counts) <= 5))
    elif what == "constraints":
        for q in (0.0, -1.5, 1.0 / 3, 1e-7, 1e12):
            for sense in ("<=", "=="):
                out.append((Net(with_buses([Comp("generators", "g", ("b0",), 1, (), True, "gas")]), [("c", sense, q), ("d", "<=", 4.0)]), True))
        for cs in itertools.product(["", "gas", "coal", "beccs", "wind"], repeat=3):
            for gcs in [(), (("c", "<=", 1.0),), (("c", "==", 1.0),), (("c", "<=", 1.0), ("d", "==", 0.5)), (("c", "<=", 1.0), ("d", "<=", 2.0))]:
                comps = [Comp("generators", "g", ("b0",), 1, (), True, cs[0]), Comp("stores", "g", ("b0",), 2, (), True, cs[1]), Comp("storage_units", "g", ("b0",), 3, (), True, cs[2])]
                out.append((Net(with_buses(comps), gcs), True))
    return out


def worker(unit: Any, res: Result) -> None:
    part, start, step, thorough = unit
    d = Path(tempfile.mkdtemp(prefix="c28_"))
    try:
        for net, build in networks(part, thorough)[start::step]:
            judge(net, d, res, build)
            if res.violations:
                return
    finally:
        shutil.rmtree(d)


# -- unsupported features -----------------------------------------------------------
def cell(kind: str, i: int, col: str, v: Any) -> Any:
    def change(n: Any) -> None:
        df = getattr(n, kind)
        vals = list(df[col])
        vals[i] = v
        df[col] = vals

    return change


def refusals() -> List[Tuple[str, Any]]:
    res: List[Tuple[str, Any]] = []
    for i in (0, 1):
        for kind, col, v in [
            ("generators", "marginal_cost_quadratic", 0.5), ("generators", "active", False), ("generators", "committable", True), ("loads", "active", False), ("links", "active", False),
            ("storage_units", "active", False), ("storage_units", "sign", -1.0), ("storage_units", "cyclic_state_of_charge", False), ("storage_units", "marginal_cost_quadratic", 0.5),
            ("stores", "active", False), ("stores", "sign", -1.0), ("stores", "e_cyclic", False), ("stores", "marginal_cost_quadratic", 0.5),
            ("global_constraints", "type", "transmission_volume_expansion_limit"), ("global_constraints", "carrier_attribute", "other"), ("global_constraints", "sense", ">="),
        ]:
            res.append((f"{kind}.{col}={v} on component {i}", cell(kind, i, col, v)))

    def periods(n: Any) -> None:
        n.investment_periods = [2020, 2030]

    res.append(("investment periods", periods))
    for t in range(T):
        for c in range(3):
            def weight(n: Any, t: int = t, c: int = c) -> None:
                n.snapshot_weightings.iloc[t, c] = 2.0

            res.append((f"weight of snapshot {t} column {c}", weight))
    return res


def w_refused(unit: Any, res: Result) -> None:
    comps = []
    for j, kind in enumerate(["generators", "loads", "links", "storage_units", "stores"]):
        for i in range(2):
            comps.append(Comp(kind, f"{kind}{i}", ("b0", "b1")[: len(KINDS[kind]["buses"])], 1 + 2 * j + i))
    net = Net(with_buses(comps), [("c", "<=", 1.0), ("d", "==", 2.0)])
    d = Path(tempfile.mkdtemp(prefix="c28_"))
    try:
        (d / "series").mkdir()
        # accepted without change
        PyPSAStudyConverter(net.pypsa(), logger(), d, d / "series").to_gems_study()
        for what, change in refusals():
            n = net.pypsa(change)
            res.step()
            res.state(what)
            try:
                PyPSAStudyConverter(n, logger(), d, d / "series").to_gems_study()
            except Exception as e:
                res.outcome((what, type(e).__name__))
                res.trace()
                continue
            res.violation(f"unsupported feature accepted: {what}", what)
    finally:
        shutil.rmtree(d)


def explore(run: Run) -> None:
    parts = [("one", k) for k in KINDS] + [("two", k) for k in KINDS] + [("names", k) for k in KINDS] + [("values", k) for k in KINDS] + [("capacity", k) for k in KINDS if KINDS[k]["cap"]] + [("mixed", ""), ("constraints", "")]
    units = []
    for p in parts:
        n = len(networks(p, run.thorough))
        step = max(1, n // 40)
        units += [(p, i, step, run.thorough) for i in range(step)]
    run.parallel(worker, units)
    run.local(w_refused)
