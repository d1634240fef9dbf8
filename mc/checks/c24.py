"""
C24: conversion of Antares studies. All small studies of a bounded space (which elements each
area has, links, battery artefacts), converted by the real converter from study objects and
from study folders; each element must appear once with its own parameters, series contents and
connections, and the written file must say the same.
"""
import contextlib
import copy
import io
import pathlib
import tempfile
from itertools import product
from typing import Any, Dict, List, Optional, Tuple

import pandas as pd
from antares.craft.model.area import AreaProperties
from antares.craft.model.binding_constraint import ClusterData, ConstraintTerm, LinkData
from antares.craft.model.renewable import RenewableClusterProperties
from antares.craft.model.st_storage import STStorageProperties
from antares.craft.model.thermal import ThermalClusterProperties

from andromede.input_converter.src.converter import AntaresStudyConverter
from andromede.input_converter.src.data_preprocessing import binding_constraints as preprocessing
from andromede.input_converter.src.data_preprocessing.dataclasses import Operation
from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
from andromede.simulation import TimeBlock, build_problem
from andromede.study.parsing import parse_yaml_components
from andromede.study.resolve_components import build_data_base, build_network, resolve_system
from mc.antares import logger, new_study, path_of, read_table, write_table
from mc.checks.c23 import PARAMS as THERMAL_PARAMS
from mc.checks.c23 import formulas
from mc.core import REPO, Result, Run, raised_by_implementation, time_limit
from mc.lpcheck import chunks

PROPERTY = "C24"
ASSUMPTIONS = [
    "studies are made with antares_craft in version 8.8, with 3 timesteps (tables of other lengths: C23)",
    "identifiers of loads, wind, solar and clusters are those expected by the existing tests (recorded findings)",
    "what remains of an incomplete battery artefact is not specified; the rest of the study is",
]
BOUNDS = {
    "quick": "all 216 contents of an area (load, wind, solar: absent, zero or not; renewables 0..1, thermals 0 or 2, storages 0..1) x 3 contents of another; all 8 link sets on 3 areas x all 5^2 states of the battery artefacts of two areas (absent, complete, or one of 3 parts missing); from study object and folder, periods 1, 2, default; all operations on all pairs of a value alphabet; 11 area names that contain one another or those of the artefact, in all pairs that do and all together, written with and without capitals; each kind of value of a configuration (properties, weights, columns of series, operations) on each element of a study",
    "thorough": "the same with 12 contents of the other area, and all contents of an area x battery states",
}

T = 3
Table = List[List[float]]


def tab(seed: float, width: int = 2) -> Table:
    return [[seed + 10 * t + 0.5 * s for s in range(width)] for t in range(T)]


class Want:
    """Reference result"""

    def __init__(self) -> None:
        self.nodes: Dict[str, Dict[str, Any]] = {}
        self.components: List[Tuple[str, str, Dict[str, Any]]] = []  # id, model, parameters
        self.connections: List[Tuple[str, str, str, str]] = []
        self.dont_care: set = set()  # ids
        self.blockers: set = set()  # recorded findings that prevent loading the result

    def add(self, id: str, model: str, params: Dict[str, Any], *cnx: Tuple[str, str, str]) -> None:
        self.components.append((id, model, params))
        for port, area, area_port in cnx:
            self.connections.append((id, port, area, area_port))


def const(v: float) -> Any:
    return (False, False, float(v))


def series(t: Table) -> Any:
    return (True, True, t)


class StudyMaker:
    def __init__(self, tmp: str):
        self.study = new_study(tmp)
        self.root = path_of(self.study)
        self.want = Want()
        self.n = 0

    def num(self) -> float:
        self.n += 1
        return float(self.n)

    def area(self, a: str, name: Optional[str] = None) -> None:
        e, s = 100 + self.num(), 3 + self.num()
        self.study.create_area(name or a, properties=AreaProperties(energy_cost_unsupplied=e, energy_cost_spilled=s))
        if a != "z_batteries":
            self.want.nodes[a] = {"ens_cost": const(e), "spillage_cost": const(s)}

    def area_series(self, a: str, kind: str, state: str) -> None:
        f = self.root / "input" / kind / "series" / f"{kind}_{a}.txt"
        if state == "absent":
            if f.exists():
                f.write_text("")
            return
        t = tab(self.num() * 100) if state == "full" else [[0.0, 0.0]] * T
        if state == "last":
            t = [[0.0, 0.0]] * (T - 1) + [[0.0, self.num()]]
        if state == "balanced":  # not zero, though the sum is
            t = [[self.num(), 0.0]] + [[0.0, 0.0]] * (T - 2) + [[0.0, -self.n]]
        write_table(f, t)
        if state != "zero":
            # identifiers pinned by the existing tests
            cid = "load" if kind == "load" else a
            self.want.components.append((cid, f"antares-historic.{kind}", {kind: series(t)}))
            self.want.connections.append((kind, "balance_port", a, "balance_port"))
            if kind != "load":
                self.want.blockers.add("wind-solar")
            elif sum(c[0] == "load" for c in self.want.components) > 1:
                self.want.blockers.add("load-id")

    def thermal(self, a: str, name: str, period: int, units: int = 3, title: Optional[str] = None) -> None:
        nominal = 4.0 * (1 + self.n % 3)
        p = dict(
            unit_count=units, nominal_capacity=nominal, min_stable_power=self.num(), efficiency=self.num(), marginal_cost=self.num(),
            fixed_cost=self.num(), startup_cost=self.num(), min_up_time=1 + self.n % 5, min_down_time=2 + self.n % 3,
        )
        self.study.get_areas()[a].create_thermal_cluster(title or name, ThermalClusterProperties(**p))
        s = [[float((7 * t + 3 * k + self.n) % 12) for k in range(2)] for t in range(T)]
        mod = [0.25 * ((t + self.n) % 4) for t in range(T)]
        write_table(self.root / "input" / "thermal" / "series" / a / name / "series.txt", s)
        write_table(self.root / "input" / "thermal" / "prepro" / a / name / "modulation.txt", [[1.0, 1.0, 1.0, m] for m in mod])
        params = {k: series(formulas(k, mod, s, units, nominal, period)) for k in THERMAL_PARAMS}
        params.update(
            unit_count=const(units), p_min_unit=const(p["min_stable_power"]), efficiency=const(p["efficiency"]), p_max_unit=const(nominal),
            generation_cost=const(p["marginal_cost"]), fixed_cost=const(p["fixed_cost"]), startup_cost=const(p["startup_cost"]),
            d_min_up=const(p["min_up_time"]), d_min_down=const(p["min_down_time"]), p_max_cluster=series(s),
        )
        self.unique(name)
        self.want.add(name, "antares-historic.thermal", params, ("balance_port", a, "balance_port"))

    def renewable(self, a: str, name: str) -> None:
        u, c = int(self.num()), self.num()
        s = tab(self.num() * 1000)
        self.study.get_areas()[a].create_renewable_cluster(name, RenewableClusterProperties(unit_count=u, nominal_capacity=c), series=pd.DataFrame(s))
        self.want.blockers.add("renewable-parameter")
        self.unique(name)
        self.want.add(name, "antares-historic.renewable", {"unit_count": const(u), "p_max_unit": const(c), "generation": series(s)}, ("balance_port", a, "balance_port"))

    def storage(self, a: str, name: str) -> None:
        p = dict(injection_nominal_capacity=self.num(), withdrawal_nominal_capacity=self.num(), reservoir_capacity=self.num(), efficiency=0.5 + 0.25 * (self.n % 3), initial_level=0.25 * (self.n % 4))
        self.study.get_areas()[a].create_st_storage(name, STStorageProperties(**p))
        params = {
            "efficiency_injection": const(p["efficiency"]), "efficiency_withdrawal": const(1), "initial_level": const(p["initial_level"]),
            "reservoir_capacity": const(p["reservoir_capacity"]), "injection_nominal_capacity": const(p["injection_nominal_capacity"]),
            "withdrawal_nominal_capacity": const(p["withdrawal_nominal_capacity"]),
        }
        for par, f in (("inflows", "inflows"), ("lower_rule_curve", "lower-rule-curve"), ("upper_rule_curve", "upper-rule-curve"), ("p_max_injection_modulation", "PMAX-injection"), ("p_max_withdrawal_modulation", "PMAX-withdrawal")):
            t = tab(self.num(), 1)
            write_table(self.root / "input" / "st-storage" / "series" / a / name / f"{f}.txt", t)
            params[par] = series(t)
        self.unique(name)
        self.want.add(name, "antares-historic.short-term-storage", params, ("injection_port", a, "balance_port"))

    def unique(self, name: str) -> None:
        if any(c[0] == name for c in self.want.components):
            self.want.blockers.add("cluster-id")

    def link(self, a: str, b: str, wanted: bool = True, width: int = 2) -> Any:
        a, b = sorted((a, b))
        lk = self.study.create_link(area_from=a, area_to=b)
        d, i = tab(20 + self.num(), width), tab(40 + self.num(), width)
        base = self.root / "input" / "links" / a / "capacities"
        write_table(base / f"{b}_direct.txt", d)
        write_table(base / f"{b}_indirect.txt", i)
        pr = tab(self.num(), 6)
        write_table(self.root / "input" / "links" / a / f"{b}_parameters.txt", pr)
        if wanted:
            self.want.add(
                lk.id, "antares-historic.link", {"capacity_direct": series(d), "capacity_indirect": series(i)},
                ("in_port", a, "balance_port"), ("out_port", b, "balance_port"),
            )
        return lk, d, pr

    def battery(self, a: str, state: str, period: int) -> None:
        """Artefact of the configuration file: a link to z_batteries, clusters, a constraint"""
        if state == "absent":
            return
        inj, c1, c2 = f"{a}_batteries_inj", f"z_batteries_batteries_{a}_1", f"z_batteries_batteries_{a}_2"
        keep = (list(self.want.components), list(self.want.connections))
        _, direct, prm = (None, None, None) if state == "no link" else self.link(a, "z_batteries", False)
        W, R = self.num() + 1, self.num() + 5
        if state != "no cluster":
            self.thermal_raw(a, inj, W)
        self.thermal_raw("z_batteries", c1, R)
        self.thermal_raw("z_batteries", c2, 3.0)
        e1, e2 = -0.5 - 0.25 * (self.n % 2), 1.0 + 0.25 * (self.n % 3)
        if state != "no constraint":
            terms = [ConstraintTerm(data=LinkData(a, "z_batteries"), weight=e1), ConstraintTerm(data=ClusterData(a, inj), weight=e2)]
            self.study.create_binding_constraint(name=f"batteries_{a}", terms=terms)
        self.want.components, self.want.connections = keep
        if state != "complete":
            self.want.dont_care |= {inj, c1, c2, f"battery_{a}", f"{a} / z_batteries"}
            return
        cap = max(r[0] for r in direct)
        col = lambda t, k=1.0: (True, False, [[r[0] / k] for r in t])
        self.want.add(
            f"battery_{a}", "andromede-v1-models.battery",
            {
                "reservoir_capacity": const(R), "injection_nominal_capacity": const(cap), "withdrawal_nominal_capacity": const(W),
                "efficiency_injection": const(-e1), "efficiency_withdrawal": const(e2), "lower_rule_curve": const(0),
                "upper_rule_curve": col(self.raw[c1], R), "p_max_injection_modulation": col(direct, cap),
                "p_max_withdrawal_modulation": col(self.raw[inj], W), "marginal_cost": col(prm),
            },
            ("injection_port", a, "balance_port"),
        )

    raw: Dict[str, Table] = {}

    def thermal_raw(self, a: str, name: str, nominal: float) -> None:
        self.study.get_areas()[a].create_thermal_cluster(name, ThermalClusterProperties(unit_count=1, nominal_capacity=nominal))
        s = [[nominal * (0.25 * (t + 1)), 9.0] for t in range(T)]
        self.raw = {**self.raw, name: s}
        write_table(self.root / "input" / "thermal" / "series" / a / name / "series.txt", s)
        write_table(self.root / "input" / "thermal" / "prepro" / a / name / "modulation.txt", [[1.0] * 4] * T)


def close(a: Any, b: Any) -> bool:
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def diff_params(want: Dict[str, Any], got: Any) -> Optional[str]:
    names = [p.id for p in got]
    if sorted(names) != sorted(want):
        return f"parameters {sorted(names)} instead of {sorted(want)}"
    for p in got:
        t, s, v = want[p.id]
        if (bool(p.time_dependent), bool(p.scenario_dependent)) != (t, s):
            return f"{p.id} is declared time {p.time_dependent}, scenario {p.scenario_dependent}"
        if isinstance(v, float):
            if isinstance(p.value, str) or not close(float(p.value), v):
                return f"{p.id} = {p.value} instead of {v}"
        else:
            if not pathlib.Path(str(p.value) + ".txt").is_file():
                return f"{p.id} refers to {p.value}, which does not exist"
            if not close(read_table(str(p.value)), v):
                return f"series of {p.id} is {read_table(str(p.value))[:3]} instead of {v[:3]}"
    return None


def compare(want: Want, got: Any) -> Optional[str]:
    nodes = {n.id: n for n in got.nodes}
    if len(nodes) != len(got.nodes) or set(nodes) - want.dont_care != set(want.nodes):
        return f"areas {sorted(n.id for n in got.nodes)} instead of {sorted(want.nodes)}"
    for a, ps in want.nodes.items():
        if nodes[a].model != "antares-historic.area":
            return f"area {a} has model {nodes[a].model}"
        d = diff_params(ps, nodes[a].parameters or [])
        if d:
            return f"area {a}: {d}"
    left = [c for c in got.components if c.id not in want.dont_care]
    for cid, model, ps in want.components:
        cands = [c for c in left if c.id == cid and c.model == model]
        if not cands:
            return f"{model} {cid} is missing"
        ds = [diff_params(ps, c.parameters or []) for c in cands]
        if all(ds):
            return f"{model} {cid}: {ds[0]}"
        left.remove(cands[ds.index(None)])
    if left:
        return f"unexpected components {[(c.id, c.model) for c in left]}"
    cs = sorted((c.component1, c.port1, c.component2, c.port2) for c in got.connections if c.component1 not in want.dont_care and c.component2 not in want.dont_care)
    if cs != sorted(want.connections):
        extra = [c for c in cs if c not in want.connections]
        missing = [c for c in want.connections if c not in cs]
        return f"connections: missing {missing}, unexpected {extra} ({len(cs)} instead of {len(want.connections)})"
    return None


_LIBS: List[Any] = []


def libraries() -> Any:
    if not _LIBS:
        base = REPO / "src/andromede/libs"
        texts = [(base / "antares_historic/antares_historic.yml").read_text(), (base / "reference_models/andromede_v1_models.yml").read_text()]
        _LIBS.append(resolve_library([parse_yaml_library(io.StringIO(t)) for t in texts]))
    return _LIBS[0]


def loads(path: pathlib.Path) -> Optional[str]:
    """The written file makes a problem with the shipped libraries"""
    try:
        inp = parse_yaml_components(path.open())
        net = build_network(resolve_system(inp, libraries()))
        build_problem(net, build_data_base(inp, path.parent), TimeBlock(1, [0, 1, 2]), 1, solver_id="GLOP")
    except Exception as e:
        if not raised_by_implementation(e):
            raise
        return f"{type(e).__name__}: {e}"
    return None


def convert(mk: StudyMaker, route: str, period: Any, out: Optional[pathlib.Path] = None) -> Any:
    src = mk.study if route == "study" else mk.root
    return AntaresStudyConverter(study_input=src, logger=logger(), output_path=out, period=period)


def check(mk: StudyMaker, period: Any, res: Result, case: Any, load: bool = True) -> bool:
    want = mk.want
    with time_limit(120), contextlib.redirect_stdout(io.StringIO()):
        for route in ("study", "folder"):
            got = convert(mk, route, period).convert_study_to_input_study()
            res.trace()
            res.step(len(got.components) + len(got.connections))
            res.outcome((sorted(c.id for c in got.components), sorted(n.id for n in got.nodes)))
            d = compare(want, got)
            if d:
                res.violation(f"converted from {route}: {d}", case)
                return False
        with tempfile.TemporaryDirectory() as out:
            f = pathlib.Path(out) / "sys.yaml"
            convert(mk, "study", period, f).process_all()
            d = compare(want, parse_yaml_components(f.open()))
            if d:
                res.violation(f"in the written file: {d}", case)
                return False
            if load and not want.dont_care:
                err = loads(f)
                if want.blockers:
                    if err:
                        for b in want.blockers:
                            res.known_finding(b)
                elif err:
                    res.violation(f"the converted system cannot be loaded with the shipped libraries: {err}", case)
                    return False
    return True


STATES = ("absent", "zero", "full")
CONTENTS = [(l, w, s, r, t, b) for l in STATES for w in STATES for s in STATES for r in (0, 1) for t in (0, 2) for b in (0, 1)]
OTHER = [("absent", "absent", "absent", 0, 0, 0), ("last", "full", "full", 1, 1, 1), ("balanced", "last", "balanced", 0, 2, 0)]


def fill(mk: StudyMaker, a: str, content: Any, period: int, names: Tuple[str, str]) -> None:
    l, w, s, r, t, b = content
    for kind, st in (("load", l), ("wind", w), ("solar", s)):
        mk.area_series(a, kind, st)
    for i in range(t):
        mk.thermal(a, f"{names[0]}{i}", period)
    for i in range(r):
        mk.renewable(a, f"{names[0]}r{i}")
    for i in range(b):
        mk.storage(a, f"{names[0]}s{i}")


def contents_worker(unit: Any, res: Result) -> None:
    for i, (c, o, same) in enumerate(unit):
        period = (None, 1, 2)[i % 3]
        case = {"fr": c, "it": o, "same names": same, "period": period}
        res.state(repr(case))
        with tempfile.TemporaryDirectory() as tmp:
            mk = StudyMaker(tmp)
            for a in ("fr", "it"):
                mk.area(a)
            fill(mk, "fr", c, period or 168, ("a", ""))
            fill(mk, "it", o, period or 168, ("a" if same else "b", ""))
            mk.link("fr", "it")
            if not check(mk, period, res, case):
                return
    res.sample(case)


BATT = ("absent", "complete", "no constraint", "no cluster", "no link")


def links_worker(unit: Any, res: Result) -> None:
    for links, b1, b2, first, content in unit:
        case = {"links": links, "fr": b1, "it": b2, "first": first, "content": content}
        res.state(repr(case))
        with tempfile.TemporaryDirectory() as tmp:
            mk = StudyMaker(tmp)
            order = ["fr", "it", "at"] if first else ["it", "at", "fr"]
            for a in order:
                mk.area(a)
            if b1 != "absent" or b2 != "absent":
                mk.area("z_batteries")
            for a, b in links:
                mk.link(a, b)
            mk.thermal("fr", "gas", 2)
            if content is not None:
                fill(mk, "fr", content, 2, ("c", ""))
            for a, st in (("fr", b1), ("it", b2))[:: 1 if first else -1]:
                mk.battery(a, st, 2)
            if not check(mk, 2, res, case):
                return
    res.sample(case)


# areas whose names resemble one another and those of the battery artefact
ALIKE = ["fr", "f", "fr2", "r", "batteries", "z_batteries2", "z_batteries_pcomp", "z", "z_b", "a z_batteries", "north sea"]
TITLES = {"fr2": "FR2", "north sea": "North Sea", "z_batteries": "Z_Batteries", "r": "R"}


def names_worker(unit: Any, res: Result) -> None:
    """Names that contain one another: only what the configuration names is replaced"""
    for areas, owners, titled in unit:
        case = {"areas": areas, "batteries": owners, "capitals": titled}
        res.state(repr(case))
        with tempfile.TemporaryDirectory() as tmp:
            mk = StudyMaker(tmp)
            title = lambda a: TITLES.get(a) if titled else None
            for a in areas:
                mk.area(a, title(a))
            if owners:
                mk.area("z_batteries", title("z_batteries"))
            for a, b in zip(areas, areas[1:]):
                mk.link(a, b)
            mk.area_series(areas[-1], "load", "full")
            for a in areas:
                mk.thermal(a, f"{a}_bat", 2)
                mk.thermal(a, f"{a}_batteries_inj2", 2, title=f"{a}_Batteries_INJ2" if titled else None)
                mk.thermal(a, f"z_batteries_batteries_{a}_1", 2)
            for a in owners:
                mk.battery(a, "complete", 2)
            if not check(mk, 2, res, case, load=False):
                return
    res.sample(case)


def operation_worker(unit: Any, res: Result) -> None:
    """Arithmetic operations of the configuration"""
    vals = (-2.0, -1.0, 0.0, 0.5, 1.0, 4.0)
    sers = [pd.Series(v) for v in ([1.0], [3.0, -4.0], [0.0, 2.0, 8.0])]

    def run(op: Any, x: Any, pre: Any) -> Any:
        try:
            r = op.execute(x, pre) if pre is not None else op.execute(x)
        except Exception as e:
            if not raised_by_implementation(e):
                raise
            return "refused"
        return [float(v) for v in r] if isinstance(r, pd.Series) else float(r)

    def each(x: Any, f: Any) -> Any:
        return [f(float(v)) for v in x] if isinstance(x, pd.Series) else f(float(x))

    for x in [*vals, *sers]:
        before = list(x) if isinstance(x, pd.Series) else x
        for k in vals:
            pre = {"cap": k, "other": k + 100}
            for op, f in (
                (Operation(multiply_by=k), lambda v: v * k), (Operation(multiply_by="cap"), lambda v: v * k),
                (Operation(divide_by=k), lambda v: v / k), (Operation(divide_by="cap"), lambda v: v / k),
                (Operation(multiply_by="missing"), None), (Operation(divide_by="missing"), None), (Operation(), None),
            ):
                if op.divide_by is not None and k == 0:
                    continue
                want = "refused" if f is None else each(x, f)
                got = run(op, x, pre)
                res.state((str(op), str(before), k))
                res.trace()
                res.outcome(str(got))
                if got != want:
                    res.violation(f"{op} on {before} with {pre} gives {got} instead of {want}", {"operation": str(op)})
                    return
            if run(Operation(multiply_by="cap"), x, None) != "refused":
                res.violation("a name without value is accepted", {"x": str(x)})
                return
        if isinstance(x, pd.Series):
            res.trace()
            if run(Operation(type="max"), x, {}) != max(before):
                res.violation(f"max of {before}", None)
            if list(x) != before:
                res.violation("an operation altered its input", None)


def values_worker(unit: Any, res: Result) -> None:
    """Each kind of value a configuration file may name, on each element of a study"""
    cls = getattr(preprocessing, "BindingConstraintsPreprocessing", None)
    if cls is None or not hasattr(cls, "convert_param_value"):
        return  # values are read another way
    fields = {"nominalcapacity": "nominal_capacity", "min-stable-power": "min_stable_power", "min-up-time": "min_up_time", "min-down-time": "min_down_time"}
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
        mk = StudyMaker(tmp)
        props: Dict[Any, Any] = {}
        tables: Dict[Any, Table] = {}
        for a in ("fr", "it"):
            mk.area(a)
            for c in ("gas", "oil"):
                v = dict(nominal_capacity=10 + mk.num(), min_stable_power=mk.num(), min_up_time=int(2 + mk.num()), min_down_time=int(30 + mk.num()))
                mk.study.get_areas()[a].create_thermal_cluster(c, ThermalClusterProperties(unit_count=1, **v))
                props[a, c] = v
                tables["thermal_series", a, c] = t = tab(100 * mk.num())
                write_table(mk.root / "input" / "thermal" / "series" / a / c / "series.txt", t)
        mk.area("at")
        links = [("at", "fr"), ("fr", "it")]
        weights: Dict[Any, float] = {}
        for a, b in links:
            _, d, pr = mk.link(a, b)
            tables["links_capacities_direct", a, b] = d
            tables["links_capacities_indirect", a, b] = read_table(str(mk.root / "input" / "links" / a / "capacities" / f"{b}_indirect"))
            tables["links_parameters", a, b] = pr
        for k, name in enumerate(("one", "two")):
            terms = [ConstraintTerm(data=LinkData(a, b), weight=1.5 + k + j) for j, (a, b) in enumerate(links)]
            terms += [ConstraintTerm(data=ClusterData("it", "oil"), weight=-4.0 - k)]
            mk.study.create_binding_constraint(name=name, terms=terms)
            for term in terms:
                weights[name, term.id] = term.weight
        p = cls(mk.study)

        def ask(id: str, parameter: Any) -> Any:
            got = p.convert_param_value(id, parameter)
            return [r[0] for r in read_table(got)] if isinstance(got, str) else float(got)

        def expect(parameter: Any, want: Any, id: str = "v") -> bool:
            res.state(repr((parameter, id)))
            res.trace()
            res.step()
            got = ask(id, copy.deepcopy(parameter))
            res.outcome(repr(got))
            if not (close(got, want) if not isinstance(want, list) else len(got) == len(want) and all(map(close, got, want))):
                res.violation(f"the value {parameter} is {got} instead of {want}", {"value": parameter})
                return False
            return True

        ok = all(expect({"type": "constant", "data": v}, float(v)) for v in (0, 1, -2.5))
        for (a, c), v in props.items():
            for f, prop_name in fields.items():
                data = {"area": a, "cluster": c, "field": f}
                ok = ok and expect({"type": "thermal", "data": data}, v[prop_name], "raw")
                ok = ok and expect({"type": "thermal", "data": {**data, "operation": {"multiply_by": -3}}}, -3 * v[prop_name])
                ok = ok and expect({"type": "thermal", "data": {**data, "operation": {"divide_by": 4}}}, v[prop_name] / 4)
                ok = ok and expect({"type": "thermal", "data": {**data, "operation": {"multiply_by": "raw"}}}, v[prop_name] ** 2)
        for (n, term), w in weights.items():
            data = {"id": n, "field": term}
            ok = ok and expect({"type": "binding_constraint", "data": data}, w)
            ok = ok and expect({"type": "binding_constraint", "data": {**data, "operation": {"multiply_by": -1}}}, -w)
        for (kind, a, b), t in tables.items():
            for col in range(len(t[0])):
                x = [r[col] for r in t]
                data = {"timeseries_file_type": kind, "column": col}
                data = {**data, "area": a, "cluster": b} if kind == "thermal_series" else {**data, "area_from": a, "area_to": b}
                ty = "thermal" if kind == "thermal_series" else "link"
                ok = ok and expect({"type": ty, "data": data}, x)
                ok = ok and expect({"type": ty, "data": {**data, "operation": {"type": "max"}}}, max(x), "cap")
                ok = ok and expect({"type": ty, "data": {**data, "operation": {"divide_by": "cap"}}}, [y / max(x) for y in x])
                ok = ok and expect({"type": ty, "data": {**data, "operation": {"multiply_by": 2}}}, [y * 2 for y in x])
                # a name stands for the value of that name, even when it was asked for before others
                f = list(props)[col % 4]
                ok = ok and expect({"type": "thermal", "data": {"area": f[0], "cluster": f[1], "field": "nominalcapacity"}}, props[f]["nominal_capacity"], "nominal")
                ok = ok and expect({"type": ty, "data": {**data, "operation": {"multiply_by": "nominal"}}}, [y * props[f]["nominal_capacity"] for y in x])
                if not ok:
                    return


def explore(run: Run) -> None:
    run.local(values_worker)
    run.local(operation_worker)
    others = [*OTHER, *CONTENTS[5::24]] if run.thorough else OTHER
    units = [(c, o, same) for c in CONTENTS for i, o in enumerate(others) for same in ((False, True) if o[4] == 1 else (False,))]
    run.parallel(contents_worker, chunks(units, 12))
    pairs = [("fr", "it"), ("fr", "at"), ("it", "at")]
    sets = [[p for k, p in enumerate(pairs) if m >> k & 1] for m in range(8)]
    lunits: List[Any] = [(s, b1, b2, f, None) for s in sets for b1 in BATT for b2 in BATT for f in ((True, False) if s in (sets[0], sets[7]) else (True,))]
    if run.thorough:
        lunits += [(sets[7], b1, b2, True, c) for b1 in BATT[:2] for b2 in BATT[:2] for c in CONTENTS]
    run.parallel(links_worker, chunks(lunits, 8))
    plain = [a for a in ALIKE if a < "z_batteries"]
    nunits: List[Any] = [([a, b], o, t) for i, a in enumerate(ALIKE) for b in ALIKE[i + 1 :] if a in b or b in a for t in ((False, True) if {a, b} & set(TITLES) else (False,)) for o in [[], *([x] for x in (a, b) if x in plain)]]
    nunits += [(ALIKE, o, t) for t in (False, True) for o in ([], ["fr"], ["fr2"], ["f", "fr", "fr2"], ["r", "batteries"], ["a z_batteries", "north sea"])]
    run.parallel(names_worker, chunks(nunits, 8))
