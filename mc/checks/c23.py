"""
C23: thermal pre-processing. All small tables of availability and modulation over a value
alphabet, through the real study files, against the formulas.
"""
import math
import pathlib
import tempfile
from itertools import permutations, product
from typing import Any, Dict, List

from antares.craft.model.thermal import ThermalClusterProperties

from andromede.input_converter.src.data_preprocessing.thermal import ThermalDataPreprocessing
from mc.antares import new_study, path_of, read_table, write_table
from mc.core import Result, Run, time_limit
from mc.lpcheck import chunks

PROPERTY = "C23"
ASSUMPTIONS = ["values are exactly representable, so that roundings up are those of the exact quotients"]
BOUNDS = {
    "quick": "all tables of <=5 timesteps over 3 availabilities (all columns) and periods 1..7, the default period on 1..400 and 8760 rows; all pairs of 9 modulations and 14 availabilities (some a millionth of a unit from a whole number of units) for 5 clusters; all tables of 1 column and <=3 rows over 4 availabilities x 3 modulations; all orders of the 5 parameters; two areas with clusters of the same name",
    "thorough": "the same with all tables of <=7 timesteps, and 4 rows for the one-column tables",
}

PARAMS = ("p_min_cluster", "nb_units_min", "nb_units_max", "nb_units_max_variation_forward", "nb_units_max_variation_backward")


def formulas(param: str, mod: List[float], series: List[List[float]], units: int, nominal: float, period: int) -> List[List[float]]:
    n = len(series)

    def prev(t: int) -> int:
        start = (t // period) * period
        end = min(start + period, n)  # the last period may be incomplete
        return t - 1 if t > start else end - 1

    def pmin(t: int, s: int) -> float:
        return min(mod[t] * units * nominal, series[t][s])

    def most(t: int, s: int) -> float:
        return float(math.ceil(series[t][s] / nominal))

    f = {
        "p_min_cluster": pmin,
        "nb_units_min": lambda t, s: float(math.ceil(pmin(t, s) / nominal)),
        "nb_units_max": most,
        "nb_units_max_variation_forward": lambda t, s: max(0.0, most(prev(t), s) - most(t, s)),
        "nb_units_max_variation_backward": lambda t, s: max(0.0, most(t, s) - most(prev(t), s)),
    }[param]
    return [[f(t, s) for s in range(len(series[0]))] for t in range(n)]


def same(a: float, b: float) -> bool:
    return abs(a - b) <= 1e-9 * abs(b)  # readers of decimal numbers may differ in the last digit


class Cluster:
    def __init__(self, tmp: str, units: int, nominal: float, area: str = "fr", name: str = "gaz", study: Any = None):
        if study is None:
            study = new_study(tmp)
            study.create_area(area)
        self.study, self.units, self.nominal, self.area, self.name = study, units, nominal, area, name
        self.thermal = study.get_areas()[area].create_thermal_cluster(name, ThermalClusterProperties(unit_count=units, nominal_capacity=nominal))
        self.root = path_of(study)

    def write(self, mod: List[float], series: List[List[float]]) -> None:
        self.mod, self.series = mod, series
        base = self.root / "input" / "thermal"
        write_table(base / "series" / self.area / self.name / "series.txt", series)
        # the other columns of the modulation have nothing to do here
        write_table(base / "prepro" / self.area / self.name / "modulation.txt", [[0.125 + i % 3, 0.5 + i % 2, 7.0, m] for i, m in enumerate(mod)])

    def parameter(self, param: str, period: Any) -> Any:
        tdp = ThermalDataPreprocessing(self.thermal, self.root)
        return tdp.generate_component_parameter(param) if period is None else tdp.generate_component_parameter(param, period)

    def check(self, param: str, period: Any, res: Result) -> bool:
        p = self.parameter(param, period)
        want = formulas(param, self.mod, self.series, self.units, self.nominal, period or 168)
        got = read_table(str(p.value))
        res.trace()
        res.step(len(want) * len(want[0]))
        res.outcome((param, str(got)[:500]))
        case = {"parameter": param, "period": period, "units": self.units, "nominal": self.nominal, "modulation": self.mod[:10], "series": [r[:10] for r in self.series[:10]]}
        if (p.id, p.time_dependent, p.scenario_dependent) != (param, True, True):
            res.violation(f"declared as {p.id}, time {p.time_dependent}, scenario {p.scenario_dependent}", case)
            return False
        bad = [(t, s) for t in range(len(want)) for s in range(len(want[0])) if t >= len(got) or s >= len(got[t]) or not same(got[t][s], want[t][s])]
        if bad or len(got) != len(want) or any(len(r) != len(want[0]) for r in got):
            t, s = bad[0] if bad else (0, 0)
            res.violation(
                f"{param} has {len(got)} rows of {len(got[0]) if got else 0}; at timestep {t}, scenario {s}: {got[t][s] if t < len(got) and s < len(got[t]) else None} instead of {want[t][s]}",
                {**case, "column": [r[s] for r in self.series[:12]]},
            )
            return False
        if read_table(str(self.root / "input" / "thermal" / "series" / self.area / self.name / "series")) != self.series:
            res.violation("the availability series was overwritten", case)
            return False
        return True


def columns_worker(unit: Any, res: Result) -> None:
    """All sequences of availabilities of a length at once: one per scenario"""
    n, periods = unit
    values = (0.0, 3.0, 10.0)  # 0, 2 and 5 units of 2
    seqs = list(product(values, repeat=n))
    with tempfile.TemporaryDirectory() as tmp, time_limit(600):
        c = Cluster(tmp, 5, 2.0)
        c.write([0.25 * (t % 4) for t in range(n)], [[q[t] for q in seqs] for t in range(n)])
        for period in periods:
            for param in PARAMS:
                if not c.check(param, period, res):
                    return
            for q in seqs:
                res.state((q, period))
    res.sample({"sequences": n, "columns": len(seqs), "periods": periods})


def pairs_worker(unit: Any, res: Result) -> None:
    """All pairs (modulation, availability)"""
    units, nominal = unit
    mods = [0.0, 2.0**-20, 0.123046875, 0.125, 0.25, 0.5, 0.75, 1.0, 2.0]
    avail = [0.0, nominal / 2, nominal, 1.5 * nominal, 2 * nominal, units * nominal, units * nominal + 0.5]
    # one unit more is needed for however little, and a written value keeps all its digits
    avail += [nominal * k for e in (12, 20) for k in (2.0**-e, 1 + 2.0**-e, 2 - 2.0**-e)] + [123456789.125]
    rows = list(product(mods, avail))
    with tempfile.TemporaryDirectory() as tmp, time_limit(600):
        c = Cluster(tmp, units, nominal)
        for width in (1, 2, 3):
            c.write([m for m, _ in rows], [[avail[(avail.index(a) + k) % len(avail)] for k in range(width)] for _, a in rows])
            for param in PARAMS:
                if not c.check(param, 5, res):
                    return
            for r in rows:
                res.state((units, nominal, r, width))


def tables_worker(unit: Any, res: Result) -> None:
    """One-column tables, with integers as written by other tools"""
    with tempfile.TemporaryDirectory() as tmp, time_limit(600):
        c = Cluster(tmp, 3, 4.0)
        for table in unit:
            c.write([m for m, _ in table], [[a] for _, a in table])
            res.state(table)
            for param in PARAMS:
                if not c.check(param, 2, res):
                    return


def default_worker(unit: Any, res: Result) -> None:
    with tempfile.TemporaryDirectory() as tmp, time_limit(600):
        c = Cluster(tmp, 3, 4.0)
        for n in unit:
            c.write([0.25 * (t % 5) for t in range(n)], [[float(t * t % 13), float((t + 5) // 7 % 3 * 4)] for t in range(n)])
            res.state(("default", n))
            for param in PARAMS:
                if not c.check(param, None, res):
                    return


def independence_worker(unit: Any, res: Result) -> None:
    """Orders of computation, and clusters of the same name in two areas"""
    with tempfile.TemporaryDirectory() as tmp, time_limit(600):
        study = new_study(tmp)
        study.create_area("fr")
        study.create_area("it")
        cs = [Cluster(tmp, 2, 5.0, "fr", "gaz", study), Cluster(tmp, 4, 3.0, "it", "gaz", study), Cluster(tmp, 1, 8.0, "fr", "oil", study)]
        for i, c in enumerate(cs):
            c.write([0.5, 0.25 * i, 1.0], [[3.0 * i + t, 7.0 - 2 * t] for t in range(3)])
        for order in unit:
            res.state(tuple(order))
            made: List[Any] = []
            for p in order:
                for c in cs:
                    if not c.check(p, 2, res):
                        return
                    made.append((c, p, c.parameter(p, 2)))
            if len({str(m.value) for _, _, m in made}) != len(made):
                res.violation("two parameters share a series file", {"order": order})
                return
            for c, p, m in made:  # nothing overwritten by the later ones
                if read_table(str(m.value)) != formulas(p, c.mod, c.series, c.units, c.nominal, 2):
                    res.violation(f"the series of {p} of {c.area}/{c.name} was overwritten", {"order": order})
                    return


def unknown_worker(unit: Any, res: Result) -> None:
    with tempfile.TemporaryDirectory() as tmp:
        c = Cluster(tmp, 2, 5.0)
        c.write([1.0], [[1.0]])
        for p in ("", "p_min", "nb_units", "nb_units_max_variation", "series"):
            res.state(p)
            res.trace()
            try:
                c.parameter(p, 2)
            except Exception:
                continue
            res.violation(f"unknown parameter {p!r} accepted", {"parameter": p})


def explore(run: Run) -> None:
    top = 7 if run.thorough else 5
    run.parallel(columns_worker, [(n, [p]) for n in range(1, top + 1) for p in (*range(1, 8), None)])
    run.parallel(pairs_worker, [(1, 2.0), (2, 2.0), (3, 4.0), (8, 0.5), (100, 900.0)])
    cells = list(product((0.0, 0.5, 1.0), (0.0, 3.0, 4.0, 13.0)))
    tables = [t for n in range(1, (4 if run.thorough else 3) + 1) for t in product(cells, repeat=n)]
    run.parallel(tables_worker, chunks(tables, 240))
    run.parallel(default_worker, [[1, 2, 100, 167, 168, 169], [335, 336, 337, 400], [8760]])
    orders = [list(o) for o in permutations(PARAMS)]
    run.parallel(independence_worker, chunks(orders, 15))
    run.local(unknown_worker)
