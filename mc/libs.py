"""Problems made with the model libraries shipped in /repo/src/andromede/libs."""
import io
from typing import Any, Dict, List, Optional, Tuple

import numpy as np
import pandas as pd

from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
from andromede.simulation import TimeBlock, build_problem
from andromede.study import TimeIndex, ConstantData, DataBase, Network, Node, PortRef, TimeScenarioSeriesData, TimeSeriesData, create_component
from mc.core import REPO
from mc.impl import read_lp

FILES = {
    "antares-historic": "antares_historic/antares_historic.yml",
    "andromede-v1-models": "reference_models/andromede_v1_models.yml",
    "pypsa_models": "pypsa_models/pypsa_models.yml",
}
_LIBS: Dict[str, Any] = {}


def library(lib: str) -> Any:
    if lib not in _LIBS:
        text = (REPO / "src/andromede/libs" / FILES[lib]).read_text()
        _LIBS[lib] = resolve_library([parse_yaml_library(io.StringIO(text))])[lib]
    return _LIBS[lib]


def get_model(lib: str, mid: str) -> Any:
    models = library(lib).models
    for k in (mid, f"{lib}.{mid}"):
        if k in models:
            return models[k]
    raise KeyError(mid)


def data_of(v: Any) -> Any:
    if not isinstance(v, list):
        return ConstantData(float(v))
    if isinstance(v[0], list):
        return TimeScenarioSeriesData(pd.DataFrame(v))
    return TimeSeriesData({TimeIndex(t): float(x) for t, x in enumerate(v)})


def problem(
    lib: str,
    comps: List[Tuple[str, str, Dict[str, Any]]],
    connections: List[Tuple[str, str, str, str]],
    T: int,
    S: int,
) -> Any:
    """comps: (id, model or library:model, {parameter: number, series [t] or table [t][s]})"""
    net, db = Network("test"), DataBase()
    objs: Dict[str, Any] = {}
    for cid, mid, params in comps:
        l, m = mid.split(":") if ":" in mid else (lib, mid)
        objs[cid] = create_component(get_model(l, m), cid)
        net.add_component(objs[cid])
        for p, v in params.items():
            db.add_data(cid, p, data_of(v))
    for c1, p1, c2, p2 in connections:
        net.connect(PortRef(objs[c1], p1), PortRef(objs[c2], p2))
    return build_problem(net, db, TimeBlock(1, list(range(T))), S, solver_id="GLOP")


class Polyhedron:
    """The feasible set held by the solver, evaluated on arrays of points"""

    def __init__(self, prob: Any):
        lp = read_lp(prob)
        self.lp = lp
        self.keys = list(lp.vars)
        self.index = {k: i for i, k in enumerate(self.keys)}
        n = len(self.keys)
        self.lb = np.array([lp.vars[k][0] for k in self.keys])
        self.ub = np.array([lp.vars[k][1] for k in self.keys])
        self.integer = {k for k in self.keys if lp.vars[k][2]}
        self.A = np.zeros((len(lp.rows), n))
        self.rlb = np.zeros(len(lp.rows))
        self.rub = np.zeros(len(lp.rows))
        for r, (coefs, lo, hi) in enumerate(lp.rows):
            for k, a in coefs.items():
                self.A[r, self.index[k]] += a
            self.rlb[r], self.rub[r] = lo, hi

    def feasible(self, points: Any, tol: float = 1e-9) -> Any:
        """points: (n, number of variables)"""
        ok = ((points >= self.lb - tol) & (points <= self.ub + tol)).all(axis=1)
        if len(self.rlb):
            v = points @ self.A.T
            ok &= ((v >= self.rlb - tol) & (v <= self.rub + tol)).all(axis=1)
        return ok
