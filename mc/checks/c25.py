"""
C25: the shipped thermal model. All commitment schedules of small clusters over short cyclic
horizons are classified by the rows built from the shipped library, and by reference models:
an explicit-state automaton of individual units (constant availability) and the unit
commitment rules (varying availability).
"""
from itertools import combinations_with_replacement, product
from typing import Any, Dict, List, Set, Tuple

import numpy as np

from mc.core import Result, Run, time_limit
from mc.libs import Polyhedron, problem

PROPERTY = "C25"
ASSUMPTIONS = ["minimum durations of at least one timestep and at most the horizon (a block shorter than a duration has no cyclic meaning)"]
BOUNDS = {
    "quick": "automaton of units: all schedules (running, starting and stopping units) of 1..3 units over 1..4 timesteps (2 units over 5), all durations 1..3; varying availability: all availabilities of <=2 units over 3 timesteps, minimum counts 0..1, durations 1..3, all schedules and all numbers of failing units; power: all running counts and powers of a grid over 2 timesteps and 2 scenarios",
    "thorough": "the same with 3 units over 5 timesteps, 2 over 6, and varying availability over 4 timesteps",
}

VARS = ("nb_units_on", "nb_starting", "nb_stopping", "nb_failing", "generation")


def cluster(T: int, S: int = 1, **kw: Any) -> Polyhedron:
    p: Dict[str, Any] = dict(
        p_min_cluster=0, p_max_cluster=1000, p_min_unit=0, p_max_unit=1, generation_cost=3, startup_cost=5, fixed_cost=7, d_min_up=1, d_min_down=1,
        nb_units_min=0, nb_units_max=1, nb_units_max_variation_forward=0, nb_units_max_variation_backward=0,
    )
    p.update(kw)
    return Polyhedron(problem("antares-historic", [("th", "thermal", p)], [], T, S))


def points(poly: Polyhedron, T: int, cols: Dict[str, Any], n: int, s: int = 0) -> Any:
    """cols: variable -> array (n, T)"""
    P = np.zeros((n, len(poly.keys)))
    for v, arr in cols.items():
        for t in range(T):
            P[:, poly.index[("th", v, t, s)]] = arr[:, t]
    return P


def grid(values: Any, T: int) -> Any:
    return np.array(list(product(values, repeat=T)), dtype=float)


# -- constant availability: automaton of units --------------------------------------
def automaton(N: int, up: int, down: int, T: int) -> Set[Any]:
    """
    All the cyclic schedules ((on, starts, stops) per timestep) of N units: a state is the
    multiset of (mode, age), ages capped at the minimum duration; a unit may change its mode
    once its age has reached it.
    """
    kinds = [("on", a) for a in range(1, up + 1)] + [("off", a) for a in range(1, down + 1)]
    states = list(combinations_with_replacement(range(len(kinds)), N))

    def moves(st: Any) -> Set[Any]:
        out = set()
        opts = []
        for k in st:
            mode, age = kinds[k]
            cap = up if mode == "on" else down
            o = [(kinds.index((mode, min(age + 1, cap))), 0, 0)]
            if age >= cap:
                o.append((kinds.index(("off", 1)), 0, 1) if mode == "on" else (kinds.index(("on", 1)), 1, 0))
            opts.append(o)
        for ch in product(*opts):
            nxt = tuple(sorted(c[0] for c in ch))
            on = sum(kinds[c[0]][0] == "on" for c in ch)
            out.add((nxt, (on, sum(c[1] for c in ch), sum(c[2] for c in ch))))
        return out

    succ = {s: moves(s) for s in states}
    found = set()
    for s0 in states:
        frontier: Dict[Any, Set[Any]] = {s0: {()}}
        for _ in range(T):
            nxt: Dict[Any, Set[Any]] = {}
            for s, labels in frontier.items():
                for s2, l in succ[s]:
                    nxt.setdefault(s2, set()).update(lab + (l,) for lab in labels)
            frontier = nxt
        found |= frontier.get(s0, set())
    return found


def automaton_worker(unit: Any, res: Result) -> None:
    N, up, down, T, free = unit
    want = automaton(N, up, down, T)
    with time_limit(300):
        poly = cluster(T, d_min_up=up, d_min_down=down, nb_units_max=N)
    for v in VARS[:3]:
        for t in range(T):
            if ("th", v, t, 0) not in poly.integer:
                res.violation(f"{v} is not integer", {"variable": v})
                return
    on, st = grid(range(N + 1), T), grid(range(N + 1), T)
    i, j = np.meshgrid(np.arange(len(on)), np.arange(len(st)), indexing="ij")
    ON, ST = on[i.ravel()], st[j.ravel()]
    if free:
        sp = grid(range(N + 1), T)
        a, b = np.meshgrid(np.arange(len(ON)), np.arange(len(sp)), indexing="ij")
        ON, ST, SP = ON[a.ravel()], ST[a.ravel()], sp[b.ravel()]
    else:
        SP = np.roll(ON, 1, axis=1) + ST - ON
        keep = (SP >= 0).all(axis=1)
        ON, ST, SP = ON[keep], ST[keep], SP[keep]
    ok = poly.feasible(points(poly, T, {"nb_units_on": ON, "nb_starting": ST, "nb_stopping": SP}, len(ON)))
    got = {tuple(zip(map(int, o), map(int, s), map(int, p))) for o, s, p in zip(ON[ok], ST[ok], SP[ok])}
    res.trace(len(ON))
    res.step(len(ON) * T)
    for g in want:
        res.state((N, up, down, T, g))
    res.outcome((N, up, down, T, len(got)))
    case = {"units": N, "min up": up, "min down": down, "timesteps": T}
    for extra in sorted(got - want)[:1]:
        res.violation(f"accepts the schedule (on, starts, stops) {extra}, which no set of units can follow", case)
    for missing in sorted(want - got)[:1]:
        res.violation(f"refuses the schedule (on, starts, stops) {missing}, which units can follow", case)
    res.sample({**case, "schedules": len(want), "candidates": len(ON)})


# -- varying availability -----------------------------------------------------------
def varying_worker(unit: Any, res: Result) -> None:
    M, nmin, up, down = unit
    T = len(M)
    top = max(M)
    fwd = [max(0, M[t - 1] - M[t]) for t in range(T)]
    bwd = [max(0, M[t] - M[t - 1]) for t in range(T)]
    mn = [min(nmin, m) for m in M]
    tb = lambda x: [[float(v)] for v in x]
    with time_limit(300):
        poly = cluster(T, d_min_up=up, d_min_down=down, nb_units_max=tb(M), nb_units_min=tb(mn), nb_units_max_variation_forward=tb(fwd), nb_units_max_variation_backward=tb(bwd))
    vals = range(0, top + 2)
    on, st, fl = grid(vals, T), grid(range(top + 1), T), grid(range(max(fwd) + 2), T)
    i, j, k = np.meshgrid(np.arange(len(on)), np.arange(len(st)), np.arange(len(fl)), indexing="ij")
    ON, ST, FL = on[i.ravel()], st[j.ravel()], fl[k.ravel()]
    SP = np.roll(ON, 1, axis=1) + ST - ON
    keep = (SP >= 0).all(axis=1)
    ON, ST, FL, SP = ON[keep], ST[keep], FL[keep], SP[keep]
    got = poly.feasible(points(poly, T, {"nb_units_on": ON, "nb_starting": ST, "nb_stopping": SP, "nb_failing": FL}, len(ON)))
    want = np.ones(len(ON), dtype=bool)
    for t in range(T):
        want &= (ON[:, t] >= mn[t]) & (ON[:, t] <= M[t]) & (ST[:, t] <= M[t]) & (FL[:, t] <= SP[:, t]) & (FL[:, t] <= fwd[t])
        back = [(t - d) % T for d in range(up)]
        # units started recently and not failed since are still on
        want &= sum(ST[:, b] - FL[:, b] for b in back) <= ON[:, t]
        back = [(t - d) % T for d in range(down)]
        # units stopped recently are among the units off that were already there
        want &= sum(SP[:, b] for b in back) <= M[(t - down) % T] - ON[:, t] + sum(bwd[b] for b in back)
    res.trace(len(ON))
    res.step(len(ON) * T)
    res.state((M, nmin, up, down))
    res.outcome((M, nmin, up, down, int(got.sum())))
    bad = np.nonzero(got != want)[0]
    if len(bad):
        b = bad[0]
        res.violation(
            f"{'accepts' if got[b] else 'refuses'} on={ON[b].tolist()} starts={ST[b].tolist()} stops={SP[b].tolist()} failing={FL[b].tolist()}",
            {"availability": M, "minimum": mn, "min up": up, "min down": down},
        )


# -- power --------------------------------------------------------------------------
def power_worker(unit: Any, res: Result) -> None:
    pmin_u, pmax_u, lo, hi = unit
    T, S = 2, 2
    N = 2
    plo = [[lo[(t + s) % len(lo)] for s in range(S)] for t in range(T)]
    phi = [[hi[(t + 2 * s) % len(hi)] for s in range(S)] for t in range(T)]
    if any(plo[t][s] > phi[t][s] for t in range(T) for s in range(S)):
        return
    with time_limit(300):
        poly = cluster(T, S, p_min_unit=pmin_u, p_max_unit=pmax_u, p_min_cluster=plo, p_max_cluster=phi, nb_units_max=N)
    gens = [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0]
    on, g = grid(range(N + 1), T), grid(gens, T)
    i, j = np.meshgrid(np.arange(len(on)), np.arange(len(g)), indexing="ij")
    ON, G = on[i.ravel()], g[j.ravel()]
    d = ON - np.roll(ON, 1, axis=1)
    cols = {"nb_units_on": ON, "nb_starting": np.maximum(d, 0), "nb_stopping": np.maximum(-d, 0), "generation": G}
    # the other scenario is held at a feasible point, when there is one
    base: Any = {}
    for s in range(S):
        for k in range(N + 1):
            rng = [(max(plo[t][s], k * pmin_u), min(phi[t][s], k * pmax_u)) for t in range(T)]
            if all(a <= b for a, b in rng):
                base[s] = (k, [a for a, _ in rng])
    for s in range(S):
        o = 1 - s
        if o not in base:
            continue
        P = points(poly, T, cols, len(ON), s)
        for t in range(T):
            P[:, poly.index[("th", "nb_units_on", t, o)]] = base[o][0]
            P[:, poly.index[("th", "generation", t, o)]] = base[o][1][t]
        got = poly.feasible(P)
        want = np.ones(len(ON), dtype=bool)
        for t in range(T):
            want &= (G[:, t] >= plo[t][s]) & (G[:, t] <= phi[t][s]) & (G[:, t] >= ON[:, t] * pmin_u) & (G[:, t] <= ON[:, t] * pmax_u)
        # durations of one timestep: stopping needs a unit to be off afterwards, always true here
        res.trace(len(ON))
        res.step(len(ON) * T)
        res.state((unit, s))
        res.outcome((unit, s, int(got.sum())))
        bad = np.nonzero(got != want)[0]
        if len(bad):
            b = bad[0]
            res.violation(f"{'accepts' if got[b] else 'refuses'} powers {G[b].tolist()} with {ON[b].tolist()} running units", {"unit power": (pmin_u, pmax_u), "cluster": (plo, phi), "scenario": s})
            return


def cost_worker(unit: Any, res: Result) -> None:
    for gc, sc, fc in product((0.0, 3.0, 8.0), repeat=3):
        for T, S in ((1, 1), (2, 1), (2, 2), (3, 4)):
            poly = cluster(T, S, generation_cost=gc, startup_cost=sc, fixed_cost=fc)
            res.state((gc, sc, fc, T, S))
            res.trace()
            want = {}
            for v, c in (("generation", gc), ("nb_starting", sc), ("nb_units_on", fc)):
                for t, s in product(range(T), range(S)):
                    if c:
                        want[("th", v, t, s)] = c / S
            res.step(len(want))
            if poly.lp.obj != want or poly.lp.obj_const:
                res.violation(f"costs {poly.lp.obj} instead of {want}", {"costs": (gc, sc, fc), "T": T, "S": S})
                return


def explore(run: Run) -> None:
    sizes = [(N, T) for N in (1, 2, 3) for T in (1, 2, 3, 4)] + [(2, 5)]
    if run.thorough:
        sizes += [(3, 5), (2, 6), (4, 4)]
    units = [(N, u, d, T, (N + 1) ** (3 * T) <= 600000) for N, T in sizes for u in (1, 2, 3) for d in (1, 2, 3) if u <= T and d <= T]
    run.parallel(automaton_worker, sorted(units, key=lambda x: -x[3]))
    H = (3, 4) if run.thorough else (3,)
    run.parallel(varying_worker, [(M, m, u, d) for T in H for M in product(range(3), repeat=T) for m in (0, 1) for u in (1, 2, 3) for d in (1, 2, 3)])
    lows = [(0.0, 0.0), (0.0, 1.0), (1.0, 2.0)]
    highs = [(0.0, 1.0), (2.0, 5.0), (5.0, 3.0), (4.0, 4.0)]
    run.parallel(power_worker, [(a, b, l, h) for a in (0.0, 0.5, 1.0, 2.0) for b in (1.0, 2.0, 2.5) if a <= b for l in lows for h in highs])
    run.local(cost_worker)
