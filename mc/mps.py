"""Independent reader of MPS files (free format), written from the format's definition."""
import math
from typing import Any, Dict, List, Tuple

from mc.spec import LP

INF = math.inf


def read_mps(text: str) -> Tuple[List[str], LP]:
    """Columns in the order of the file, and the linear program by column names"""
    section = ""
    rows: Dict[str, str] = {}
    objective = ""
    columns: List[str] = []
    coefs: Dict[str, Dict[str, float]] = {}
    rhs: Dict[str, float] = {}
    ranges: Dict[str, float] = {}
    integer: Dict[str, bool] = {}
    lb: Dict[str, float] = {}
    ub: Dict[str, float] = {}
    obj: Dict[str, float] = {}
    marker = False
    maximize = False
    for line in text.splitlines():
        if not line.strip() or line.startswith("*"):
            continue
        f = line.split()
        if not line[0].isspace():
            section = f[0]
            if section == "OBJSENSE" and len(f) > 1:
                maximize = f[1].startswith("MAX")
            continue
        if section == "OBJSENSE":
            maximize = f[0].startswith("MAX")
        elif section == "ROWS":
            if f[0] == "N" and not objective:
                objective = f[1]
            else:
                assert f[1] not in rows, f"row {f[1]} twice"
                rows[f[1]] = f[0]
                coefs[f[1]] = {}
        elif section == "COLUMNS":
            if f[1] == "'MARKER'":
                marker = f[2] == "'INTORG'"
                continue
            c = f[0]
            if not columns or columns[-1] != c:
                assert c not in columns, f"column {c} not contiguous"
                columns.append(c)
                integer[c] = marker
            for r, v in zip(f[1::2], f[2::2]):
                if r == objective:
                    obj[c] = float(v)
                else:
                    coefs[r][c] = float(v)
        elif section == "RHS":
            for r, v in zip(f[1::2], f[2::2]):
                rhs[r] = float(v)
        elif section == "RANGES":
            for r, v in zip(f[1::2], f[2::2]):
                ranges[r] = float(v)
        elif section == "BOUNDS":
            kind, c = f[0], f[2]
            v = float(f[3]) if len(f) > 3 else 0.0
            if c not in integer:  # column without coefficients
                integer[c] = kind in ("BV", "LI", "UI")
            if kind in ("UP", "UI"):
                ub[c] = v
            elif kind in ("LO", "LI"):
                lb[c] = v
            elif kind == "FX":
                lb[c] = ub[c] = v
            elif kind == "FR":
                lb[c], ub[c] = -INF, INF
            elif kind == "MI":
                lb[c] = -INF
            elif kind == "PL":
                ub[c] = INF
            elif kind == "BV":
                lb[c], ub[c] = 0.0, 1.0
                integer[c] = True
            else:
                raise ValueError(line)
    lp = LP()
    for c in integer:
        lp.vars[c] = (lb.get(c, 0.0), ub.get(c, INF), integer[c])
    for r, kind in rows.items():
        b = rhs.get(r, 0.0)
        lo, up = {"E": (b, b), "L": (-INF, b), "G": (b, INF), "N": (-INF, INF)}[kind]
        if r in ranges:
            g = ranges[r]
            if kind == "L":
                lo = b - abs(g)
            elif kind == "G":
                up = b + abs(g)
            elif kind == "E":
                lo, up = (b, b + g) if g > 0 else (b + g, b)
        lp.rows.append((coefs[r], lo, up))
    lp.obj = {k: (-v if maximize else v) for k, v in obj.items()}
    lp.obj_const = -rhs.get(objective, 0.0)
    if maximize:
        lp.obj_const = float("nan")
    return columns, lp
