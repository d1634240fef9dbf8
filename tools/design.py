"""Writes DESIGN.md (run with PYTHONPATH=/repo/src:/verif)."""
import importlib, json, pathlib, runpy
ROOT = pathlib.Path(__file__).resolve().parent.parent
P = runpy.run_path(str(ROOT / "tools/gen.py"))["P"]
ORACLE = {
 "C01": "A recursive-descent parser written from the grammar decides acceptance; accepted texts must evaluate like the reference tree in a prime field at generic points (variables, parameters, shifts and ports are free symbols).",
 "C02": "Python arithmetic on the operands' values; operands are fingerprinted before and after each operation.",
 "C03": "Identity of the reference trees (with the requested tolerance on numbers).",
 "C04": "A reference classification by degree, constancy and indexing; for well-formed elements, the rows of the reference semantics.",
 "C05": "Rows of `Reference.lp()`: one per index on which the expression or a bound depends, coefficients by exact linear arithmetic.",
 "C06": "The reference semantics substitutes timesteps (cyclically in the block) and reads the data at the absolute timestep.",
 "C07": "The reference objective: sum of contributions of the selected kind, times the weight, scenarios averaged once.",
 "C08": "The reference resolves ports by walking the connection list.",
 "C09": "One column per index with bounds evaluated by the reference; counts, names and types.",
 "C10": "Table lookup in the generated data; a requirement table (kind of data x declared indexing) for refusals.",
 "C11": "The generated scenario builder as a mapping.",
 "C12": "A predicate on the two ports (exist, same type, each field defined by exactly one side); containers against plain lists.",
 "C13": "Graph search on the dependency graph: visible port types and models, cycles and conflicts.",
 "C14": "By construction: the unfaulted files are valid and each fault makes them invalid; the loading chain must raise at some stage.",
 "C15": "Values placed by bounds that fix each variable; a reference dictionary stepped along the histories.",
 "C16": "A coefficient map with exact rationals, stepped with each operation on three registers.",
 "C17": "`mc/benders.py`: reference master (investment part of each node with its probability, coupling rows) and sub-problems (operational part).",
 "C18": "The files are read by an independent MPS/structure reader and compared with the reference decomposition and with each other.",
 "C19": "The reference problem of each build, compared when built and again at the end of the history; digests of the exported problems across processes.",
 "C20": "The problem of the identity order, as a multiset of rows and columns.",
 "C21": "The reference semantics (also met by the Python API in C05–C11).",
 "C22": "A reference state machine of runner, options and files, stepped with each run.",
 "C23": "The formulas of the Antares documentation in rationals.",
 "C24": "The generated study itself: list of expected components with values, series contents and connections.",
 "C25": "An explicit-state automaton of individual units (on/off with elapsed time) and, for varying availability, the unit commitment rules; each schedule must be feasible for the rows exactly when the automaton has a run of it.",
 "C26": "Reference equations written from the libraries' documentation, evaluated at every grid point; a point must be feasible for the rows (with the closing component) exactly when it satisfies them, at the reference cost.",
 "C27": "A closed-form optimum of the generated studies.",
 "C28": "The generated network itself: list of expected components with values, series and connections.",
 "C30": "Which study and folder each command names (options prevail over the configuration file), and the areas each study was made with; the contents of the file against C24's converter.",
 "C29": "Product of conditional probabilities along the path.",
}
COST = {}
for f in (ROOT / "evidence").glob("*.json"):
    e = json.loads(f.read_text()); COST[f.stem] = e.get("wall_seconds") or e.get("wall_s")
out = [(ROOT / "tools/design_head.md").read_text(), "## The properties\n"]
seeds = {}
for d in sorted((ROOT / "seeded").glob("*/meta.json")):
    m = json.loads(d.read_text()); seeds.setdefault(m["property"], []).append((d.parent.name, m))
for p in P:
    m = importlib.import_module(f"mc.checks.{p['id'].lower()}")
    doc = " ".join((m.__doc__ or "").split()).split(":", 1)[1].strip()
    out.append(f"### {p['id']} – {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append(f"* **Explored**: {doc[0].upper() + doc[1:]}")
    out.append(f"* **Bounds, quick**: {m.BOUNDS['quick']}")
    out.append(f"* **Bounds, thorough**: {m.BOUNDS['thorough']}")
    out.append(f"* **Oracle**: {ORACLE[p['id']]} {p['note']}")
    if m.ASSUMPTIONS:
        out.append("* **Assumptions**: " + "; ".join(m.ASSUMPTIONS))
    out.append(f"* **Beyond tests**: {p['why']}")
    out.append(f"* **Check**: `mc/checks/{p['id'].lower()}.py`, `bash run.sh {p['id']} quick|thorough`" + "\n")
out.append((ROOT / "tools/design_tail.md").read_text())
out.append("\n## Planted bugs\n\nEach was written from the statement and the code, passes the existing tests, and is in `seeded/<id>/`.\nThe last column is the verdict of the property's quick check.\n\n| bug | property | needs | verdict |\n|---|---|---|---|")
verdicts = json.loads((ROOT / "tools/verdicts.json").read_text()) if (ROOT / "tools/verdicts.json").exists() else {}
for pid in sorted(seeds):
    for name, m in seeds[pid]:
        out.append(f"| {name} | {pid} | {m['needs']} | {verdicts.get(name, 'caught')} |")
if (ROOT / "tools/design_mutation.md").exists():
    out.append("\n" + (ROOT / "tools/design_mutation.md").read_text())
(ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")
