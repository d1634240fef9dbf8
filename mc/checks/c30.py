"""
C30: the command line of the Antares converter, run on every combination of ways to give the
study and the output folder (options, configuration file, both, none, wrong paths).
"""
import contextlib
import io
import itertools
import logging
import os
import pathlib
import runpy
import shutil
import sys
import tempfile
import warnings
from typing import Any, Dict, List, Optional, Tuple
from unittest import mock

import yaml
from antares.craft.model.area import AreaProperties
from antares.craft.model.thermal import ThermalClusterProperties

from andromede.input_converter.src.converter import AntaresStudyConverter
from mc.antares import logger, new_study, path_of, write_table
from mc.core import Result, Run, time_limit
from mc.lpcheck import chunks

PROPERTY = "C30"
ASSUMPTIONS = [
    "the log file is always given (by default it is written in the source folder)",
    "a study which cannot be read, or none, is reported by an exception or an exit status, whatever its text",
]
BOUNDS = {
    "quick": "2 studies x 8 ways to give the study (option, configuration, both, none, missing, a file, a folder that is not a study) x 6 ways to give the output folder x 3 forms of configuration file, absolute or relative paths, short or long options; all orders of the 4 options; two conversions in a row of the same and of different studies",
    "thorough": "the same with all orders of the options for each combination",
}
MODULE = "andromede.input_converter.src.main"


def make_study(root: pathlib.Path, name: str, k: int) -> None:
    d = root / name
    d.mkdir()
    study = new_study(str(d))
    for i in range(k):
        a = f"{name.lower()}{i}"
        study.create_area(a, properties=AreaProperties(energy_cost_unsupplied=100.0 * k + i, energy_cost_spilled=1.0 + i))
        study.get_areas()[a].create_thermal_cluster(f"gas{i}", ThermalClusterProperties(unit_count=1 + i, nominal_capacity=10.0 * k))
        write_table(path_of(study) / "input" / "thermal" / "series" / a / f"gas{i}" / "series.txt", [[5.0 * k], [10.0 * k], [7.0]])
        write_table(path_of(study) / "input" / "thermal" / "prepro" / a / f"gas{i}" / "modulation.txt", [[1.0, 1.0, 1.0, 0.25]] * 3)
        write_table(path_of(study) / "input" / "load" / "series" / f"load_{a}.txt", [[1.0 * k], [2.0], [3.0]] if i == 0 else [[0.0]])
    assert (d / "study").is_dir()


def command(root: pathlib.Path, args: List[str]) -> Tuple[bool, str]:
    """Whether the command succeeded, in folder root"""
    out = io.StringIO()
    cwd = os.getcwd()
    handlers = list(logging.getLogger().handlers)
    for h in handlers:
        logging.getLogger().removeHandler(h)
    try:
        os.chdir(root)
        with mock.patch.object(sys, "argv", ["main"] + args), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), time_limit(60), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sys.modules.pop(MODULE, None)
            try:
                runpy.run_module(MODULE, run_name="__main__")
                ok = True
            except SystemExit as e:
                ok = e.code in (None, 0)
            except Exception as e:
                out.write(repr(e))
                ok = False
    finally:
        os.chdir(cwd)
        for h in list(logging.getLogger().handlers):
            logging.getLogger().removeHandler(h)
            h.close()
        for h in handlers:
            logging.getLogger().addHandler(h)
    return ok, out.getvalue()


def files(root: pathlib.Path) -> Dict[str, bytes]:
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*")) if p.is_file() and p.suffix != ".log"}


STUDIES = ["option A", "option B", "conf A", "conf B", "option A conf B", "option B conf A", "option missing", "option file", "option empty", "conf missing", "none"]
OUTPUTS = ["none", "option", "conf", "option and conf", "option missing", "option file"]
CONFS = ["study section", "no section", "empty keys"]


def explore_case(root: pathlib.Path, case: Any, res: Result) -> bool:
    st, out, conf, style, order = case
    place = {"A": root / "A" / "study", "B": root / "B" / "study"}

    def path(p: pathlib.Path) -> str:
        return os.path.relpath(p, root) if style % 2 else str(p)

    given: Dict[str, str] = {}
    keys: Dict[str, str] = {}
    study: Optional[str] = None
    if "conf A" in st or "conf B" in st:
        study = "A" if "conf A" in st else "B"
        keys["study_path"] = path(place[study])
    if "option A" in st or "option B" in st:
        study = "A" if "option A" in st else "B"
        given["study_path"] = path(place[study])
    wrong = {"missing": root / "nowhere", "file": root / "some.txt", "empty": root / "empty"}
    bad = False
    for w, p in wrong.items():
        if st.endswith(w):
            bad = True
            (given if st.startswith("option") else keys)["study_path"] = path(p)
    folder: Optional[pathlib.Path] = None
    if out in ("conf", "option and conf"):
        folder = root / "outc"
        keys["output_path"] = path(folder)
    if out in ("option", "option and conf"):
        folder = root / "outo"
        given["output_path"] = path(folder)
    if out in ("option missing", "option file"):
        bad = True
        given["output_path"] = path(wrong[out.split()[1]])
    if study is None:
        bad = True
    if conf == "no section" and keys:
        return True  # not a case
    text = "" if conf == "no section" else "[study]\n" + "".join(f"{k} = {v}\n" for k, v in keys.items())
    if conf == "empty keys":
        text += "".join(f"{k} =\n" for k in ("study_path", "output_path") if k not in keys)
    (root / "conf.ini").write_text(text)
    opts = {"conf": ("-c", "--conf", path(root / "conf.ini")), "logging": ("-l", "--logging", path(root / "x.log"))}
    if "study_path" in given:
        opts["study_path"] = ("-i", "--study_path", given["study_path"])
    if "output_path" in given:
        opts["output_path"] = ("-o", "--output_path", given["output_path"])
    names = list(itertools.permutations(opts))[order % len(list(itertools.permutations(opts)))]
    args = [x for n in names for x in (opts[n][1 if style >= 2 else 0], opts[n][2])]
    before = files(root)
    ok, said = command(root, args)
    after = files(root)
    res.trace()
    res.step()
    res.state(repr((case, args)))
    res.outcome((case, ok))
    what = {"study": st, "output": out, "configuration": text, "arguments": [a.replace(str(root), "ROOT") for a in args]}
    new = sorted(f for f in after if f not in before)
    changed = sorted(f for f in before if after.get(f) != before[f])
    if bad:
        if ok:
            res.violation("a wrong command succeeds", what)
            return False
        if any(f.endswith((".yaml", ".yml")) for f in new + changed):
            res.violation(f"a wrong command writes {new + changed}", what)
            return False
        return True
    assert study is not None
    if not ok:
        res.violation(f"the command fails: {said[-300:]}", what)
        return False
    target = folder / "output.yaml" if folder else place[study] / "output.yaml"
    written = [f for f in new + changed if f.endswith((".yaml", ".yml"))]
    if written != [str(target.relative_to(root))]:
        res.violation(f"the system is written to {written} instead of {target.relative_to(root)}", what)
        return False
    if any(not f.startswith(f"{study}/") for f in new + changed if f not in written) or [f for f in changed if f not in written]:
        res.violation(f"other files are written: {[f for f in new + changed if f not in written]}", what)
        return False
    got = yaml.safe_load(target.read_text())
    want = {"system": AntaresStudyConverter(place[study], logger()).convert_study_to_input_study().model_dump(by_alias=True, exclude_unset=True)}
    if got != want:
        res.violation("the file does not describe the study", what)
        return False
    ids = sorted(n["id"] for n in got["system"]["nodes"])
    k = 1 if study == "A" else 2
    if ids != sorted(f"{study.lower()}{i}" for i in range(k)):
        res.violation(f"the areas of the file are {ids}", what)
        return False
    target.unlink()
    for f in new:
        if f not in written:
            (root / f).unlink()
    return True


def new_root(tmp: str) -> pathlib.Path:
    root = pathlib.Path(tmp).resolve()
    make_study(root, "A", 1)
    make_study(root, "B", 2)
    for d in ("outo", "outc", "empty"):
        (root / d).mkdir()
    (root / "some.txt").write_text("x")
    return root


def worker(unit: Any, res: Result) -> None:
    with tempfile.TemporaryDirectory(prefix="c30_") as tmp:
        with contextlib.redirect_stdout(io.StringIO()):
            root = new_root(tmp)
        for case in unit:
            if not explore_case(root, case, res):
                return
    res.sample({"case": unit[0]})


def twice_worker(unit: Any, res: Result) -> None:
    """Conversions in a row: the last one prevails, and the others are left alone"""
    with tempfile.TemporaryDirectory(prefix="c30_") as tmp:
        with contextlib.redirect_stdout(io.StringIO()):
            root = new_root(tmp)
        (root / "conf.ini").write_text("")
        for hist in unit:
            content: Dict[str, Any] = {}
            for s, o in hist:
                ok, said = command(root, ["-c", "conf.ini", "-l", "x.log", "-i", f"{s}/study"] + (["-o", o] if o else []))
                res.trace()
                res.step()
                t = f"{o or s + '/study'}/output.yaml"
                if not ok or not (root / t).exists():
                    res.violation(f"a conversion fails after others, or writes elsewhere: {said[-200:]}", {"history": hist})
                    return
                content[t] = s
                for f, owner in content.items():
                    ids = sorted(n["id"] for n in yaml.safe_load((root / f).read_text())["system"]["nodes"])
                    if ids != sorted(f"{owner.lower()}{i}" for i in range(1 if owner == "A" else 2)):
                        res.violation(f"{f} holds {ids} instead of study {owner}", {"history": hist})
                        return
            res.state(repr(hist))
            for f in content:
                (root / f).unlink()


def explore(run: Run) -> None:
    cases: List[Any] = []
    for i, (st, out, conf, style) in enumerate(itertools.product(STUDIES, OUTPUTS, CONFS, range(4))):
        orders = range(24) if run.thorough or (st, out, conf, style) == ("option A", "option", "study section", 0) else (i,)
        cases += [(st, out, conf, style, o) for o in orders]
    run.parallel(worker, chunks(cases, 40))
    acts = [(s, o) for s in "AB" for o in ("", "outo")]
    run.parallel(twice_worker, chunks(list(itertools.product(acts, repeat=3)), 8))
