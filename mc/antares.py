"""Antares studies in scratch directories (with antares_craft), for C23 and C24."""
import contextlib
import io
import logging
import pathlib
from typing import Any, Dict, List, Optional, Sequence

import pandas as pd
from antares.craft.model.study import create_study_local


def new_study(tmp: str) -> Any:
    with contextlib.redirect_stdout(io.StringIO()):
        return create_study_local("study", "880", pathlib.Path(tmp))


def path_of(study: Any) -> pathlib.Path:
    return pathlib.Path(study.service.config.study_path)


def write_table(path: pathlib.Path, rows: Sequence[Sequence[float]]) -> None:
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text("".join("\t".join(repr(v) for v in r) + "\n" for r in rows))


def read_table(path: str) -> List[List[float]]:
    """Series file given by a value without its suffix"""
    text = pathlib.Path(path + ".txt").read_text()
    return [[float(x) for x in line.split("\t")] for line in text.splitlines() if line.strip()]


def logger() -> Any:
    log = logging.getLogger("mc-null")
    log.addHandler(logging.NullHandler())
    log.propagate = False
    return log
