"""
C01: parsing. Every token string up to the bound, over the complete token alphabet (and
longer ones over sub-alphabets), every character string up to the bound, and every
sentence up to a derivation bound: the implementation accepts exactly the grammar's texts
and gives them the grammar's meaning (that of a reference recursive-descent parser).
"""
import contextlib
import io
import os
import sys
from itertools import permutations, product
from typing import Any, Iterator, List

from andromede.expression.parsing.parse_expression import (
    AntaresParseException,
    ModelIdentifiers,
    parse_expression,
)
from mc import names as look_alike
from mc.core import Result, Run, time_limit
from mc.nodes import meaning, tree
from mc.refparser import Reject, parse

PROPERTY = "C01"
ASSUMPTIONS = ["meaning of expressions compared at generic points of a prime field (collision probability < 2**-50)"]
BOUNDS = {
    "quick": "all strings of <=4 tokens over 24 tokens; <=6 over arithmetic and indexing sub-alphabets, bodies of shifts <=5 tokens and of windows and indexes <=3; all character strings <=4 over 14 characters; two spacings; 299 texts parsed in turn for 5 declarations of their names, in every order of two; long texts (chains of 3..60 operands, nesting to 22, shifts to 8760, names of functions with 7 spellings, 20 ways to write a number, 7 ways to space), look-alike names",
    "thorough": "all strings of <=5 tokens over 19 tokens, <=7 over the sub-alphabets, shift bodies <=6, characters <=5",
}
VARIABLES = {"x", "y", "expect", "sum1"}
PARAMETERS = {"p", "tt", "T"}
IDS = ModelIdentifiers(VARIABLES, PARAMETERS)

FULL = ["2", "1.5", "x", "p", "u", "t", "sum", "sum_connections", "expec", "..", ".", ",", "(", ")",
        "[", "]", "+", "-", "*", "/", "=", "<=", ">=", "$"]
MID = ["2", "x", "p", "t", "sum", "sum_connections", "expec", "..", ".", ",", "(", ")", "[", "]", "+", "-", "*", "/", "<="]
ARITH = ["x", "p", "+", "-", "*", "/", "="]
PAREN = ["x", "2", "-", "*", "(", ")", ">="]
INDEX = ["x", "t", "2", "[", "]", "(", ")", "-"]
SHIFT = ["2", "p", "3", "+", "-", "*", "/", "(", ")"]
CHARS = ["1", "0", ".", "t", "x", "p", "=", "<", ">", " ", "\n", "_", "&", "é"]

TEMPLATES = [
    "x[t{}]", "(x + p)[t{}]", "sum(t{} .. t, x)", "sum(t .. t{}, x - 1)", "x[{}]", "(x)[{}]",
]
WRAP = ["expec({})", "sum({})", "sum(t .. t + 1, {})", "({})", "-{}", "2 - {}", "p / {}", "({})[t - 1]", "({})[3]", "sum_connections({})", "{} <= 1", "{} = {}"]
ATOMS = ["x", "p", "2", "q.f", "sum_connections(q.f)", "x[t+1]", "x[2]", "(x+p)[t-p]", "sum(x)", "sum(t-1..t+p, x)", "expec(x)", "-x", "x + p", "x * p", "x - p - 1", "p / 2 / x", "x <= p", "u", "t", "q.t", "sum", "x y", "expec x"]


def check(text: str, res: Result, ids: ModelIdentifiers = IDS) -> None:
    try:
        expected = parse(text, ids.variables, ids.parameters)
    except Reject:
        expected = None
    res.step()
    try:
        actual = parse_expression(text, ids)
    except AntaresParseException:
        res.outcome("reject")
        if expected is not None:
            res.violation(f"valid text refused: {text!r} means {expected}", text)
        return
    except RecursionError:
        raise
    except Exception as e:
        res.violation(f"{text!r}: not a parse error but {type(e).__name__}: {e}", text)
        return
    res.trace()
    if expected is None:
        res.violation(f"text outside the grammar accepted: {text!r} as {actual!r}", text)
        return
    if actual is None:
        res.violation(f"{text!r}: nothing returned", text)
        return
    m = meaning(tree(actual))
    res.outcome(m)
    if m != meaning(expected):
        res.violation(f"{text!r} parsed as {tree(actual)}, means {expected}", text)


@contextlib.contextmanager
def silent() -> Iterator[None]:
    """The generated lexer and parser print their errors"""
    with open(os.devnull, "w") as null, contextlib.redirect_stderr(null), contextlib.redirect_stdout(null):
        yield


def worker(unit: Any, res: Result) -> None:
    kind, alphabet, prefix, n, how = unit
    with silent(), time_limit(800, "parsing"):
        for suffix in product(alphabet, repeat=n):
            toks = prefix + suffix
            if how == "tokens":
                text = " ".join(toks)
            elif how == "tight":
                text = "".join(toks)
            else:
                text = how.format(" ".join(toks))
            if res.state(text):
                check(text, res)
            if len(res.violations) >= 5:
                return
    res.sample(text)


def texts_worker(texts: List[str], res: Result) -> None:
    with silent(), time_limit(800, "parsing"):
        for text in texts:
            if res.state(text):
                check(text, res)
    res.sample(texts[-1])


ROLES = [({"x"}, {"p"}), ({"p"}, {"x"}), ({"x", "p"}, set()), (set(), {"x", "p"}), ({"x"}, set())]


def roles_worker(texts: List[str], res: Result) -> None:
    """The same text for models that declare its names otherwise, one after the other, in every order of two"""
    seq = [0]
    left = {(i, j) for i in range(len(ROLES)) for j in range(len(ROLES)) if i != j}
    while left:
        nxt = [j for i, j in sorted(left) if i == seq[-1]]
        seq.append(nxt[-1] if nxt else min(left)[0])
        left.discard((seq[-2], seq[-1]))
    with silent(), time_limit(800, "parsing"):
        for text in texts:
            res.state(("roles", text))
            for k in seq:
                check(text, res, ModelIdentifiers(set(ROLES[k][0]), set(ROLES[k][1])))
                if res.violations:
                    return


def units(alphabet: List[str], n: int, how: str, split: int = 2) -> Iterator[Any]:
    for k in range(n + 1):
        if k <= split:
            yield ("all", alphabet, (), k, how)
        else:
            for prefix in product(alphabet, repeat=split):
                yield ("all", alphabet, prefix, k - split, how)


def sentences() -> List[str]:
    out = list(ATOMS)
    level1 = []
    for w in WRAP:
        for a in ATOMS:
            level1.append(w.replace("{}", a))
    for a, b in product(ATOMS, ATOMS):
        for op in "+-*/":
            level1.append(f"{a} {op} {b}")
        level1.append(f"{a} = {b}")
        level1.append(f"({a})[{b}]")
        level1.append(f"x[t - {a} + {b}]")
        level1.append(f"x[t + {a} * {b}]")
        level1.append(f"sum(t+{a}..t-{b}, x)")
    out += level1
    short = [s for s in level1 if len(s) < 24]
    for w in WRAP:
        for a in short:
            out.append(w.replace("{}", a))
    return out


def long_texts() -> List[str]:
    out: List[str] = []
    sizes = list(range(3, 25)) + [40, 60]
    for n in sizes:
        for ops in ("+", "-", "*", "/", "+-*/", "-/", "*+", "/*-"):
            text = "x"
            for i in range(1, n):
                text += f" {ops[(i * 5 + i // 3) % len(ops)]} {('p', '2', 'y', 'x[t-1]')[i % 4]}"
            out += [text, f"{text} <= {n}", f"expec(sum({text}))"]
    for n in sizes[:20]:
        out += ["(" * n + "x + 2" + ")" * n + " * p", "x - (" * n + "p" + ")" * n, "-" * n + "x", "-(" * n + "x" + ")" * n, "expec(" * n + "x" + ")" * n]
        out += ["2 / (" * n + "p" + ")" * n, "(" * n + "x" + " - p)" * n, "(" * n + "x" + ")" * (n - 1)]
    for k in list(range(0, 41)) + [99, 100, 168, 1000, 8760, 8759]:
        out += [f"x[t+{k}]", f"x[t-{k}]", f"x[{k}]", f"x[-{k}]", f"sum(t-{k}..t+{k + 1}, x)", f"sum({k} .. {k + 1}, x)", f"x[t - {k} + p]", f"(x + y)[t - {k}]", f"{k} * x"]
        out += [f"(x + y)[t + {k}]", f"(x)[t + {k}]", f"(x)[{k}]", f"(x + y)[{k}]", f"(x)[-{k}]", f"(x + p)[{k} * 2]", f"sum(t .. t + {k}, x)", f"sum(t + {k} .. t, x)", f"sum(t - {k} .. t - {k}, x)"]
    for w in ("expec", "sum", "sum_connections", "min", "max", "abs", "mean", "expectation", "time_sum"):
        for fn in (w, w.upper(), w.capitalize(), w + "_", "_" + w, w[:-1], w + w):
            out += [f"{fn}(x)", f"{fn}(x + y) <= p", f"{fn}(x.y)", f"{fn}(t-1..t+1, x)", f"2 * {fn}(x)", f"{fn}()", f"{fn}"]
    for num in ("12", "1234567", "0.25", "10.05", "3.14159265358979", "1000000000000", "007", "0.0", "00.50", "1e5", "1E5", "1.", ".5", "1_000", "1,5", "0x10", "1e-5", "12.", "1.2.3", "123456789.123"):
        out += [num, f"{num} * x", f"x + {num}", f"x[t+{num}]", f"x <= {num}", f"-{num}"]
    for space in ("", " ", "  ", "\t", "\n", "\r\n", " \n "):
        out += [space.join(["2", "*", "x", "+", "p", "/", "3", "-", "y", "[", "t", "-", "1", "]"]), space + "x + p" + space, space.join(["sum", "(", "t", "-", "1", "..", "t", ",", "x", ")", "<=", "p"])]
    return out


def lookalikes_worker(groups: Any, res: Result) -> None:
    """Names which look like each other, or like the words of the language"""
    with silent(), time_limit(800, "parsing"):
        for group in groups:
            for x, p in permutations(group, 2):
                res.state(("names", x, p))
                for text in (x, p, f"{x} + {p}", f"{p} - {x}", f"{p}*{x}", f"{x}[t-1] <= {p}", f"({x})[t+{p}]", f"sum({x} * {p})", f"sum(t..t+{p}, {x})", f"expec({x})", f"{x}.{p}", f"sum_connections({x}.{p})", f"{x}{p}", f"{x}_"):
                    check(text, res, ModelIdentifiers({x}, {p}))
                    if res.violations:
                        return


def explore(run: Run) -> None:
    us: List[Any] = []
    if run.thorough:
        us += units(FULL, 4, "tokens", 1)
        us += units(MID, 5, "tokens")
        us += units(ARITH, 7, "tokens")
        us += units(PAREN, 7, "tokens")
        us += units(INDEX, 7, "tight")
        us += units(CHARS, 5, "tight")
        for tpl in TEMPLATES:
            us += units(SHIFT, 6, tpl)
    else:
        us += units(FULL, 4, "tokens", 1)
        us += units(ARITH, 6, "tokens", 1)
        us += units(PAREN, 6, "tokens", 1)
        us += units(INDEX, 6, "tight", 1)
        us += units(CHARS, 4, "tight", 1)
        us += units(SHIFT, 5, TEMPLATES[0], 1)
        for tpl in TEMPLATES[1:]:
            us += units(SHIFT, 3, tpl, 1)
    run.parallel(worker, us)
    s = sentences()
    size = 400
    run.parallel(texts_worker, [s[i : i + size] for i in range(0, len(s), size)])
    s = long_texts()
    run.parallel(texts_worker, [s[i::16] for i in range(16)])
    words = [["t", "T", "tt", "t1", "_t"], ["sum", "sums", "Sum", "sum_connections", "sum_connection"], ["expec", "expecs", "Expec", "expec_"], ["x", "X", "x1", "x_1"], ["e1", "E", "inf", "nan"]]
    run.parallel(lookalikes_worker, [[g] for g in words + look_alike.PLAIN])
    s = ATOMS + [w.replace("{}", a) for w in WRAP for a in ATOMS]
    run.parallel(roles_worker, [s[i : i + 40] for i in range(0, len(s), 40)])
