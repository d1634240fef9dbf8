"""
Reference parser of the modelling language, by recursive descent, from the documented
grammar. Shares nothing with the implementation (which uses a generated parser).

parse(text, variables, parameters) -> tuple expression of mc.spec, or Reject.
"""
import re
from typing import Any, List, Tuple


class Reject(Exception):
    pass


TOKEN = re.compile(
    r"(?P<ws>[ \t\r\n]+)|(?P<num>[0-9]+(?:\.[0-9]+)?)|(?P<id>[a-zA-Z_][a-zA-Z0-9_]*)"
    r"|(?P<op>\.\.|<=|>=|[=+\-*/()\[\],.])"
)
KEYWORDS = ("sum", "sum_connections", "t")


def tokens(text: str) -> List[Tuple[str, str]]:
    res = []
    i = 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if m is None:
            raise Reject(f"character {text[i]!r}")
        kind = m.lastgroup or ""
        if kind != "ws":
            s = m.group()
            if kind == "id" and s in KEYWORDS:
                kind = "kw"
            res.append((kind, s))
        i = m.end()
    return res + [("eof", "")]


class Parser:
    def __init__(self, text: str, variables: Any, parameters: Any):
        self.toks = tokens(text)
        self.i = 0
        self.variables, self.parameters = variables, parameters

    def peek(self, k: int = 0) -> Tuple[str, str]:
        return self.toks[min(self.i + k, len(self.toks) - 1)]

    def take(self, text: str) -> None:
        if self.peek()[0] in ("num", "eof") or self.peek()[1] != text:
            raise Reject(f"expected {text}, got {self.peek()}")
        self.i += 1

    def at(self, *texts: str) -> bool:
        return self.peek()[0] in ("op", "kw") and self.peek()[1] in texts

    # comparison < additive < multiplicative < negation < primary
    def full(self) -> Any:
        e = self.comparison()
        if self.peek()[0] != "eof":
            raise Reject(f"unexpected {self.peek()}")
        return e

    def comparison(self) -> Any:
        e = self.additive()
        while self.at("=", "<=", ">="):
            op = self.peek()[1]
            self.i += 1
            e = ("cmp", op, e, self.additive())
        return e

    def additive(self) -> Any:
        e = self.multiplicative()
        while self.at("+", "-"):
            op = self.peek()[1]
            self.i += 1
            e = ("add" if op == "+" else "sub", e, self.multiplicative())
        return e

    def multiplicative(self) -> Any:
        e = self.negation()
        while self.at("*", "/"):
            op = self.peek()[1]
            self.i += 1
            e = ("mul" if op == "*" else "div", e, self.negation())
        return e

    def negation(self) -> Any:
        if self.at("-"):
            self.i += 1
            return ("neg", self.negation())
        return self.primary()

    def symbol(self, name: str) -> Any:
        if name in self.variables:
            return ("var", name)
        if name in self.parameters:
            return ("par", name)
        raise Reject(f"unknown {name}")

    def ident(self) -> str:
        kind, s = self.peek()
        if kind != "id":
            raise Reject(f"identifier expected, got {s}")
        self.i += 1
        return s

    def port_field(self) -> Tuple[str, str]:
        p = self.ident()
        self.take(".")
        return p, self.ident()

    def primary(self) -> Any:
        kind, s = self.peek()
        if kind == "num":
            self.i += 1
            return ("lit", float(s))
        if self.at("("):
            self.i += 1
            e = self.comparison()
            self.take(")")
            return self.indexed(e) if self.at("[") else e
        if self.at("sum"):
            self.i += 1
            self.take("(")
            if self.at("t"):
                a = self.shift()
                self.take("..")
                b = self.shift()
                self.take(",")
                e = self.comparison()
                self.take(")")
                return ("wsum", e, a, b)
            e = self.comparison()
            self.take(")")
            return ("tsum", e)
        if self.at("sum_connections"):
            self.i += 1
            self.take("(")
            p, f = self.port_field()
            self.take(")")
            return ("psum", p, f)
        if kind == "id":
            nxt = self.peek(1)
            if nxt == ("op", "."):
                return ("pf",) + self.port_field()
            self.i += 1
            if nxt == ("op", "("):
                self.i += 1
                e = self.comparison()
                self.take(")")
                if s != "expec":
                    raise Reject(f"unknown function {s}")
                return ("expec", e)
            if nxt == ("op", "["):
                return self.indexed(self.symbol(s))
            return self.symbol(s)
        raise Reject(f"unexpected {s}")

    def indexed(self, e: Any) -> Any:
        self.take("[")
        if self.at("t"):
            k = self.shift()
            self.take("]")
            return ("shift", e, k)
        k = self.comparison()
        self.take("]")
        return ("eval", e, k)

    # t, or t followed by a signed sum of products of atoms and parenthesized expressions
    def shift(self) -> Any:
        self.take("t")
        if not self.at("+", "-"):
            return ("lit", 0.0)
        minus = self.at("-")
        self.i += 1
        e = self.shift_atom()
        e = self.shift_product(("neg", e) if minus else e)
        while self.at("+", "-"):
            op = "add" if self.at("+") else "sub"
            self.i += 1
            e = (op, e, self.shift_product(self.shift_atom()))
        return e

    def shift_product(self, e: Any) -> Any:
        while self.at("*", "/"):
            op = "mul" if self.at("*") else "div"
            self.i += 1
            e = (op, e, self.shift_atom())
        return e

    def shift_atom(self) -> Any:
        kind, s = self.peek()
        if kind == "num":
            self.i += 1
            return ("lit", float(s))
        if self.at("("):
            self.i += 1
            e = self.comparison()
            self.take(")")
            return e
        if kind == "id":
            self.i += 1
            return self.symbol(s)
        raise Reject(f"unexpected {s}")


def parse(text: str, variables: Any, parameters: Any) -> Any:
    return Parser(text, variables, parameters).full()
