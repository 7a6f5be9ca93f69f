"""Reads printed formulas as ordinary algebra, exactly: numbers, variables, + - * / ^ **, parentheses, implicit
multiplication, LaTeX \\frac \\left \\right \\cdot \\sigma.  'a/b' between digits is a rational literal (so 4/3x is (4/3)*x)."""
import re
from fractions import Fraction as F

TOK = re.compile(r"\s*(?:(?P<num>\d+(?:\.\d+)?(?:/\d+(?![\d.]))?)|(?P<frac>\\frac)|(?P<skip>\\left|\\right|\\,)|(?P<cdot>\\cdot|\\times)"
                 r"|(?P<var>\\?[A-Za-z]+(?:_\{?\w+\}?)?)|(?P<op>\*\*|[-+*/^(){}\[\]]))")


class Unreadable(Exception):
    pass


def tokens(s, names):
    out, i = [], 0
    s = s.rstrip()
    special = sorted((n for n in names if not re.fullmatch(r"\\?[A-Za-z]+(_\{?\w+\}?)?", n)), key=len, reverse=True)
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        n = next((n for n in special if s.startswith(n, i)), None)
        if n:
            out.append(("var", n))
            i += len(n)
            continue
        m = TOK.match(s, i)
        if not m:
            raise Unreadable(f"cannot read {s[i:]!r} of {s!r}")
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        if k == "skip":
            continue
        if k == "cdot":
            out.append(("op", "*"))
        elif k == "frac":
            out.append(("frac", v))
        elif k == "num":
            out.append(("num", F(v.split("/")[0]) / (F(v.split("/")[1]) if "/" in v else 1)))
        elif k == "var":
            if v not in names:
                raise Unreadable(f"unknown name {v!r} in {s!r}")
            out.append(("var", v))
        else:
            out.append(("op", "^" if v == "**" else v))
    return out


class Reader:
    def __init__(self, s, env):
        self.s, self.env, self.t, self.i = s, env, tokens(s, env), 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, *vals):
        k, v = self.peek()
        if k == "op" and v in vals:
            self.i += 1
            return v

    def expr(self):
        sign = 1
        k = self.take("+", "-")
        if k == "-":
            sign = -1
        v = sign * self.term()
        while True:
            k = self.take("+", "-")
            if not k:
                return v
            w = -self.term() if self.take("-") else self.term()
            v = v + w if k == "+" else v - w

    def term(self):
        v = self.factor()
        while True:
            k = self.take("*", "/")
            if k:
                s = -1 if self.take("-") else 1
                w = s * self.factor()
                v = v * w if k == "*" else v / w
                continue
            kind, x = self.peek()
            if kind in ("num", "var", "frac") or (kind == "op" and x in "({"):
                v = v * self.factor()
                continue
            return v

    def factor(self):
        v = self.atom()
        if self.take("^"):
            br = self.take("{", "(")
            s = -1 if self.take("-") else 1
            k, e = self.peek()
            if k != "num" or e.denominator != 1:
                raise Unreadable(f"exponent in {self.s!r}")
            self.i += 1
            if br and not self.take("}", ")"):
                raise Unreadable(self.s)
            v = v ** (s * int(e))
        return v

    def atom(self):
        k, v = self.peek()
        self.i += 1
        if k == "num":
            return v
        if k == "var":
            return self.env[v]
        if k == "frac":
            a = self.group()
            return a / self.group()
        if k == "op" and v in "({":
            w = self.expr()
            if not self.take({"(": ")", "{": "}"}[v]):
                raise Unreadable(f"unbalanced {self.s!r}")
            return w
        raise Unreadable(f"unexpected {v!r} in {self.s!r}")

    def group(self):
        if not self.take("{"):
            raise Unreadable(self.s)
        w = self.expr()
        if not self.take("}"):
            raise Unreadable(self.s)
        return w


def value(s, env):
    """exact value of the formula s with the variables env (name -> Fraction)"""
    r = Reader(s, env)
    v = r.expr()
    if r.i != len(r.t):
        raise Unreadable(f"trailing text in {s!r}")
    return F(v)


def relation(s, env):
    """truth of 'formula >= 0', '> 0', '= 0', '<= ...' at the point env"""
    m = re.fullmatch(r"(.*?)(>=|<=|>|<|=|\\leq|\\geq)(.*)", s.strip(), re.S)
    if not m or re.search(r"[<>=]", m.group(3)):
        raise Unreadable(f"not a relation: {s!r}")
    a, o, b = value(m.group(1), env), m.group(2), value(m.group(3), env)
    return {">=": a >= b, "\\geq": a >= b, "<=": a <= b, "\\leq": a <= b, ">": a > b, "<": a < b, "=": a == b}[o]
