"""C04: field arithmetic, evaluation, equality and parsing of rational functions. Oracle: exact polynomial pairs."""
from fractions import Fraction as F
import operator
from vh import Suite
from vh.util import q
from vh.algebra import value, Unreadable
from checks.ratfn import *
from functions import RationalFunction as RF

PROPERTY = "C04"
RULE = "random expression programs over rational functions (degree <= 3, rational and integer coefficients, zero and constant ones) and numbers; random textual expressions; evaluated at rational points off the zeros of all denominators involved; non-trivial when at least one point was compared"


def coeffs(r, lo=0, hi=3):
    n = r.randint(lo, hi) + 1
    k = r.random()
    if k < .35:
        return [r.randint(-4, 4) for _ in range(n)]          # python ints
    c = [q(r, -5, 5, (1, 2, 3, 7)) for _ in range(n)]
    if r.random() < .06:   # many digits
        c = [v if r.random() < .5 else r.choice([F(10**20 + 1), F(r.randint(-10**12, 10**12), r.randint(10**9, 10**13)), F(1, 10**15 + 37), -F(10**9 + 1, 10**9)]) for v in c]
    if k < .5:
        c[0] = F(0)
    return c


def rand_rf(r):
    a = coeffs(r)
    if r.random() < .25:
        return RF(list(a)), (trim([F(v) for v in a]), [F(1)]), f"RF({a})"
    while True:
        b = coeffs(r)
        if any(b):
            return RF(list(a), list(b)), (trim([F(v) for v in a]), trim([F(v) for v in b])), f"RF({a},{b})"


def mop(o, f, g):
    if o == "+":
        return padd(pmul(f[0], g[1]), pmul(g[0], f[1])), pmul(f[1], g[1])
    if o == "-":
        return padd(pmul(f[0], g[1]), pneg(pmul(g[0], f[1]))), pmul(f[1], g[1])
    if o == "*":
        return pmul(f[0], g[0]), pmul(f[1], g[1])
    return pmul(f[0], g[1]), pmul(f[1], g[0])


OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
NAMED = {"+": "add", "-": "subtract", "*": "mul", "/": "div"}


def probes(r, models, n=5):
    out = []
    for _ in range(n):
        x = F(r.randint(-12, 12), r.choice([1, 1, 2, 3, 5, 11]))
        if all(ev(M[1], x) != 0 for M in models):
            out.append(x)
    return out


def exact(v):
    """the value as an exact number, or None if it is not an exact rational"""
    import sympy
    if isinstance(v, float):
        return None
    if isinstance(v, sympy.Basic):
        return F(int(v.p), int(v.q)) if isinstance(v, sympy.Rational) else None
    return F(v)


def check_value(m, f, M, x, D):
    got, want = f.at(x), at(M, x)
    m.ok("value", exact(got) == want, lambda: f"at({x}) = {got!r} ({type(got).__name__}), want {want}; {D}")


def case_arith(r, m):
    vals = [rand_rf(r) for _ in range(r.choice([2, 3]))]
    start = [(f, M, d, probes(r, [M], 3)) for f, M, d in vals]
    mods = [M for _, M, _ in vals]
    for step in range(r.choice([1, 2, 2, 3])):
        f, M, d = r.choice(vals)
        o = r.choice("+-*/")
        if r.random() < .3:
            c = r.choice([2, -3, F(1, 2), F(-5, 3), 7, 1])
            N, g, dg = ([F(c)], [F(1)]), c, repr(c)
        else:
            g, N, dg = r.choice(vals)
            if o == "/" and not N[0]:
                continue
        if r.random() < .6:
            h = OPS[o](f, g)
        else:
            h = getattr(f, NAMED[o])(g)
        P = mop(o, M, N)
        if len(P[0]) + len(P[1]) > 14:
            continue
        vals.append((h, P, f"({d} {o} {dg})"))
        mods.append(P)
    n = 0
    for f, M, d in vals:
        for x in probes(r, mods):
            check_value(m, f, M, x, d)
            n += 1
    for f, M, d, pts in start:
        for x in pts:
            got, want = f.at(x), at(M, x)
            m.ok("operands_unchanged", exact(got) == want, lambda: f"{d} at {x}: {got!r}, want {want} after operations {[v[2] for v in vals]}")
    a, b = r.choice(vals), r.choice(vals)
    m.ok("equality", bool(a[0] == b[0]) == same(a[1], b[1]), lambda: f"{a[2]} == {b[2]} gave {a[0] == b[0]}")
    # an equal function written differently
    k = [F(v) for v in (r.choice([[2], [1, 3], [F(1, 2), 0, 1]]))]
    f, M, d = r.choice(vals[:2])
    if M[0]:
        g = RF(pmul(M[0], k), pmul(M[1], k))
        m.ok("equality", bool(f == g) and not bool(f == g.add(1)), lambda: f"{d} and the same with common factor {k}")
    for o in OPS:
        bad = r.choice(["x", None, [1], object()])
        m.raises("unsupported", Exception, lambda: OPS[o](f, bad), lambda: f"{d} {o} {bad!r}")
        m.raises("unsupported", Exception, lambda: getattr(f, NAMED[o])(bad), lambda: f"{d} {o} {bad!r}")
    if n:
        m.nontrivial([v[2] for v in vals])
    m.sample(vals[-1][2])


def rand_expr(r, depth):
    """(text, model, precedence); precedence 3 atom, 2 product, 1 sum"""
    k = r.random()
    if depth == 0 or k < .2:
        j = r.random()
        if j < .5:
            return "x", ([F(1), F(0)], [F(1)]), 3
        n = r.randint(0, 12)
        return str(n), (trim([F(n)]), [F(1)]), 3
    if k < .3:
        t, M, p = rand_expr(r, depth - 1)
        n = r.choice([2, 2, 3])
        P = M
        for _ in range(n - 1):
            P = mop("*", P, M)
        t = t if p == 3 else f"({t})"
        return f"{t}**{n}", P, 2.5
    if k < .38:
        t, M, p = rand_expr(r, depth - 1)
        return (f"-{t}" if p >= 2 else f"-({t})"), (pneg(M[0]), M[1]), 0
    for _ in range(20):
        o = r.choice("++--**/")
        a, b = rand_expr(r, depth - 1), rand_expr(r, depth - 1)
        if o == "/" and not b[1][0]:
            continue
        P = mop(o, a[1], b[1])
        if len(P[0]) + len(P[1]) > 14:
            continue
        if o in "+-":
            l = a[0]
            rr = b[0] if b[2] >= 2 else f"({b[0]})"
            return (f"{l} {o} {rr}" if r.random() < .7 else f"{l}{o}{rr}"), P, 1 if a[2] >= 1 else 0
        l = a[0] if a[2] >= 2 else f"({a[0]})"
        rr = b[0] if b[2] >= 2.5 else f"({b[0]})"
        return (f"{l} {o} {rr}" if r.random() < .5 else f"{l}{o}{rr}"), P, 2
    return "x", ([F(1), F(0)], [F(1)]), 3


def case_parse(r, m):
    t, M, _ = rand_expr(r, r.choice([1, 2, 2, 3]))
    f = RF.parse(t)
    n = 0
    for x in probes(r, [M], 8):
        check_value(m, f, M, x, t)
        n += 1
    # usable as an operand like any other
    g, N, d = rand_rf(r)
    o = r.choice("+-*/")
    if not (o == "/" and not N[0]):
        P = mop(o, M, N)
        h = OPS[o](f, g)
        for x in probes(r, [M, N, P], 4):
            check_value(m, h, P, x, f"({t}) {o} {d}")
    m.ok("equality", bool(f == RF(M[0], M[1])), lambda: f"parse({t!r}) != {M}")
    if n:
        m.nontrivial(t)
    m.sample(t)


def case_print(r, m):
    f, M, d = rand_rf(r)
    s = str(f)
    for x in probes(r, [M], 6):
        try:
            v = value(s, {"x": x})
        except ZeroDivisionError:
            m.fail("print", f"{d} printed {s!r} undefined at {x}")
        except Unreadable as e:
            m.fail("print", f"{d} printed {s!r}: {e}")
        m.ok("print", v == at(M, x), lambda: f"{d} printed {s!r} at {x}: {v}, want {at(M, x)}")
    m.nontrivial(s)


SUITES = [
    Suite("arith", case_arith, 900, 25000, need=["value", "equality", "unsupported", "operands_unchanged"]),
    Suite("parse", case_parse, 700, 20000, need=["value"]),
    Suite("print", case_print, 300, 5000, need=["print"]),
]
