"""C06: polynomial arithmetic, canonical form, printing. Oracle: evaluation at many exact points + an independent reader."""
from fractions import Fraction as F
import copy, operator
from vh import Suite
from vh.util import q
from vh.algebra import value, Unreadable
from polynomial import Polynomial
from functions import RationalFunction2, Interval

PROPERTY = "C06"
RULE = "random programs of +, -, * (operators and methods) over dense polynomials of degree <= 7 with int or Fraction coefficients incl. zero polynomial, cancelling and sparse ones; judged at more points than the degree; non-trivial when a result is compared"


def coeffs(r, base=None):
    k = r.random()
    if k < .08:
        return ()
    if base and k < .4:
        c = list(base)
        for i in range(len(c)):
            if r.random() < .4:
                c[i] = -c[i]
            if i < len(c) - 1 and r.random() < .3:
                c[i] = c[i] + r.choice([-1, 0, 1])
        return tuple(c)
    n = r.randint(1, 8) if r.random() > .04 else r.randint(15, 40)
    c = [r.choice([0, 0, 1, -1, 2, -3, F(1, 2), F(-4, 3), 5]) for _ in range(n)]
    if r.random() < .12:    # few terms of high degree
        n = r.randint(6, 30)
        c = [0] * n
        for i in [n - 1] + r.sample(range(n), r.randint(0, 2)):
            c[i] = r.choice([1, -1, 2, F(1, 2), -5])
    if r.random() < .08:   # many digits
        c = [v if r.random() < .5 else r.choice([F(10**20 + 1), F(r.randint(-10**12, 10**12), r.randint(10**9, 10**13)), F(1, 10**15 + 37), -F(10**9 + 1, 10**9)]) for v in c]
    if r.random() < .4:
        c = [F(v) for v in c]
    while not c[-1]:
        c[-1] = r.choice([1, -1, F(2, 3), -2])
    return tuple(c)


def ev(c, x):
    v = F(0)
    for a in reversed(c):
        v = v * x + a
    return v


XS = [F(i, 3) for i in range(-24, 25)]


def vals(c):
    return [ev(c, x) for x in XS]


OPS = {"+": (operator.add, "add"), "-": (operator.sub, "subtract"), "*": (operator.mul, "multiply")}


def judge(m, p, want, D):
    c = p.coefficients
    m.ok("value", vals(c) == want, lambda: f"{D()}: coefficients {c}")
    m.ok("canonical", len(c) == 0 or c[-1] != 0, lambda: f"{D()}: {c}")
    m.ok("degree", p.degree() == (len(c) - 1 if c else float("-inf")) and p.is_zero() == (not any(want)), D)


def case_arith(r, m):
    cs = [coeffs(r)]
    cs += [coeffs(r, cs[0]) for _ in range(r.choice([1, 2]))]
    pool = [(Polynomial(c), vals(c), str(c)) for c in cs]
    for step in range(r.choice([1, 2, 3])):
        (p, v, d), (g, w, e) = r.choice(pool), r.choice(pool)
        o = r.choice("+-*")
        if o == "*" and len(p.coefficients) + len(g.coefficients) > 22:
            continue
        f, name = OPS[o]
        h = f(p, g) if r.random() < .6 else getattr(p, name)(g)
        u = [f(a, b) for a, b in zip(v, w)]
        D = lambda: f"({d}) {o} ({e})"
        judge(m, h, u, D)
        pool.append((h, u, D()))
    for p, v, d in pool:
        m.ok("operands_unchanged", vals(p.coefficients) == v, lambda: f"{d} now {p.coefficients}")
    (p, v, d), (g, w, e) = r.choice(pool), r.choice(pool)
    m.ok("equality", (p == g) == (v == w), lambda: f"{d} vs {e}: {p.coefficients} {g.coefficients}")
    m.ok("equality", copy.copy(p) == p and (p - p).is_zero() and p + g == g + p and p * g == g * p and (p + g) - g == p, lambda: f"{d} / {e}")
    for bad in (3, "x", None, [1]):
        for o in OPS:
            m.raises("unsupported", Exception, lambda: OPS[o][0](p, bad), d)
    m.raises("unsupported", Exception, lambda: Polynomial((1, 0)))
    m.raises("unsupported", Exception, lambda: Polynomial([1, 2]))
    m.nontrivial([x[2] for x in pool])
    m.sample(pool[-1][2])


def case_print(r, m):
    c = coeffs(r)
    p = Polynomial(c)
    var = r.choice(["x", "x", "t", "y"])
    s = str(p) if var == "x" else p.to_str(var)
    def rd(s, x, v="x"):
        try:
            return value(s, {v: x})
        except Unreadable as e:
            m.fail("print", f"{c} printed {s!r}: {e}")
    for x in XS[::5]:
        m.ok("print", rd(s, x, var) == ev(c, x), lambda: f"{c} printed {s!r}, at {x}")
    m.ok("operands_unchanged", p.coefficients == c, c)
    # dense rational functions built from the same coefficients (single numerator, or over a sum)
    den = [F(1)] if r.random() < .5 else [F(r.choice([1, 2, -3])), F(r.choice([1, -1, 4]))] + ([F(2)] if r.random() < .5 else [])
    if c and (len([v for v in c if v]) > 1 or den == [F(1)]):
        cf = [F(v) for v in reversed(c)]
        t = str(RationalFunction2((list(cf), den), Interval(0, 1)))
        t, tail = t.split(" on ")
        for x in XS[::5]:
            dv = ev(den[::-1], x)
            if dv:
                m.ok("print_quotient", rd(t, x) == ev(c, x) / dv, lambda: f"{cf}/{den} printed {t!r} at {x}")
    # division of polynomials
    c2 = coeffs(r, c)
    g = Polynomial(c2)
    if not c2:
        m.raises("divide_zero", Exception, lambda: p.divide(g), f"{c}")
    else:
        t = str(p.divide(g))
        if not c or (len([v for v in c if v]) > 1 or c2 == (1,)) and (len([v for v in c2 if v]) > 1 or c2 == (1,)):
            t, tail = t.split(" on ")
            for x in XS[::5]:
                if ev(c2, x):
                    m.ok("divide", rd(t, x) == ev(c, x) / ev(c2, x), lambda: f"({c}) / ({c2}) printed {t!r}, at {x}")
        m.ok("operands_unchanged", p.coefficients == c and g.coefficients == c2, c)
    m.nontrivial(s)
    m.sample(s)


SUITES = [
    Suite("arith", case_arith, 4000, 100000, need=["value", "canonical", "equality", "unsupported", "operands_unchanged"]),
    Suite("print", case_print, 4000, 60000, need=["print", "print_quotient", "divide", "divide_zero"]),
]
