"""C01: intervals denote point sets. Oracle: own membership model over exact numbers."""
from fractions import Fraction as F
import itertools
from vh import Suite
import sympy
from functions import Interval

PROPERTY = "C01"
RULE = "pairs of intervals over a small dense endpoint grid (plus random rationals, infinities, algebraic endpoints), all flag combinations; non-trivial when the operands share an endpoint, are singletons or overlap"
INF = float("inf")


def mem(t, x):
    a, b, il, iu = t
    return (a < x or (il and a == x)) and (x < b or (iu and x == b))


def grid(r):
    k = r.random()
    if k < .6:
        return F(r.randint(-3, 3), r.choice([1, 2, 3]))
    if k < .75:
        return r.randint(-3, 3)
    if r.random() < .1:
        return r.choice([F(r.randint(-10**12, 10**12), r.randint(10**9, 10**13)), F(1, 3) + F(r.choice([-1, 0, 1]), 10**18)])   # many digits
    return F(r.randint(-50, 50), r.randint(1, 40))


def rand(r):
    a, b = grid(r), grid(r)
    if r.random() < .15:
        b = a
    if a > b:
        a, b = b, a
    if r.random() < .07:
        a = -INF
    if r.random() < .07:
        b = INF
    return (a, b, r.random() < .5, r.random() < .5)


def mk(t):
    return Interval(t[0], t[1], t[2], t[3])


def probes(*ts):
    xs = sorted({F(x) for t in ts for x in t[:2] if x not in (INF, -INF)}) or [F(0)]
    out = [xs[0] - 1, xs[-1] + 1, xs[0] - F(1, 1000), xs[-1] + F(1, 1000)]
    out += xs
    out += [(a + b) / 2 for a, b in zip(xs, xs[1:])]
    out += [a + (b - a) / 1000 for a, b in zip(xs, xs[1:])] + [b - (b - a) / 1000 for a, b in zip(xs, xs[1:])]
    return out


def state(i):
    return (i.x0, i.x1, i.include_lower, i.include_upper)


def isempty(t):
    return t[0] == t[1] and not (t[2] and t[3])


def case_pair(r, m):
    s, t = rand(r), rand(r)
    k = r.random()
    if k < .3:
        t = (r.choice([s[0], s[1], t[0]]), t[1], t[2], t[3])
    elif k < .45:
        t = (s[0], s[1], r.random() < .5, r.random() < .5)
    if t[0] > t[1]:
        t = (t[1], t[0], t[2], t[3])
    if any(abs(x[0]) == INF and x[0] == x[1] for x in (s, t)):
        return
    I, J = mk(s), mk(t)
    for t_, i in ((s, I), (t, J)):
        for x in probes(s, t):
            m.ok("contains", bool(i.contains(x)) == mem(t_, x), lambda: f"{i!r}.contains({x}) != {mem(t_, x)}")
        m.ok("is_empty", bool(i.is_empty()) == isempty(t_), lambda: f"is_empty({i!r})")
        if abs(t_[0]) != INF and abs(t_[1]) != INF:
            m.eq("length", i.length(), t_[1] - t_[0], repr(i))
            m.eq("midpoint", F(i.midpoint()), (F(t_[0]) + F(t_[1])) / 2, repr(i))
    K = I.intersect(J)
    for x in probes(s, t):
        m.ok("intersect", bool(K.contains(x)) == (mem(s, x) and mem(t, x)),
             lambda: f"{I!r} & {J!r} = {K!r} at {x}")
    lo, hi = max(s[0], t[0]), min(s[1], t[1])
    want_empty = lo > hi or (lo == hi and not (mem(s, lo) and mem(t, lo)))
    m.ok("intersect_empty", bool(K.is_empty()) == want_empty, lambda: f"{I!r} & {J!r} = {K!r} emptiness")
    if not want_empty and abs(lo) != INF and abs(hi) != INF:
        m.ok("intersect_length", K.length() == hi - lo and K.midpoint() == (F(lo) + F(hi)) / 2, lambda: f"{I!r} & {J!r} = {K!r}")
    L = J.intersect(I)
    m.ok("commutes", K == L, lambda: f"{I!r} & {J!r}: {K!r} vs {L!r}")
    same = s == t or (isempty(s) and isempty(t))
    m.ok("equality", (I == J) == same, lambda: f"{I!r} == {J!r}")
    m.ok("operand_unchanged", state(I) == s and state(J) == t, lambda: f"{state(I)} {s} {state(J)} {t}")
    C = I.deep_copy()
    m.ok("copy", C == I and state(C) == s and C is not I, lambda: f"copy of {I!r} is {C!r}")
    C.x0, C.include_lower = C.x0 - 1, not C.include_lower
    C.x1, C.include_upper = C.x1 + 1, not C.include_upper
    m.ok("copy_independent", state(I) == s, lambda: f"{I!r}")
    # the result must not be tied to the operands either
    K.x0, K.x1 = K.x0 - 5, K.x1 + 5
    m.ok("operand_unchanged", state(I) == s and state(J) == t, "changing the intersection changed an operand")
    if set(s[:2]) & set(t[:2]) or s[0] == s[1] or lo <= hi:
        m.nontrivial((s, t))
    m.sample(f"{I!r} & {J!r} = {L!r}")


def case_parse(r, m):
    a, b = grid(r), grid(r)
    il, iu = r.random() < .5, r.random() < .5
    sp = lambda: " " * r.choice([0, 0, 1, 2])
    txt = ("[" if il else "(") + sp() + str(a) + sp() + "," + sp() + str(b) + sp() + ("]" if iu else ")")
    if a > b:
        m.raises("reversed_rejected", ValueError, lambda: Interval(a, b, il, iu), txt)
        m.raises("reversed_rejected", ValueError, lambda: Interval(txt), txt)
        m.nontrivial(txt)
        return
    t = (a, b, il, iu)
    i, j = Interval(txt), Interval.parse(txt)
    d = Interval(a, b)
    m.ok("default_flags", d.include_lower is True and d.include_upper is False and state(d)[:2] == (a, b), repr(d))
    for k in (i, j):
        for x in probes(t):
            m.ok("parse_contains", bool(k.contains(x)) == mem(t, x), lambda: f"{txt!r} parsed as {k!r}; at {x}")
        m.ok("parse_exact", state(k) == t, lambda: f"{txt!r} parsed as {state(k)}")
    m.ok("print_parse", Interval(repr(mk(t))) == mk(t) and state(Interval(repr(mk(t)))) == t, lambda: repr(mk(t)))
    m.nontrivial(txt)


def case_algebraic(r, m):
    """endpoints produced by the piecewise machinery are algebraic numbers"""
    def num():
        v = F(r.randint(-6, 6), r.randint(1, 4))
        if r.random() < .5:
            n = r.choice([2, 3, 5])
            return sympy.Rational(v.numerator, v.denominator) + sympy.Rational(r.randint(-3, 3), r.randint(1, 3)) * sympy.sqrt(n)
        return sympy.Rational(v.numerator, v.denominator)
    xs = [num() for _ in range(4)]
    a, b = sorted(xs[:2], key=lambda v: v.evalf(60))
    c, d = sorted(xs[2:], key=lambda v: v.evalf(60))
    if r.random() < .3:
        c = a
        if (d - c).evalf(60) < 0:
            c, d = d, c
    fl = [r.random() < .5 for _ in range(4)]
    I, J = Interval(a, b, fl[0], fl[1]), Interval(c, d, fl[2], fl[3])

    def lt(u, v):
        z = sympy.nsimplify(u - v)
        return z.evalf(60) < -1e-40

    def mm(t, x):
        e0, e1 = sympy.simplify(x - t[0]) == 0, sympy.simplify(x - t[1]) == 0
        return (lt(t[0], x) or (t[2] and e0)) and (lt(x, t[1]) or (t[3] and e1)) and not (e0 and not t[2]) and not (e1 and not t[3])
    K = I.intersect(J)
    for x in [a, b, c, d, (a + b) / 2, (c + d) / 2, (a + d) / 2, a - 1, d + 1]:
        for t, i in (((a, b, fl[0], fl[1]), I), ((c, d, fl[2], fl[3]), J)):
            m.ok("alg_contains", bool(i.contains(x)) == mm(t, x), lambda: f"{i!r}.contains({x})")
        m.ok("alg_intersect", bool(K.contains(x)) == (mm((a, b, fl[0], fl[1]), x) and mm((c, d, fl[2], fl[3]), x)),
             lambda: f"{I!r} & {J!r} = {K!r} at {x}")
    m.nontrivial((str(xs), fl))


def case_grid(r, m):
    """every pair over a 4-point grid with all flags, exhaustively, in one case per left operand"""
    pts = [F(0), F(1, 2), F(1), F(2)]
    left = [(a, b, il, iu) for a, b in itertools.combinations_with_replacement(pts, 2) for il in (0, 1) for iu in (0, 1)]
    xs = [F(k, 4) for k in range(-1, 10)]
    n = 0
    for s in left:
        for t in left:
            K = mk(tuple(s)).intersect(mk(tuple(t)))
            for x in xs:
                n += 1
                if bool(K.contains(x)) != bool(mem(s, x) and mem(t, x)):
                    m.fail("grid_intersect", f"{mk(s)!r} & {mk(t)!r} = {K!r} at {x}")
    m.count("grid_points", n)
    m.ok("grid_intersect", n > 0)
    m.nontrivial("grid")


SUITES = [
    Suite("grid", case_grid, 1, 1, need=["grid_intersect"]),
    Suite("pair", case_pair, 20000, 400000, need=["contains", "intersect", "equality", "copy"]),
    Suite("parse", case_parse, 4000, 80000, need=["parse_contains", "reversed_rejected", "print_parse"]),
    Suite("algebraic", case_algebraic, 60, 1500, need=["alg_intersect"]),
]
