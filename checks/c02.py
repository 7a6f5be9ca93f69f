"""C02: min/max of labelled affine pieces. Oracle: pointwise evaluation at every critical point and between."""
from fractions import Fraction as F
import itertools
from vh import Suite
from vh.util import *
from functions import Interval, Affine

PROPERTY = "C02"
RULE = "1-5 affine pieces with labels on a dense rational grid of slopes, intercepts and (open, closed, singleton, disjoint) domains; judged at all endpoints, crossings, midpoints and near-endpoint points; non-trivial when some two operands overlap"


def gnum(r):
    return F(r.randint(-3, 3), r.choice([1, 1, 2, 3]))


def gdom(r):
    a, b = gnum(r), gnum(r)
    if r.random() < .12:
        b = a
    if a > b:
        a, b = b, a
    if a == b:
        return (a, b, True, True)
    return (a, b, r.random() < .5, r.random() < .5)


def mem(t, x):
    a, b, il, iu = t
    return (a < x or (il and a == x)) and (x < b or (iu and x == b))


def crit(fs, dom):
    """fs: (m, c, t)"""
    xs = set()
    for m_, c_, t in fs:
        xs |= {t[0], t[1]}
    if dom:
        xs |= {dom[0], dom[1]}
    for (m1, c1, _), (m2, c2, _) in itertools.combinations(fs, 2):
        if m1 != m2:
            xs.add((c2 - c1) / (m1 - m2))
    xs = sorted(xs)
    out = [xs[0] - 1, xs[-1] + 1] + xs
    for a, b in zip(xs, xs[1:]):
        out += [(a + b) / 2, a + (b - a) / 97, b - (b - a) / 97]
    return out


def judge(m, fs, labels, dom, pieces, better, tag, desc):
    """pieces: resulting Affine list; fs with their labels"""
    bylab = {}
    for f, l in zip(fs, labels):
        bylab.setdefault(l, []).append(f)
    pts = crit(fs + [(p.m, p.c, (p.domain.x0, p.domain.x1, 1, 1)) for p in pieces], dom)
    for x in pts:
        inside = dom is None or mem(dom, x)
        vals = [f[0] * x + f[1] for f in fs if mem(f[2], x)] if inside else []
        got = [p for p in pieces if mem((p.domain.x0, p.domain.x1, p.domain.include_lower, p.domain.include_upper), x)]
        if not vals:
            m.ok(tag + ":confined", not got, lambda: f"{desc()}: piece {got} at x={x} where nothing is defined")
            continue
        m.ok(tag + ":covers", len(got) >= 1, lambda: f"{desc()}: no piece at x={x}")
        m.ok(tag + ":disjoint", len(got) == 1, lambda: f"{desc()}: pieces {got} overlap at x={x}")
        want = better(vals)
        g = got[0]
        m.ok(tag + ":value", g.at(x) == want and g.m * x + g.c == want, lambda: f"{desc()}: at x={x} got {g.at(x)} want {want} from {g!r}")
        m.ok(tag + ":label", any(mem(f[2], x) and f[0] * x + f[1] == want and f[0] == g.m and f[1] == g.c for f in bylab.get(g.label, [])),
             lambda: f"{desc()}: at x={x} piece {g!r} labelled {g.label!r} disagrees with the operand of that label")


def snap(A):
    return (A.m, A.c, A.domain.x0, A.domain.x1, A.domain.include_lower, A.domain.include_upper, A.label)


def build(r, n, same_labels=False):
    fs = []
    for i in range(n):
        k = r.random()
        if fs and k < .25:   # related to an earlier one: parallel, identical, touching
            b = r.choice(fs)
            fs.append((b[0], b[1] + (r.choice([0, 0, 1]) if r.random() < .85 else tiny(r)), gdom(r)) if r.random() < .6 else (b[0] + 1, b[1] - r.choice([b[2][0], b[2][1]]), gdom(r)))
        else:
            fs.append((gnum(r), gnum(r), gdom(r)))
    return fs


def objs(fs, labels):
    return [Affine(a, b, Interval(*t), l) for (a, b, t), l in zip(fs, labels)]


def case_pair(r, m):
    n = r.choice([2, 2, 2, 3, 4]) if r.random() > .03 else r.randint(7, 12)
    fs = build(r, n)
    lk = r.random()
    labels = [f"L{i}" for i in range(n)] if lk < .6 else ([None] * n if lk < .8 else [r.choice("AB") for _ in range(n)])
    dom = None if r.random() < .35 else gdom(r)
    op = r.choice(["min_with", "max_with"])
    A = objs(fs, labels)
    before = [snap(a) for a in A]
    D = Interval(*dom) if dom else None
    desc = lambda: f"{op} of {before} on {dom}"
    res = getattr(A[0], op)(A[1:], D)
    judge(m, fs, labels, dom, res, min if op == "min_with" else max, op, desc)
    m.ok("operands_unchanged", [snap(a) for a in A] == before, lambda: f"{desc()} changed an operand to {[snap(a) for a in A]}")
    for p in res:   # results are fresh objects
        p.domain.x1 += 1
        p.label = "changed"
    m.ok("operands_unchanged", [snap(a) for a in A] == before, lambda: f"{desc()}: changing the result changed an operand")
    if any(max(f[2][0], g[2][0]) < min(f[2][1], g[2][1]) for f, g in itertools.combinations(fs, 2)):
        m.nontrivial((before, str(dom), op))
    m.sample(f"{op} of {A} on {D}: {res}")


def case_fold(r, m):
    """one function against an already piecewise list, repeatedly, as the best-bound computations do"""
    n = r.randint(3, 6)
    fs = build(r, n)
    labels = list(range(n))
    A = objs(fs, labels)
    dom = (F(0), F(1, 2), True, True) if r.random() < .5 else gdom(r)
    if r.random() < .5:
        fs = [(a, b, (F(r.randint(0, 4), 8), F(r.randint(4, 8), 8), True, True)) for a, b, _ in fs]
        fs = [(a, b, t if t[0] < t[1] else (t[0], t[1], True, True)) for a, b, t in fs]
        A = objs(fs, labels)
    op = r.choice(["min_with", "max_with"])
    D = Interval(*dom)
    best = [A[0]]
    for i in range(1, n):
        best = getattr(A[i], op)(best, D)
    desc = lambda: f"fold {op} of {objs(fs, labels)} on {dom}"
    judge(m, fs, labels, dom, best, min if op == "min_with" else max, "fold", desc)
    m.nontrivial((fs, dom, op))


def case_basic(r, m):
    f, g = build(r, 2)
    A, B = objs([f, g], ["p", "q"])
    for x in crit([f, g], None):
        for t, o in ((f, A), (g, B)):
            want = t[0] * x + t[1] if mem(t[2], x) else None
            m.eq("at", o.at(x), want, f"{o!r} at {x}")
            m.eq("at_extended", o.at(x, True), t[0] * x + t[1], f"{o!r} at {x}")
    pts = [x for x in crit([f, g], None) if mem(f[2], x) and mem(g[2], x) and f[0] != g[0] and f[0] * x + f[1] == g[0] * x + g[1]]
    m.eq("intersection", A.intersection(B), pts[0] if pts else None, f"{A!r}, {B!r}")
    m.eq("function_equals", A.function_equals(B), f[:2] == g[:2], f"{A!r}, {B!r}")
    C = A.deep_copy()
    m.ok("copy", C == A and (C.m, C.c) == (A.m, A.c) and C.domain is not A.domain, repr(A))
    if f[2][0] != f[2][1]:
        m.eq("affine_equality", A == B, f == g, f"{A!r}, {B!r}")
    elif g[2][0] == g[2][1] and all(f[2]) and all(g[2]):
        # functions on single points are equal when they have the same value there
        x, y = f[2][0], g[2][0]
        m.eq("point_equality", A == B, x == y and f[0] * x + f[1] == g[0] * y + g[1], f"{A!r}, {B!r}")
    m.nontrivial((f, g))


SUITES = [
    Suite("pair", case_pair, 9000, 200000, need=["min_with:value", "max_with:value", "min_with:label", "operands_unchanged"]),
    Suite("fold", case_fold, 1500, 40000, need=["fold:value", "fold:label"]),
    Suite("basic", case_basic, 4000, 80000, need=["at", "intersection"]),
]
