"""C05: pointwise optimum, extrema, roots and crossings of rational functions on intervals.
Oracle: Sturm isolation of every crossing; exact comparison at rational points on both sides of each."""
from fractions import Fraction as F
import sympy
from vh import Suite
from vh.util import q, tiny
from checks.ratfn import *
from functions import RationalFunction as RF, Interval

PROPERTY = "C05"
RULE = "collections of 1-5 rational functions (degrees up to 2/2, shifted and repeated copies, tangent pairs), each pole-free on its own rational interval (adjacent, nested, disjoint, degenerate ones), over a random query interval; judged at rational points on both sides of every crossing and interval end; non-trivial when two functions are defined at a judged point"
ASSUMPTIONS = ["judged away from the finitely many breakpoints of the answer", "sympy evaluates given algebraic numbers correctly to 30 digits"]


def fn(r):
    k = r.random()
    c = lambda n: [q(r, -5, 5, (1, 1, 2, 3)) for _ in range(n)]
    if k < .2:
        a, b = c(1), [F(1)]
    elif k < .4:
        a, b = c(2), [F(1)]
    elif k < .75:
        a, b = c(r.choice([1, 2])), c(2)
    else:
        a, b = c(3), c(r.choice([1, 2, 3]))
    a, b = trim(a), trim(b)
    return (a, b) if b else fn(r)


def ival(r, dom=None, big=False):
    while True:
        a, b = q(r, 0, 12, (4, 6, 12)), q(r, 0, 12, (4, 6, 12))
        if r.random() < .35:
            a, b = r.choice([F(0), F(1, 4), F(1, 3), F(1, 2), F(-1)]), r.choice([F(3, 4), F(5, 6), F(1), F(2)])
        if dom is not None and r.random() < .3:
            a = dom[0]
        if dom is not None and r.random() < .3:
            b = dom[1]
        if a > b:
            a, b = b, a
        if a == b and (big or r.random() < .8):
            continue
        return a, b, r.random() < .7, r.random() < .4


def polefree(f, I):
    return count_roots(f[1], I[0], I[1]) == 0


def gen(r, I, base=None):
    for _ in range(60):
        if base is not None and r.random() < .5:
            k = r.random()
            if k < .3:
                f = base
            elif k < .5:
                g = [q(r, -3, 3), F(1)]
                f = pmul(base[0], g), pmul(base[1], g)
            elif k < .8:        # crossing, possibly tangent
                s = q(r, 1, 8, (6, 8))
                d = pmul([F(1), -s], [F(1), -s]) if r.random() < .5 else [F(1), -s]
                d = [v * q(r, 1, 4) for v in d]
                f = padd(base[0], pmul(d, base[1])), base[1]
            else:
                f = padd(base[0], pmul([q(r, -2, 2) if r.random() < .8 else tiny(r)], base[1])), base[1]
        else:
            f = fn(r)
        if f[1] and polefree(f, I) and len(f[0]) < 5 and len(f[1]) < 4:
            return f
    return [q(r)], [F(1)]


def inside(I, x):
    return (I[0] < x or (I[2] and I[0] == x)) and (x < I[1] or (I[3] and x == I[1]))


def mkrf(f, r):
    if r.random() < .2 and f[0]:
        return RF.parse(f"({'+'.join(f'({c})*x**{len(f[0])-1-i}' for i, c in enumerate(f[0]))})/({'+'.join(f'({c})*x**{len(f[1])-1-i}' for i, c in enumerate(f[1]))})")
    return RF(list(f[0]), list(f[1]))


def close(v, w, tol=F(1, 10**20)):
    d = sympy.N(sympy.sympify(v) - sympy.Rational(w.numerator, w.denominator), 30)
    return abs(d) <= float(tol) * (1 + abs(w))


def case_opt(r, m):
    dom = ival(r, big=True)
    fs = []
    for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5]) if r.random() > .03 else r.randint(9, 14)):
        I = ival(r, dom)
        fs.append((gen(r, I, fs[-1][0] if fs else None), I))
    low = r.random() < .5
    track = r.random() < .75
    objs = [(mkrf(f, r), Interval(*I)) for f, I in fs]
    D = Interval(*dom)
    desc = lambda: f"{'min' if low else 'max'} over {D} of {[((list(map(str, f[0])), list(map(str, f[1]))), str(o[1])) for (f, I), o in zip(fs, objs)]} -> {[(str(p[0]), str(p[1])) + tuple(p[2:]) for p in res]}"
    op = RF.min if low else RF.max
    res = op(list(objs), D, track) if r.random() < .5 or not track else op(list(objs), D)
    m.ok("shape", len(res) > 0 and all(len(p) == (3 if track else 2) for p in res), desc)
    m.ok("adjacent", res[0][1].x0 == dom[0] and res[-1][1].x1 == dom[1] and
         all(a[1].x1 == b[1].x0 for a, b in zip(res, res[1:])), desc)
    # test points
    ends = sorted({dom[0], dom[1]} | {e for _, I in fs for e in I[:2] if dom[0] < e < dom[1]})
    pts, w = [], F(1, 10**8)
    for a, b in zip(ends, ends[1:]):
        cuts = []
        act = [f for f, I in fs if I[0] <= a and b <= I[1]]
        for i in range(len(act)):
            for j in range(i):
                p = padd(pmul(act[i][0], act[j][1]), pneg(pmul(act[j][0], act[i][1])))
                if p:
                    cuts += [refine(p, lo, hi, w / 4) for lo, hi in isolate(p, a, b)]
        pts += [(a + b) / 2, a + (b - a) * F(r.randint(1, 96), 97), a + (b - a) / 10**6, b - (b - a) / 10**6]
        for lo, hi in cuts:
            pts += [x for x in (lo - w, hi + w) if a < x < b]
    both = 0
    for x in pts:
        if x in ends:
            continue
        vals = [(at(f, x), i) for i, (f, I) in enumerate(fs) if I[0] < x < I[1]]
        hit = [p for p in res if p[1].contains(x)]
        m.ok("covered", len(hit) == 1, lambda: f"{len(hit)} pieces at {x}; {desc()}")
        got = hit[0][0].at(x)
        if not vals:
            m.ok("placeholder", (got > 1000 if low else got < -1000) and (not track or hit[0][2] == -1), lambda: f"nothing defined at {x}, value {got}; {desc()}")
            continue
        want = min(vals)[0] if low else max(vals)[0]
        both += len(vals) > 1
        m.ok("value", got == sympy.Rational(want.numerator, want.denominator), lambda: f"at {x}: {got}, want {want}; {desc()}")
        if track:
            m.ok("attribution", 0 <= hit[0][2] < len(fs) and any(i == hit[0][2] and v == want for v, i in vals), lambda: f"at {x}: {desc()}")
    m.ok("operands_unchanged", [str(o[1]) for o in objs] == [str(Interval(*I)) for _, I in fs] and str(D) == str(Interval(*dom)), desc)
    if both:
        m.nontrivial(desc())
    m.sample(f"{'min' if low else 'max'} of {len(fs)} functions on {D}: {len(res)} pieces, judged at {len(pts)} points")


def root_set(p, I):
    """isolating intervals of the distinct roots of p that lie in I (flags respected)"""
    out = []
    for lo, hi in isolate(p, I[0], I[1]):
        lo, hi = refine(p, lo, hi, F(1, 10**12))
        if lo == hi and not inside(I, lo):
            continue
        out.append((lo, hi))
    return sorted(out)


EPS = sympy.Rational(1, 10**18)


def near(x, iv):
    lo, hi = (sympy.Rational(v.numerator, v.denominator) for v in iv)
    return bool(lo - EPS <= x) and bool(x <= hi + EPS)


def match_roots(got, want):
    g = [sympy.Rational(str(sympy.N(x, 40))) for x in got]
    return all(any(near(x, iv) for iv in want) for x in g) and all(any(near(x, iv) for x in g) for iv in want)


def case_points(r, m):
    I = ival(r, big=r.random() < .9)
    f = gen(r, I)
    g = gen(r, I, f)
    if r.random() < .5:
        # a root and a crossing at points which have a short closed form
        s = [x for x in (F(0), F(1, 2), F(1), F(3, 4), F(2, 3), F(1, 3), F(2)) if I[0] <= x <= I[1]]
        if s:
            a, b = r.choice(s), r.choice(s)
            f2 = (pmul([F(1), -a], f[0] if len(f[0]) < 3 else [F(1)]), f[1])
            g2 = (padd(f2[0], pmul(pmul([F(1), -b], [r.choice([F(1), F(-2), F(1, 3)])]), f2[1])), f2[1])
            if f2[0]:
                f, g = f2, g2
    F1, G1, J = mkrf(f, r), mkrf(g, r), Interval(*I)
    D = lambda: f"f={f} g={g} on {J}"
    # what the objects were asked about before does not matter
    if r.random() < .5:
        for K in [(I[0], I[0] + (I[1] - I[0]) * F(r.randint(1, 3), 4), I[2], I[3]) for _ in range(2)] + [(I[0] + (I[1] - I[0]) / 3, I[1], True, True)]:
            K = Interval(*K)
            for op in r.sample([F1.roots, F1.maximise, F1.minimise, lambda i: F1.intersections(G1, i), lambda i: RF.max([(F1, i), (G1, i)], i)], 3):
                op(K)
    p = padd(pmul(f[0], g[1]), pneg(pmul(g[0], f[1])))
    if p:
        got = F1.intersections(G1, J)
        m.ok("intersections", match_roots(got, root_set(p, I)), lambda: f"{got}; want {root_set(p, I)}; {D()}")
        for x in got:
            if not isinstance(x, F):
                continue
            m.ok("intersections", at(f, x) == at(g, x), D)
    if f[0]:
        got = F1.roots(J)
        m.ok("roots", match_roots(got, root_set(f[0], I)), lambda: f"roots {got}; want {root_set(f[0], I)}; {D()}")
    # extremum
    df = padd(pmul(deriv(f[0]), f[1]), pneg(pmul(f[0], deriv(f[1]))))
    c = [(I[0], I[0]), (I[1], I[1])] + ([refine(df, lo, hi, F(1, 10**24)) for lo, hi in isolate(df, I[0], I[1])] if df else [])
    vals = [at(f, (lo + hi) / 2) for lo, hi in c]
    for name, want in (("maximise", max(vals)), ("minimise", min(vals))):
        x, v = getattr(F1, name)(J)
        m.ok("extremum_value", close(v, want), lambda: f"{name} gave {x, v}, true extremal value {float(want)}; {D()}")
        m.ok("extremum_point", x >= I[0] and x <= I[1] and close(F1.at(x), want), lambda: f"{name} gave {x, v}; {D()}")
    m.nontrivial(D())


SUITES = [
    Suite("optimum", case_opt, 420, 12000, need=["value", "attribution", "placeholder", "covered"]),
    Suite("points", case_points, 350, 8000, need=["intersections", "roots", "extremum_value"]),
]
