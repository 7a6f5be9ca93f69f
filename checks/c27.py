"""C27: the reported prime gap exponents are the true suprema of the defining expression."""
from vh import Suite
from checks.zdt import *
import prime_gap as pg
import io, re, contextlib

PROPERTY = "C27"
RULE = "random collections of 1-4 density and 1-4 energy estimates covering [1/2,1) with energy bounds above the density bounds, judged on every reported interval against the expression evaluated at 200 abscissae and refined around the best ones; non-trivial when the supremum of an interval is attained in its interior"
ASSUMPTIONS = ["the per-interval suprema are read from the printed report, the only output of the computation"]


def fval(f, x):
    n = d = 0.0
    for a in f[0]:
        n = n * x + float(a)
    for a in f[1]:
        d = d * x + float(a)
    return n / d


def expr(A, B, x):
    """max of the two expressions at x (floats)"""
    a, b = fval(A, x), fval(B, x)
    return max(4 * x - 2 + 2 * (b * (1 - x) - 1) / (b - a), 4 * x - 2 + (b * (1 - x) - 1) / a)


def rand_A(r, I):
    for _ in range(200):
        k = r.random()
        if k < .2:
            f = [F(r.randint(16, 40), 10)], [F(1)]
        elif k < .8:
            f = [F(r.choice([2, 3, 3, 4, 9, 15]))], lin(r.choice([-1, 1, 3, 5, 7, 10]), r.choice([-7, -4, -1, 1, 2, 3]))
        else:
            f = lin(r.randint(-2, 1), r.randint(2, 5)), lin(r.choice([0, 1]), r.choice([1, 2]))
        f = trim(f[0]), trim(f[1])
        if f[0] and f[1] and not count_roots(f[1], I[0], I[1]) and not count_roots(f[0], I[0], I[1]) and at(f, I[0]) > 0:
            return f
    return [F(3)], [F(1)]


def above(f, g, I):
    """f > g on the closed interval (given no poles)"""
    p = padd(pmul(f[0], g[1]), pneg(pmul(g[0], f[1])))
    return p and not count_roots(p, I[0], I[1]) and at(f, I[0]) > at(g, I[0])


def interior(A, B, I):
    xs = [float(I[0]) + float(I[1] - I[0]) * i / 40 for i in range(1, 40)]
    vs = [expr(A, B, x) for x in xs]
    return max(vs[1:-1]) > max(vs[0], vs[-1]) + 1e-3


def pole(r, m):
    """the energy bound meets the density bound at an end of a piece, where the expression has a pole"""
    full = (H, F(1), True, False)
    A = rand_A(r, full)
    c = F(r.randint(41, 79), 80)
    left = r.random() < .5      # the pole is at the left end of [c, 1), or at the right end of [1/2, c)
    I = (c, F(1)) if left else (H, c)
    k = F(r.randint(1, 20), r.choice([1, 2, 3]))
    g = lin(k, -k * c) if left else lin(-k, k * c)
    B1 = padd(A[0], pmul(g, A[1])), A[1]
    B2 = [v * r.choice([2, 3]) for v in A[0]], A[1]
    J = (H, c) if left else (c, F(1))
    v = at(A, c) * (1 - c) - 1
    if v == 0 or not above(B2, A, J) or count_roots(B1[0], *I):
        return
    want = (c, "left" if left else "right", v > 0)
    judge(r, m, [(A, full)], [(B1, I + (True, False)), (B2, J + (True, False))], want)


def case(r, m):
    full = (H, F(1), True, False)
    for _ in range(60):
        As, Bs = inputs(r, full)
        if Bs and (r.random() < .1 or any(interior(A, B, (max(I[0], J[0]), min(I[1], J[1]))) for A, I in As for B, J in Bs if max(I[0], J[0]) < min(I[1], J[1]))):
            break
    if not Bs:
        return
    judge(r, m, As, Bs)


def inputs(r, full):
    As = [(rand_A(r, full), full)]
    for _ in range(r.choice([0, 0, 1, 2])):
        I = ival(r, False)[:2] + (True, False)
        As.append((rand_A(r, I), I))
    def short():
        """an interval of very small length, where something else is the best"""
        c = F(r.randint(205, 395), 400)
        return c, c + F(1, r.choice([10**4, 10**5, 3 * 10**5])) - F(1, 10**7), True, False
    if r.random() < .2:
        I = short()
        As.append((rand_A(r, I), I))
    Bs = []
    for t in range(100):
        f = rand_A(r, full)
        f = [v * r.choice([2, 3]) for v in f[0]], f[1]
        if all(above(f, A, I) for A, I in As):
            Bs.append((f, full))
            break
    if not Bs:
        return As, Bs
    for _ in range(r.choice([0, 0, 1, 2])):
        I = ival(r, False)[:2] + (True, False)
        f = rand_A(r, I)
        f = [v * r.choice([2, 3]) for v in f[0]], f[1]
        if all(above(f, A, (max(I[0], J[0]), min(I[1], J[1]))) for A, J in As if max(I[0], J[0]) < min(I[1], J[1])):
            Bs.append((f, I))
    if r.random() < .2:
        I = short()
        J = As[0][0]
        f = padd(J[0], pmul([F(r.choice([1, 2, 3]), 2)], J[1])), J[1]
        if all(above(f, A, (max(I[0], J[0]), min(I[1], J[1]))) for A, J in As if max(I[0], J[0]) < min(I[1], J[1])):
            Bs.append((f, I))
    return As, Bs


def judge(r, m, As, Bs, end=None):
    hs = [Hypothesis(f"a{i}", "Zero density estimate", zd.Zero_Density_Estimate(text(f), Interval(*I)), "", ref(r)) for i, (f, I) in enumerate(As)]
    hs += [Hypothesis(f"b{i}", "Zero density energy estimate", ze.Zero_Density_Energy_Estimate(text(f), Interval(*I)), "", ref(r)) for i, (f, I) in enumerate(Bs)]
    r.shuffle(hs)
    S = Hypothesis_Set(hs)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        res = pg.compute_gap2(S)
    out = []
    for line in buf.getvalue().splitlines():
        mt = re.match(r"^([\[(])(.+?),(.+?)([\])]) (-?[0-9.]+(?:e[+-]?[0-9]+)?|nan|inf|-inf) ", line)
        if mt:
            out.append((float(sympy.sympify(mt.group(2))), float(sympy.sympify(mt.group(3))), float(mt.group(5))))
    D = lambda: f"A {[(text(f), str(Interval(*I))) for f, I in As]} B {[(text(f), str(Interval(*I))) for f, I in Bs]}: reported {out}"
    m.ok("report", len(out) > 0, D)
    out.sort()
    m.ok("report_cover", out[0][0] == .5 and out[-1][1] == 1 and all(a[1] == b[0] for a, b in zip(out, out[1:])), D)

    def best(x):
        a = min(((fval(f, x), f) for f, I in As if I[0] <= x < I[1]), key=lambda t: t[0])[1]
        b = min(((fval(f, x), f) for f, I in Bs if I[0] <= x < I[1]), key=lambda t: t[0])[1]
        return a, b
    for lo, hi, v in out:
        if end and abs((lo if end[1] == "left" else hi) - float(end[0])) < 1e-12:
            m.count("poles")
            if end[2]:
                m.ok("pole", v == float("inf"), lambda: f"on [{lo},{hi}) reported {v}, but the expression is unbounded; {D()}")
                m.nontrivial(D())
                continue
        a, b = best((lo + hi) / 2)
        # the same functions must be the best throughout the interval
        n = 60
        xs = [lo + (hi - lo) * (i + .5) / n for i in range(n)] + [lo + (hi - lo) * 1e-7, hi - (hi - lo) * 1e-7]
        xs.sort()
        vals = [expr(*best(x), x) for x in xs]
        i = max(range(len(xs)), key=lambda j: vals[j])
        u, w = xs[max(0, i - 1)], xs[min(len(xs) - 1, i + 1)]
        for _ in range(60):        # refine: ternary search around the best sample
            p, q_ = u + (w - u) / 3, w - (w - u) / 3
            if expr(*best(p), p) < expr(*best(q_), q_):
                u = p
            else:
                w = q_
        sup = max(vals[i], expr(*best((u + w) / 2), (u + w) / 2))
        tol = 1e-5 * (1 + abs(sup))
        m.ok("never_below", v >= sup - tol, lambda: f"on [{lo},{hi}) reported {v}, but the expression reaches {sup} near {xs[i]}; {D()}")
        m.ok("attained", v <= sup + tol, lambda: f"on [{lo},{hi}) reported {v}, but the expression only reaches {sup}; {D()}")
        if 0 < i < len(xs) - 1:
            m.nontrivial(D())
            m.count("interior_maximum")
    m.ok("unchanged", set(S) == set(hs), D)
    m.sample(D())


SUITES = [
    Suite("gap", case, 80, 1500, need=["never_below", "attained"]),
    Suite("pole", pole, 60, 800, need=["never_below", "attained", "pole"]),
]
