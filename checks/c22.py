"""C22: zero density bounds derived from large value regions equal the exact suprema."""
from vh import Suite
from vh.util import tiny
from checks.lvs import *
from checks.c17 import rand_beta, minval
import zero_density_estimate as zd
import additive_energy as ad
import contextlib, io
from functions import Interval, Affine
from sympy import Rational

PROPERTY = "C22"
RULE = "random unions of bounded polytopes with positive second coordinate, and random collections of estimates, powers, zeta estimates and exponential-sum bounds with constant and varying choices of the splitting parameter; the supremum is recomputed exactly on slices at random abscissae; non-trivial when the supremum is positive"
ASSUMPTIONS = ["judged at abscissae off the finitely many breakpoints"]


def R_(v):
    return Rational(v.numerator, v.denominator)


def slice_sup(P, s):
    """max of rho/tau over the slice sigma = s of a bounded polytope, or None"""
    iq = [[g[0] + g[1] * s, g[2], g[3]] for g in P[0]]
    vs = E.vertices((iq, []), 2)
    return max((v[1] / v[0] for v in vs), default=None)


def grid(r, lo, hi, n, extra=()):
    out = []
    for _ in range(n):
        out.append(lo + (hi - lo) * F(r.randint(1, 9972), 9973))
    for e in extra:
        for s in (-1, 1):
            x = e + s * (hi - lo) * F(r.choice([1, 7]), 7919)
            if lo < x < hi:
                out.append(x)
    return out


def case_sup(r, m):
    polys = []
    for _ in range(r.choice([1, 1, 2, 3, 4]) if r.random() > .05 else r.randint(7, 10)):
        for _ in range(30):
            if r.random() < .4:
                P = rand_hull(r, [(-2, 2), (1, 4), (0, 4)], r.choice([4, 4, 5, 6]))
            else:
                P = rand_bounded(r, 3, cuts=r.choice([0, 1, 2, 3]))
            P = ([[F(v) for v in g] for g in P[0]], [])
            # tau bounded away from zero, rho >= 0, sigma in a bounded range
            P[0].extend([[F(-1, 2), F(0), F(1), F(0)], [F(0), F(0), F(0), F(1)]])
            if r.random() < .12:     # rho = 0 throughout
                P[0].append([F(0), F(0), F(0), F(-1)])
                if len({v[0] for v in E.vertices(P, 3)}) > 1:
                    polys.append(P)
                    break
            elif E.full_dim(P, 3):
                polys.append(P)
                break
        if polys and r.random() < .15:      # a slightly larger or smaller copy of the last cell
            e = tiny(r)
            P = ([[g[0] + e if g[3] < 0 else g[0]] + g[1:] for g in polys[-1][0]], [])
            if E.full_dim(P, 3):
                polys.append(P)
    if not polys:
        return
    lo, hi = sorted([q(r, -2, 2), q(r, -2, 2)])
    if lo == hi:
        hi = lo + 1
    I = Interval(lo, hi)
    objs = [mk(Polytope, P) for P in polys]
    before = [hrep(o) for o in objs]
    res = zd.compute_sup_rho_on_tau(objs, I)
    ends = [v[0] for P in polys for v in E.vertices(P, 3)]
    D = lambda: f"{[show(P) for P in polys]} on {I}: {[(str(p[0]), str(p[1])) for p in res]}"
    for s in grid(r, lo, hi, 6, r.sample(ends, min(4, len(ends)))):
        if s in ends:
            continue
        w = [x for x in (slice_sup(P, s) for P in polys) if x is not None]
        hit = [p for p in res if p[1].contains(s)]
        if not w:
            m.ok("sup_undefined", all(p[0].at(s) < -1000 for p in hit), lambda: f"{s}: {D()}")
            continue
        m.ok("sup_cover", len(hit) == 1, lambda: f"{len(hit)} pieces at {s}: {D()}")
        g = hit[0][0].at(s)
        m.ok("sup", g == R_(max(w)), lambda: f"at {s}: {g}, want {max(w)}; {D()}")
        if max(w) > 0:
            m.nontrivial(D())
    m.ok("unchanged", same_cells([hrep(o) for o in objs], before, 3), D)
    m.sample(D())


def line_sup(s, fs, a, b, extra=()):
    """sup of f(t)/t over t in [a, b] with f >= 0, where f = min of the functions fs; each is piecewise affine
    with breakpoints among the crossings of its lines: fs = list of (lines [(c, m)], eval).  None if f < 0."""
    lines = {(F(0), F(0))} | {l for ls, _ in fs for l in ls}
    ts = {a, b} | {t for t in extra if a < t < b}
    ls = list(lines)
    for i in range(len(ls)):
        for j in range(i):
            if ls[i][1] != ls[j][1]:
                t = (ls[j][0] - ls[i][0]) / (ls[i][1] - ls[j][1])
                if a < t < b:
                    ts.add(t)
    ts = sorted(ts)
    best = None
    f = lambda t: min([g(t) for _, g in fs] + [BIG])
    for u, v in zip(ts, ts[1:]):
        x, y = (2 * u + v) / 3, (u + 2 * v) / 3
        fx, fy = f(x), f(y)
        mm = (fy - fx) / (y - x)
        for t in (u, v):
            val = fx + mm * (t - x)
            if val >= 0 and fx > 0:
                best = val / t if best is None else max(best, val / t)
            elif fx == 0 == fy:
                best = F(0) if best is None else max(best, F(0))
    return best


def lvf(B, s, k=F(1)):
    ls = [((b[0] + b[1] * s) * k, b[2]) for b in B]
    return ls, lambda t: max(c + mm * t for c, mm in ls)


def rand_set(r):
    Bs = [rand_lv(r, r.choice([1, 2])) for _ in range(r.choice([0, 0, 1, 1, 2]))] + [[list(b) for b in L2]]
    if r.random() < .1:
        Bs.pop()
    ks = r.sample([2, 3], r.choice([0, 0, 1]))
    Zs = [rand_lv(r, r.choice([1, 2])) for _ in range(r.choice([0, 0, 1]))]
    bs = rand_beta(r) if r.random() < .5 else []
    bs = [b for b in bs if b[2] < b[3]]
    force = r.random() < .25     # the zeta estimates decide, and come from several kinds of sources
    if force:
        Bs.append([[F(2), F(-2), F(0)]])
        Zs = Zs or [rand_lv(r, 2)]
        bs = bs or [b for b in rand_beta(r) if b[2] < b[3]]
    allh = dress(r, [lv_h(r, B) for B in Bs] + [zlv_h(r, B) for B in Zs] + [beta_h(r, b) for b in bs], .8 if force else .15) + [lv.raise_to_power_hypothesis(k) for k in ks]
    r.shuffle(allh)
    return Hypothesis_Set(allh), allh, Bs, ks, Zs, bs


def oracle(s, Bs, ks, Zs, bs, lim1, lim2):
    allB = [lvf(B, s) for B in Bs] + [lvf(B, s, F(k)) for B in Bs for k in ks]
    a = line_sup(s, allB, *lim1)
    z = allB + [lvf(B, s) for B in Zs]
    extra = []
    if bs:
        extra = [1 / x for b in bs for x in b[2:4] if x] + [(s - b[0]) / b[1] for b in bs if b[1]]
        # crossings of two bounds
        for i in range(len(bs)):
            for j in range(i):
                if bs[i][1] != bs[j][1]:
                    extra.append((bs[j][0] - bs[i][0]) / (bs[i][1] - bs[j][1]))

        def zb(t):
            v = minval(bs, 1 / t) if t >= 2 else None
            return F(0) if v is not None and s > t * v else t
        z = z + [([(F(0), F(1))], zb)]
    b = line_sup(s, z, *lim2, extra=extra)
    return a, b


def judge(m, r, kind, out, s, w, D):
    hit = [h for h in out if h.data.interval.contains(s)]
    v = max([x for x in w if x is not None], default=None)
    if v is None:
        m.count("no_feasible_tuple")
        m.ok(kind + "_none", all(h.data.at(s) <= 0 for h in hit), lambda: f"at {s}; {D()}")
        return
    m.ok(kind + "_cover", len(hit) == 1, lambda: f"{len(hit)} estimates at {s}, want {v / (1 - s)}; {D()}")
    g = hit[0].data.at(s)
    if v == 0:
        m.ok(kind, g <= 0, lambda: f"at {s}: {g}, want 0; {D()}")
        return
    m.ok(kind, g == R_(v / (1 - s)), lambda: f"at {s}: {g}, want {v / (1 - s)} (sup {w}); {D()}")
    m.nontrivial(D())


def common(m, out, S, allh, Bs, D):
    for h in out:
        m.ok("type", h.hypothesis_type == "Zero density estimate" and h.data.interval.x0 < h.data.interval.x1, D)
        st, seen = list(h.dependencies), set()
        m.ok("cites", len(st) > 0, D)
        while st:
            d = st.pop()
            if id(d) in seen:
                continue
            seen.add(id(d))
            if any(d is x for x in allh):
                m.ok("cites", True)
                continue
            if not d.dependencies:
                m.ok("cites", any(d is x for x in allh) or (d.reference.is_derived() and not Bs), lambda: f"{d.desc()} is not in the collection; {D()}")
            st += list(d.dependencies)
    m.ok("unchanged", set(S) == set(allh) and len(S) == len(set(allh)), D)


def case_zd(r, m):
    S, allh, Bs, ks, Zs, bs = rand_set(r)
    lo = F(r.choice([50, 55, 60, 70, 75, 80]), 100)
    hi = min(F(99, 100) if r.random() < .7 else F(1), lo + F(r.choice([5, 10, 25]), 100))
    t0 = r.choice([F(3), F(3), F(2), F(4), F(5, 2)])
    I = Interval(lo, hi)
    out = zd.lv_zlv_to_zd(S, I, t0) if r.random() < .9 or t0 != 3 else zd.lv_zlv_to_zd(S, I)
    D = lambda: f"estimates {[[[str(v) for v in b] for b in B] for B in Bs]} powers {ks} zeta {[[[str(v) for v in b] for b in B] for B in Zs]} beta {[tuple(map(str, b[:4])) for b in bs]} on {I} tau0 {t0}: {[str(h.data) for h in out]}"
    for s in grid(r, lo, hi, 6, [h.data.interval.x0 for h in out if isinstance(h.data.interval.x0, F)][:3]):
        a, b = oracle(s, Bs, ks, Zs, bs, (t0, 2 * t0), (F(2), t0))
        if t0 == 2:
            b = None
        judge(m, r, "zd", out, s, (a, b), D)
    common(m, out, S, allh, Bs, D)
    m.sample(D())


def case_zd2(r, m):
    S, allh, Bs, ks, Zs, bs = rand_set(r)
    lo = F(r.choice([50, 55, 60, 70, 75, 80]), 100)
    hi = min(F(99, 100), lo + F(r.choice([5, 10, 20]), 100))
    mm = r.choice([F(-2), F(-1), F(0), F(1), F(3), F(4)])
    c = r.choice([F(2), F(3), F(5, 2)]) - min(mm * lo, mm * hi)
    tau0 = Affine(mm, c, Interval(lo, hi))
    I = Interval(lo, hi)
    out = zd.lv_zlv_to_zd2(S, I, tau0)
    D = lambda: f"estimates {[[[str(v) for v in b] for b in B] for B in Bs]} powers {ks} zeta {[[[str(v) for v in b] for b in B] for B in Zs]} beta {[tuple(map(str, b[:4])) for b in bs]} on {I} tau0 {tau0}: {[str(h.data) for h in out]}"
    for s in grid(r, lo, hi, 6):
        t = mm * s + c
        a, b = oracle(s, Bs, ks, Zs, bs, (t * F(2, 3), t), (F(2), t * F(4, 3)))
        judge(m, r, "zd2", out, s, (a, b), D)
    common(m, out, S, allh, Bs, D)


def ratio(P, s):
    """max rho/tau over a cell of (sigma, tau, rho, ...) at sigma = s, where tau > 0 (Charnes-Cooper); None if empty"""
    n = len(P[0][0]) - 1
    rows = [[F(0), g[0] + g[1] * s] + list(g[2:]) for g in P[0]] + [[F(0), F(1)] + [F(0)] * (n - 1)]
    eq = [[F(-1), F(0), F(1)] + [F(0)] * (n - 2)]
    st, v = E.lp_max([F(0), F(0), F(1)] + [F(0)] * (n - 3), rows, eq)[:2]
    return v if st == E.OPTIMAL else None


def case_energy_zd(r, m):
    """from large value energy regions in (sigma, tau, rho, rho*, s)"""
    lo = F(r.choice([50, 60, 70, 75]), 100)
    hi = lo + F(r.choice([5, 10, 20]), 100)
    sides, hyps = [], []
    for z in (False, True):
        if r.random() < (.15 if not z else .3) and not (z and hyps == [None]):
            sides.append([]), hyps.append(None)
            continue
        cells = []
        for _ in range(r.choice([1, 1, 2, 3])):
            for _ in range(20):
                s0, s1 = sorted([F(r.randint(10, 20), 20), F(r.randint(10, 20), 20)])
                if s0 == s1:
                    s1 += F(1, 5)
                if r.random() < .5:
                    s0, s1 = F(1, 2), F(1)
                rows = box_rows([(s0, s1), (F(r.choice([1, 2])), F(r.choice([3, 4]))), (F(0), F(r.choice([1, 2]))), (F(0), F(4)), (F(0), F(4))])
                for _ in range(r.choice([0, 1, 2])):
                    rows.append([q(r, -1, 4)] + [q(r, -3, 3) for _ in range(5)])
                P = ([[F(v) for v in g] for g in rows], [])
                if E.full_dim(P, 5):
                    cells.append(P)
                    break
        kids = [Region.from_polytope(mk(Polytope, P)) for P in cells]
        reg = Region.union(kids) if r.random() < .5 else Region.disjoint_union(kids)
        t = "Zeta large value energy region" if z else "Large value energy region"
        h = Hypothesis("region", t, ad.Large_Value_Energy_Region(reg), "", ref(r))
        h.dependencies = {pair_h(r, rand_pair(r)) for _ in range(r.choice([1, 2]))}
        sides.append(cells), hyps.append(h)
    if not any(sides):
        return
    I = Interval(lo, hi)
    before = [cells_of(h.data.region) for h in hyps if h]
    with contextlib.redirect_stdout(io.StringIO()):
        out = zd.lver_to_zd(hyps[0], hyps[1], I)
    D = lambda: f"{[[show(P) for P in c] for c in sides]} on {I}: {[str(h.data) for h in out]}"
    for s in grid(r, lo, hi, 4, [v for c in sides for P in c for v in {-g[0] / g[1] for g in P[0] if g[1] and not any(g[2:])} if lo < v < hi][:3]):
        w = [ratio(P, s) for c in sides for P in c]
        v = max([x for x in w if x is not None], default=None)
        hit = [h for h in out if h.data.interval.contains(s)]
        if v is None:
            m.ok("ezd_none", all(h.data.at(s) < -1000 for h in hit), lambda: f"at {s}: {D()}")
            continue
        m.ok("ezd_cover", len(hit) == 1, lambda: f"{len(hit)} at {s}: {D()}")
        m.ok("ezd", hit[0].data.at(s) == R_(v / (1 - s)), lambda: f"at {s}: {hit[0].data.at(s)}, want {v / (1 - s)}; {D()}")
        if v > 0:
            m.nontrivial(D())
    src = {id(d) for h in hyps if h for d in h.dependencies} | {id(h) for h in hyps if h}
    for h in out:
        m.ok("ezd_cites", h.hypothesis_type == "Zero density estimate" and h.dependencies and all(id(d) in src for d in h.dependencies), D)
    m.ok("unchanged", all(same_cells(cells_of(h.data.region), b, 5) for h, b in zip([h for h in hyps if h], before)), D)


SUITES = [
    Suite("energy_zd", case_energy_zd, 60, 1500, need=["ezd", "ezd_cites"]),
    Suite("sup", case_sup, 250, 6000, need=["sup", "sup_cover"]),
    Suite("zd", case_zd, 110, 3000, need=["zd", "zd_cover", "cites"]),
    Suite("zd2", case_zd2, 110, 3000, need=["zd2"]),
]
