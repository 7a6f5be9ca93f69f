"""C20: zeta large value estimates follow from their sources exactly."""
from vh import Suite
from checks.lvs import *
from checks.c17 import rand_beta, minval
from checks.c18 import rand_bounds
from fractions import Fraction as F

PROPERTY = "C20"
RULE = "random large value estimates, powers, exponential-sum bounds (all endpoint flags, pieces at 0 and on both sides of 1/2) and growth-exponent bounds; judged point by point for tau >= 2, near the line where the source starts to exclude; non-trivial when excluded and allowed points both occurred"


def inside(x):
    return H <= x[0] <= 1 and 2 <= x[1] <= BIG and x[2] >= 0


def judge(m, kind, h, has, pts, D):
    n = [0, 0]
    for x in pts:
        w, g = bool(has(x)), bool(h.data.region.contains(x))
        m.ok(kind, g == w, lambda: f"{[str(v) for v in x]}: contained {g}, want {w}; {D()}")
        n[w] += 1
    if n[0] and n[1]:
        m.nontrivial(D())


def case_lv(r, m):
    Bs = [rand_lv(r) for _ in range(r.choice([0, 1, 1, 2, 3]) if r.random() > .04 else r.randint(6, 9))]
    hs = dress(r, [lv_h(r, B) for B in Bs])
    ks = r.sample([2, 3, 4], r.choice([0, 0, 1, 2]))
    trs = [lv.raise_to_power_hypothesis(k) for k in ks]
    S = Hypothesis_Set(hs + trs)
    out = zlv.lv_to_zlv(S)
    D = lambda: f"bounds {[[[str(v) for v in b] for b in B] for B in Bs]} powers {ks}"
    m.eq("number", len(out), len(hs) * (1 + len(trs)), D)
    want = {(i, F(k)): 0 for i in range(len(hs)) for k in [1] + ks}
    for o in out:
        m.ok("cites", len(o.dependencies) == 1 and o.hypothesis_type == "Zeta large value estimate", D)
        d = next(iter(o.dependencies))
        if any(d is h for h in hs):
            i, k = next(j for j, h in enumerate(hs) if h is d), F(1)
            want[(i, k)] += 1
        else:
            m.ok("cites", len(d.dependencies) == 1, D)
            p = next(iter(d.dependencies))
            i = next((j for j, h in enumerate(hs) if h is p), None)
            m.ok("cites", i is not None, D)
            k = next((F(k) for k in ks if f"k = {k} power" in d.proof), None)
            if k is None:
                continue
            want[(i, k)] += 1
        B = Bs[i]
        pts = [[s, t * k, p * k] for s, t, p in lv_points(r, [B], 10)] + lv_points(r, [B], 6, tmax=4, tmin=F(1))
        judge(m, "lv", o, lambda x: x[1] >= 2 and lv_has(B, [x[0], x[1] / k, x[2] / k]), [x for x in pts if x[1] != 2], D)
    m.ok("unchanged", set(S) == set(hs + trs), D)
    for B, h in zip(Bs, hs):
        m.ok("unchanged", all(h.data.region.contains(x) == lv_has(B, x) for x in lv_points(r, [B], 3)), D)


def zpoints(r, lines, taus, n=12):
    """generic points near sigma = c + t*tau for (c, t) in lines and near the given taus"""
    out = []
    for _ in range(n):
        k = r.random()
        t = F(r.randint(200, 900), 100)
        if k < .35 and taus:
            t = F(r.choice(taus)) * (1 + F(r.choice([-1, 1]), r.choice([7, 50, 1000])))
            if r.random() < .2:     # next to a break point, with the line in between
                t0 = F(r.choice(taus))
                out += [(min(F(1), max(F(1, 2), c + a * t0 + F(e, 50))), t0 * (1 + F(f, 10**k)), F(1)) for c, a in lines for e in (-1, 1) for f in (-1, 1) for k in (9, 33)]
        elif k < .5:
            t = F(10) ** r.randint(1, 6) - F(r.randint(1, 9), 7)
        elif k < .6:
            t = 2 + F(r.randint(1, 50), 200)
        s = F(r.randint(50, 100), 100)
        if lines and r.random() < .75:
            c, a = r.choice(lines)
            if r.random() < .6 and a:      # choose tau so that the line is inside the strip
                tt = (s - c) / a
                if tt >= 2:
                    t = tt
            s = c + a * t
        s += F(r.choice([-1, 1]) * r.randint(1, 60), r.choice([601, 6007]))
        t += F(r.randint(1, 60), 60101)
        p = r.choice([F(0), F(1, 1000), t / 2, t - F(1, 500), t + F(1, 500), t * 2])
        if p == 0 and r.random() < .5:
            p = t / 3
        out.append([s, t, p])
    return out


def case_beta(r, m):
    bs = rand_beta(r, r.random() < .8) if r.random() < .6 else rand_bounds(r, r.choice([0, 1, 2, 3, 5]))
    bs = [tuple(b) for b in bs if b[2] < b[3]]
    if bs and r.random() < .2:
        # a range which starts so close to 0 that the second coordinate is limited by its own range
        i = r.randrange(len(bs))
        b = bs[i]
        if b[3] > F(1, 10**3):
            bs[i] = (b[0], b[1], F(1, r.choice([10**5, 10**6 + 1, 10**7, 10**9]))) + b[3:]
    hs = dress(r, [beta_h(r, b) for b in bs])
    S = Hypothesis_Set(hs)
    out = zlv.beta_to_zlv(S)
    D = lambda: f"bounds {[tuple(map(str, b)) for b in bs]}"
    lines = [(b[0], b[1]) for b in bs]
    taus = sorted({1 / x for b in bs for x in b[2:4] if x} | {F(2)})
    pts = [x for x in zpoints(r, lines, taus, 25)]
    # beyond the end of the range of the second coordinate
    pts += [[F(r.randint(51, 99), 100), BIG + e, p] for e in (F(1, 7), BIG / 3) for p in (F(0), F(1, 3), BIG / 2)]
    allowed = lambda x: inside(x) and x[2] <= x[1]

    def best(t):
        return minval(bs, 1 / t)
    for o in out:
        m.ok("cites", len(o.dependencies) == 1 and o.hypothesis_type == "Zeta large value estimate", D)
        d = next(iter(o.dependencies))
        f = d.data.bound
        src = d if any(d is h for h in hs) else (next(iter(d.dependencies)) if len(d.dependencies) == 1 else None)
        m.ok("cites", src is not None and any(src is h for h in hs), lambda: f"{d}; {D()}")
        lo, hi = f.domain.x0, f.domain.x1
        if lo == hi:
            continue

        def has(x):
            if not allowed(x):
                return False
            a = 1 / x[1]
            return not (lo <= a <= hi and x[0] > f.m + f.c * x[1]) or x[2] == 0
        judge(m, "beta_piece", o, has, pts, D)
    for x in pts:
        if not allowed(x) or x[2] == 0 or x[1] > BIG - 1:
            continue
        b = best(x[1])
        w = b is not None and x[0] > x[1] * b
        g = any(not o.data.region.contains(x) for o in out)
        m.ok("beta_all", g == w, lambda: f"{[str(v) for v in x]}: excluded {g}, want {w}; {D()}")
        m.count("excluded" if w else "allowed")
    m.ok("unchanged", set(S) == set(hs), D)


def case_mu(r, m):
    ms = [(F(r.randint(-2, 10), 10) if r.random() < .4 else F(r.randint(50, 100), 100), F(r.randint(0, 40), r.choice([60, 100, 200]))) for _ in range(r.choice([0, 1, 1, 2, 3]) if r.random() > .05 else r.randint(7, 15))]
    hs = dress(r, [mu_h(r, s, v) for s, v in ms])
    S = Hypothesis_Set(hs)
    out = zlv.mu_to_zlv(S)
    D = lambda: f"mu bounds {[(str(a), str(b)) for a, b in ms]}"
    m.eq("number", len(out), len(hs), D)
    cited = []
    for o in out:
        m.ok("cites", len(o.dependencies) == 1 and o.hypothesis_type == "Zeta large value estimate", D)
        d = next(iter(o.dependencies))
        i = next((j for j, h in enumerate(hs) if h is d), None)
        m.ok("cites", i is not None, D)
        cited.append(i)
        s0, v = ms[i]
        judge(m, "mu", o, lambda x: inside(x) and x[2] <= x[1] and (x[2] == 0 or not x[0] > s0 + x[1] * v), [x for x in zpoints(r, [(s0, v)], [], 16) if x[0] != s0 + x[1] * v], D)
        bad = disjoint(cells_of(o.data.region), 3)
        m.ok("mu_disjoint", bad is None, D)
    m.eq("number", sorted(cited), list(range(len(hs))), D)


def case_all(r, m):
    """the collected list contains every recorded and derived zeta estimate"""
    zs = dress(r, [zlv_h(r, rand_lv(r, 2)) for _ in range(r.randint(0, 2))])
    ls = dress(r, [lv_h(r, rand_lv(r)) for _ in range(r.randint(0, 2))])
    bs = [b for b in rand_beta(r)] if r.random() < .6 else []
    bh = dress(r, [beta_h(r, b) for b in bs])
    ks = r.sample([2, 3], r.choice([0, 1]))
    trs = [lv.raise_to_power_hypothesis(k) for k in ks]
    allh = zs + ls + bh + trs
    r.shuffle(allh)
    S = Hypothesis_Set(allh)
    out = zlv.compute_large_value_estimate(S)
    D = lambda: f"{len(zs)} zeta, {len(ls)} lv, powers {ks}, bounds {bs}"
    n1, n2 = len(zlv.lv_to_zlv(S)), len(zlv.beta_to_zlv(S))
    m.eq("all_number", len(out), len(zs) + n1 + n2, D)
    m.ok("all_members", all(any(o is z for o in out) for z in zs), D)
    roots = set()
    for o in out:
        st = [o]
        while st:
            h = st.pop()
            if any(h is x for x in allh):
                roots.add(id(h))
            st += list(h.dependencies)
    m.ok("all_members", all(id(h) in roots for h in zs + ls), D)
    m.ok("unchanged", set(S) == set(allh), D)
    m.nontrivial(D())
    t = zlv.get_trivial_zlv()
    for x in zpoints(r, [], [], 6):
        m.ok("trivial", bool(t.data.region.contains(x)) == (inside(x) and x[2] <= x[1]), lambda: str(x))


SUITES = [
    Suite("lv", case_lv, 250, 8000, need=["lv", "cites", "number"]),
    Suite("beta", case_beta, 400, 12000, need=["beta_piece", "beta_all"]),
    Suite("mu", case_mu, 400, 12000, need=["mu"]),
    Suite("all", case_all, 80, 2000, need=["all_number", "all_members", "trivial"]),
]
