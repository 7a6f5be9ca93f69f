"""Large value energy regions: own semantics, generators."""
from checks.lvs import *
from checks.rg import proj_member, holds, subdivide
import additive_energy as ad

EBASE = []
for i, (a, b) in enumerate([(H, F(1)), (F(0), BIG), (F(0), BIG), (F(0), BIG), (F(0), BIG)]):
    e = [F(1) if j == i else F(0) for j in range(5)]
    EBASE += [[-a] + e, [b] + [-v for v in e]]


def ep_halfplanes(k, l):
    """rho* is allowed iff for some choice of the two maxima (as rows, >= 0)"""
    Q = 1 + 2 * k + 2 * l
    m1 = [[1, 0, 0, 1, 0, 0], [0, 0, F(1, 3), F(5, 3), 0, 0], [0, 0, (k + l) / Q, (2 + 3 * k + 4 * l) / Q, 0, 0]]
    m2 = [[1, 0, 0, 0, 1, 0], [0, 0, 0, 4, 0, 0], [0, 0, H, 1, F(3, 4), 0]]
    return [[F(z) + (F(u) + F(v)) / 2 for z, u, v in zip([1, -2, 0, 0, -1, 0], a, b)] for a in m1 for b in m2]


def ep_tree(k, l):
    return ("U", [("P", (EBASE + [g], [])) for g in ep_halfplanes(k, l)])


def lv_tree5(bounds):
    rows = lambda b: [[g[0], g[1], g[2], g[3], F(0), F(0)] for g in BASE] + [[F(0)] * 4 + [F(1), F(0)], [F(0)] * 5 + [F(1)], [BIG] + [F(0)] * 3 + [F(-1), F(0)], [BIG] + [F(0)] * 4 + [F(-1)]] + [[b[0], b[1], b[2], F(-1), F(0), F(0)]]
    return ("U", [("P", (rows(b), [])) for b in bounds])


def scaled(T, k):
    t, c = T
    if t == "P":
        return ("P", ([[g[0], g[1]] + [v / k for v in g[2:]] for g in c[0]], [[g[0], g[1]] + [v / k for v in g[2:]] for g in c[1]]))
    return (t, [scaled(x, k) for x in c])


def rand_region5(r):
    """a bounded region in 5 coordinates: disjoint union of a few cells of a box"""
    if r.random() < .2:      # slabs: cells that differ in the range of one or two coordinates only
        lims = [(H, F(1)), (F(0), F(r.choice([6, 8, 12]))), (F(0), F(r.choice([2, 4]))), (F(0), F(r.choice([4, 6]))), (F(0), F(r.choice([3, 5])))]
        i, j = r.sample(range(1, 5), 2)
        xs = sorted({lims[i][1] * F(a, 20) for a in r.sample(range(1, 20), r.randint(1, 4))} | {lims[i][0], lims[i][1]})
        cs = []
        for a, b in zip(xs, xs[1:]):
            l = list(lims)
            l[i] = (a, b)
            l[j] = (F(0), lims[j][1] * F(r.randint(1, 20), 20))
            cs.append(([[F(v) for v in g] for g in box_rows(l)], []))
        return ("D", [("P", c) for c in cs])
    rows = [[F(v) for v in g] for g in box_rows([(H, F(1)), (F(0), F(r.choice([6, 8, 12]))), (F(0), F(r.choice([2, 4]))), (F(0), F(r.choice([4, 6]))), (F(0), F(r.choice([3, 5])))])]
    for _ in range(r.choice([0, 1, 2])):
        g = [q(r, 0, 4)] + [r.choice([-2, -1, -1, 0, 0, 1]) for _ in range(5)]
        if any(g[1:]) and E.full_dim((rows + [[F(v) for v in g]], []), 5):
            rows.append([F(v) for v in g])
    cs = [(rows, [])]
    for _ in range(r.choice([0, 0, 1, 2])):
        c = cs.pop(r.randrange(len(cs)))
        g = [q(r, -3, 3)] + [r.choice([-2, -1, 0, 0, 1, 1]) for _ in range(5)]
        g = [F(v) for v in g]
        if not any(g[1:]):
            cs.append(c)
            continue
        cs += [x for x in ((c[0] + [g], []), (c[0] + [[-v for v in g]], [])) if E.full_dim(x, 5)]
    if len(cs) > 1 and r.random() < .6:
        cs.pop(r.randrange(len(cs)))
    return ("D", [("P", c) for c in cs])


def pts5(r, trees, n=10, tmax=8):
    """generic points near the faces"""
    from checks.rg import leaves
    rows = [g for T in trees for P in leaves(T) for g in P[0] if sum(1 for v in g[1:] if v) > 1]
    out = []
    for _ in range(n):
        x = [F(r.randint(50, 100), 100), F(r.randint(0, tmax * 50), 50), F(r.randint(0, 200), 100), F(r.randint(0, 400), 100), F(r.randint(0, 300), 100)]
        if rows and r.random() < .8:      # move onto a face along one coordinate
            g = r.choice(rows)
            js = [j for j in range(1, 5) if g[j + 1]]
            if js:
                j = r.choice(js)
                x[j] -= E.ev(g, x) / g[j + 1]
        x = [v + F(r.randint(-50, 50), r.choice([601, 6007])) for v in x]
        out.append(x)
    allrows = [g for T in trees for P in leaves(T) for g in P[0] + P[1] if any(g[1:])]
    return [x for x in out if all(E.ev(g, x) != 0 for g in allrows)]


def lver_h(r, T, zeta=False):
    from checks.rg import build
    f = ad.literature_zeta_large_value_energy_region if zeta else ad.literature_large_value_energy_region
    return f(build(T), ref(r))
