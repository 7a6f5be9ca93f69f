"""Generators and adapters shared by the geometric checks."""
from fractions import Fraction as F
import itertools
from . import exact as E


FINE = .02


def q(r, lo=-3, hi=3, dens=(1, 1, 2, 3)):
    """random fraction; once in a while one with a large denominator, nudged towards the inside of the range"""
    n, d = r.randint(lo, hi), r.choice(dens)
    v = F(n, d)
    if r.random() < FINE:
        e = F(r.randint(1, 96), r.choice((97, 1009, 100003, 10 ** 9 + 7, 10 ** 18 + 9)) * d)
        v = v + e if n < 0 or (n == 0 < hi) else v - e if n > 0 else v
    return v


def tiny(r):
    """a difference which floating point arithmetic easily loses"""
    return F(r.choice([-1, 1]), 10 ** r.choice([9, 15, 16, 17, 18, 20, 30]))


def box_rows(lims):
    d = len(lims)
    rows = []
    for i, (a, b) in enumerate(lims):
        rows.append([-a] + [1 if j == i else 0 for j in range(d)])
        rows.append([b] + [-1 if j == i else 0 for j in range(d)])
    return rows


def rand_box(r, d, lo=-3, hi=3, dens=(1, 1, 2), degenerate=0.0):
    lims = []
    for _ in range(d):
        a, b = q(r, lo, hi, dens), q(r, lo, hi, dens)
        if a > b:
            a, b = b, a
        if a == b and r.random() >= degenerate:
            b = a + r.choice([F(1), F(1, 2)])
        lims.append((a, b))
    return lims


def cut(r, d, m=2):
    while True:
        g = [q(r, -m, m, (1, 1, 2))] + [r.choice([-2, -1, -1, 0, 0, 1, 1, 2]) for _ in range(d)]
        if any(g[1:]):
            return [F(v) for v in g]


def rand_bounded(r, d, cuts=3, full=True, tries=30):
    """bounded polytope rows (ineqs, []); full-dimensional if full"""
    for _ in range(tries):
        rows = box_rows(rand_box(r, d))
        for _ in range(r.randint(0, cuts)):
            rows.append(cut(r, d))
        P = ([[F(v) for v in g] for g in rows], [])
        r.shuffle(P[0])
        if not full or E.full_dim(P, d):
            return P
    return ([[F(v) for v in g] for g in box_rows([(F(0), F(1))] * d)], [])


def rand_any(r, d):
    """any polyhedron: unbounded, empty, lower-dimensional, with equalities, redundant rows"""
    k = r.random()
    if k < .35:
        P = rand_bounded(r, d, full=r.random() < .8)
    elif k < .6:
        P = ([cut(r, d) for _ in range(r.randint(1, d + 3))], [])
    elif k < .75:
        P = rand_bounded(r, d, cuts=1, full=False)
        P = (P[0], [cut(r, d) for _ in range(r.choice([1, 1, 2]))])
    elif k < .82:
        P = ([], [cut(r, d) for _ in range(r.choice([1, 1, 2]))])
    elif k < .9:   # implicit equality or empty by opposite rows
        g = cut(r, d)
        h = [-v for v in g]
        h[0] += r.choice([0, 0, 0, -1, 1])
        P = rand_bounded(r, d, cuts=1, full=False)
        P = (P[0] + [g, h], [])
    else:          # half spaces only
        P = ([cut(r, d) for _ in range(r.choice([1, 1, 2]))], [])
    if P[0] and r.random() < .3:
        g = r.choice(P[0])
        f = r.choice([F(1), F(2), F(1, 3)])
        g = [v * f for v in g]
        if r.random() < .5:
            g[0] += 1
        P = (P[0] + [g], P[1])
    return P


def related(r, P, d):
    """a polyhedron related to P: subset, superset, translate, neighbour"""
    k = r.random()
    iq, eq = [list(g) for g in P[0]], [list(g) for g in P[1]]
    if k < .3 and iq:
        i = r.randrange(len(iq))
        iq[i][0] += r.choice([-1, F(-1, 2), F(1, 2), 1]) if r.random() < .9 else tiny(r)
    elif k < .5:
        iq.append(cut(r, d))
    elif k < .65 and len(iq) > 1:
        iq.pop(r.randrange(len(iq)))
    elif k < .8 and iq:
        g = [-v for v in r.choice(iq)]
        iq = [g] + box_rows(rand_box(r, d))
        iq = [[F(v) for v in g] for g in iq]
    else:
        iq = [[v * 2 for v in g] for g in iq]
    return (iq, eq)


def mk(Polytope, P, r=None):
    """build the real polytope through the public constructor"""
    iq, eq = P
    if iq and eq:
        if r is not None and r.random() < .5:
            return Polytope([list(g) for g in eq], linear=True).intersect(Polytope([list(g) for g in iq]))
        return Polytope([list(g) for g in iq]).intersect(Polytope([list(g) for g in eq], linear=True))
    if eq:
        return Polytope([list(g) for g in eq], linear=True)
    if r is not None and r.random() < .2:
        return Polytope([list(g) for g in iq], canonicalize=True)
    return Polytope([list(g) for g in iq])


def hrep(p):
    """rows of a real polytope, read through its public constraint listing"""
    iq, eq = [], []
    for c in p.get_constraints():
        row = [F(v) for v in c.coefficients]
        if c.inequality_type == type(c).EQUALS:
            eq.append(row)
        else:
            iq.append(row)
    return (iq, eq)


def same_set(A, B, d):
    return E.subset(A, B, d) and E.subset(B, A, d)


def nonzero(P):
    return any(any(g[1:]) for g in P[0] + P[1])


def pts_for(r, Ps, d, n=8):
    """probe points: vertices of random row subsets, midpoints, interior points, random points"""
    rows = [g for P in Ps for g in P[0] + P[1] if any(g[1:])]
    out = []
    for _ in range(n):
        if len(rows) >= d:
            sel = r.sample(rows, d)
            x = E.solve([g[1:] for g in sel], [-g[0] for g in sel])
            if x is not None:
                out.append(x)
                for _ in range(2):
                    out.append([v + F(r.randint(-2, 2), r.choice([7, 11, 100])) for v in x])
    if len(out) > 2:
        a, b = r.sample(out, 2)
        out.append([(u + v) / 2 for u, v in zip(a, b)])
    for _ in range(3):
        out.append([F(r.randint(-30, 30), r.choice([1, 4, 10])) for _ in range(d)])
    return out


def generic(r, Ps, d, n=10):
    """probe points on no constraint hyperplane of any of Ps"""
    rows = [g for P in Ps for g in P[0] + P[1] if any(g[1:])]
    out = []
    for x in pts_for(r, Ps, d, n):
        x = [v + F(r.randint(-40, 40), 4001) for v in x]
        if all(E.ev(g, x) != 0 for g in rows):
            out.append(x)
    return out


def hull_rows(V, d):
    """inequalities of the hull of points spanning a full-dimensional set (brute force over d-subsets)"""
    rows, seen = [], set()
    for S in itertools.combinations(V, d):
        # a hyperplane through S: null vector of the (homogeneous) rows
        for k in range(d + 1):
            A = [[F(1)] + list(v) for v in S] + [[F(1) if j == k else F(0) for j in range(d + 1)]]
            g = E.solve(A, [F(0)] * d + [F(1)])
            if g is None or E.rank(A) < d + 1:
                continue
            val = [g[0] + sum(a * x for a, x in zip(g[1:], v)) for v in V]
            if all(x <= 0 for x in val):
                g, val = [-a for a in g], [-x for x in val]
            if all(x >= 0 for x in val) and any(val):
                piv = abs(next(a for a in g[::-1] if a))
                key = tuple(a / piv for a in g)
                if key not in seen:
                    seen.add(key)
                    rows.append(list(key))
            break
    return rows


def rand_hull(r, lims, n):
    """(rows, []) of the hull of n random points in a box, full-dimensional"""
    d = len(lims)
    while True:
        V = [tuple(q(r, a, b, (1, 1, 2)) for a, b in lims) for _ in range(n)]
        if E.rank([[F(1)] + list(v) for v in V]) == d + 1:
            return hull_rows(V, d), []
