"""Large value estimates: own exact semantics of the objects the real code builds, and generators."""
from fractions import Fraction as F
from vh import exact as E
from vh.util import *
from checks.geo import show, inter
from checks.hyp import *
import large_values as lv
import zeta_large_values as zlv
from hypotheses import Hypothesis, Hypothesis_Set
from region import Region, Region_Type
from polytope import Polytope

BIG = F(10**6)
BASE = [[F(v) for v in g] for g in [[-H, 1, 0, 0], [1, -1, 0, 0], [0, 0, 1, 0], [BIG, 0, -1, 0], [0, 0, 0, 1], [BIG, 0, 0, -1]]]
L2 = [[F(2), F(-2), F(0)], [F(1), F(-2), F(1)]]


def rand_lv(r, n=None):
    """affine bounds [c, s, t] of the size real ones have (and odd ones)"""
    n = n or r.choice([1, 1, 2, 2, 3, 4])
    out = []
    for _ in range(n):
        k = r.random()
        if k < .55:
            s = r.choice([-2, -2, -4, -6, -8, -1, F(-3, 2), F(-12, 5)])
            b = [F(-s) * r.choice([1, 1, F(3, 4), F(1, 2), F(4, 5)]), F(s), r.choice([F(0), F(1), F(1), F(1, 2), F(1, 3), F(2)])]
        elif k < .7 and out:
            b = list(r.choice(out))
            b[0] += r.choice([0, F(1, 2), F(-1, 3)])
        else:
            b = [q(r, -2, 4), q(r, -4, 3), q(r, -1, 2)]
        out.append([F(v) for v in b])
    return out


def lv_has(bounds, x):
    s, t, p = x
    return H <= s <= 1 and 0 <= t <= BIG and 0 <= p <= BIG and any(p <= b[0] + b[1] * s + b[2] * t for b in bounds)


def lv_h(r, bounds, year=None):
    rf = ref(r) if year is None else Reference.make("Able", year)
    return lv.literature_bound_LV_max([list(b) for b in bounds], rf)


def zlv_h(r, bounds):
    return zlv.literature_bound_ZLV_Max([list(b) for b in bounds], ref(r))


def lv_cells(bounds):
    """covering cells (rows), closed"""
    return [(BASE + [[b[0], b[1], b[2], F(-1)]], []) for b in bounds]


def lv_points(r, Bs, n=14, tmax=6, tmin=F(0)):
    """generic points near the faces and intersections of several bounds"""
    rows = [[b[0], b[1], b[2], F(-1)] for B in Bs for b in B]
    out = []
    for _ in range(n):
        k = r.random()
        s = F(r.randint(50, 100), 100) + F(r.randint(-60, 60), 6007)
        t = (F(r.randint(int(tmin * 100), tmax * 100), 100) if k < .8 else F(10) ** r.randint(1, 6) - F(r.randint(0, 9), 7)) + F(r.randint(1, 60), 6011)
        if k < .3 and len(rows) > 1:     # near where two bounds agree
            a, b = r.sample(rows, 2)
            d = [u - v for u, v in zip(a, b)]
            if d[2]:
                t = -(d[0] + d[1] * s) / d[2] + F(r.randint(-30, 30), 3001)
            elif d[1]:
                s = -d[0] / d[1] + F(r.randint(-30, 30), 3001)
        if rows and r.random() < .8:
            a = r.choice(rows)
            p = a[0] + a[1] * s + a[2] * t + F(r.choice([-1, 1]) * r.randint(1, 50), r.choice([60, 600, 7001]))
        else:
            p = F(r.randint(-10, 400), 101)
        out.append([s, t, p])
        if r.random() < .15:
            out.append([F(r.choice([49, 101]), 100), t, p])
        if r.random() < .1:
            out.append([s, t, F(-1, 50)])
    return out


def cells_of(region):
    """the polytopes of a (disjoint) union as rows"""
    if region.region_type == Region_Type.POLYTOPE:
        return [hrep(region.child)]
    return [c for x in region.child for c in cells_of(x)]


def disjoint(cs, d):
    for i in range(len(cs)):
        for j in range(i):
            if E.full_dim(inter(cs[i], cs[j]), d):
                return cs[i], cs[j]
    return None


def same_cells(A, B, d):
    return len(A) == len(B) and all(x == y or same_set(x, y, d) for x, y in zip(A, B))


def labels_of(region):
    if region.region_type == Region_Type.POLYTOPE:
        return [getattr(region.child, "label", None)]
    if region.region_type == Region_Type.COMPLEMENT:
        return labels_of(region.child)
    return [c for x in region.child for c in labels_of(x)]
