"""Exact models shared by C14-C18: convex envelopes, exponent pair transforms, proof validation."""
from fractions import Fraction as F

H = F(1, 2)


def tA(p):
    k, l = p
    return k / (2 * k + 2), H + l / (2 * k + 2)


def tB(p):
    k, l = p
    return l - H, k + H


def tC(p):
    k, l = p
    return k / (12 * (1 + 4 * k)), (11 * (1 + 4 * k) + l) / (12 * (1 + 4 * k))


TR = {"A": tA, "B": tB, "C": tC}


def mix(p, o, t):
    """the point at t of the way from p to o"""
    return tuple(x + (y - x) * t for x, y in zip(p, o))


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def lower(pts):
    """lower hull, left to right (strict vertices)"""
    best = {}
    for x, y in pts:
        if x not in best or y < best[x]:
            best[x] = y
    out = []
    for p in sorted(best.items()):
        while len(out) > 1 and cross(out[-2], out[-1], p) <= 0:
            out.pop()
        out.append(p)
    return out


def hull(pts):
    """set of vertices of the convex hull"""
    pts = sorted(set(pts))
    if len(pts) < 3:
        return set(pts)
    def half(ps):
        o = []
        for p in ps:
            while len(o) > 1 and cross(o[-2], o[-1], p) <= 0:
                o.pop()
            o.append(p)
        return o
    return set(half(pts)) | set(half(pts[::-1]))


def in_hull(p, pts):
    """p in the convex hull of pts (exact)"""
    V = list(hull(list(pts)))
    if p in V:
        return True
    W = hull(V + [p])
    return p not in W


def envelope(pts, x):
    """value at x of the lower convex envelope, or None outside"""
    L = lower(pts)
    for a, b in zip(L, L[1:]):
        if a[0] <= x <= b[0]:
            return a[1] + (b[1] - a[1]) * (x - a[0]) / (b[0] - a[0])
    if len(L) == 1 and L[0][0] == x:
        return L[0][1]
    return None


def words(pairs, trs, n, prune=False, cap=4000):
    """pairs reachable by at most n transform applications"""
    seen = set(pairs)
    front = set(pairs)
    for _ in range(n):
        new = {TR[t](p) for p in front for t in trs} - seen
        if not new:
            break
        seen |= new
        if prune:
            seen = hull(list(seen))
            front = seen
        else:
            front = new
        if len(seen) > cap:
            break
    return seen


def rounds(pairs, trs, n):
    """hull of the pairs reachable by words of length at most n, with exact pruning (transforms are projective)"""
    S = hull(list(pairs))
    for _ in range(n):
        T = hull(list(S | {TR[t](p) for p in S for t in trs}))
        if T == S:
            break
        S = T
    return S


def rand_pair(r, lit=False):
    """a pair in the admissible triangle 0 <= k <= 1/2 <= l <= 1, k + l <= 1"""
    while True:
        d = r.choice([6, 12, 14, 20, 30, 84, 205])
        k, l = F(r.randint(0, d // 2), d), F(r.randint((d + 1) // 2, d), d)
        if k + l <= 1:
            return k, l
