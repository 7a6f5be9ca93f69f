"""Zero density style estimates: generators with exact model (num, den)."""
from fractions import Fraction as F
from sympy import Rational
import sympy
from vh.util import q, tiny
from checks.ratfn import *
from checks.hyp import *
import zero_density_estimate as zd
import zero_density_energy_estimate as ze
from functions import Interval, RationalFunction as RF
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference

H = F(1, 2)


def R_(v):
    return Rational(v.numerator, v.denominator)


def ival(r, left=True):
    if left and r.random() < .08:
        # useless in, or reaching into, the critical range from the left
        return r.choice([(F(1, 4), F(1, 3)), (F(1, 3), H), (F(0), F(3, 4)), (F(1, 3), F(3, 5)), (F(2, 5), F(1))]) + (r.random() < .8, r.random() < .3)
    while True:
        a, b = [r.choice([H, F(1), F(3, 4), F(7, 10), F(5, 6), F(r.randint(20, 40), 40)]) for _ in "ab"]
        if a > b:
            a, b = b, a
        if a < b:
            return a, b, r.random() < .8, r.random() < .3


def lin(a, b):
    return [F(a), F(b)]


def rand_est(r, I, base=None):
    """(num, den) pole-free on the closure of I (except possibly the open right end 1), positive"""
    for _ in range(200):
        k = r.random()
        if base is not None and k < .15:
            f = base
            if r.random() < .15:     # hardly different
                f = padd(base[0], pmul([tiny(r)], base[1])), base[1]
        elif base is not None and k < .3:        # crosses the other at a point of (1/2, 1)
            s = F(r.randint(11, 19), 20)
            f = padd(base[0], pmul(pmul([F(r.choice([-2, -1, 1, 2]))], lin(1, -s)), base[1])), base[1]
        elif k < .45:
            f = [F(r.randint(1, 40), 10)], [F(1)]
        elif k < .85:
            f = [F(r.choice([2, 3, 3, 4, 9, 15, 24]))], lin(r.choice([-1, 0, 1, 3, 5, 7, 10]), r.choice([-7, -4, -1, 1, 2, 3, 8]))
        elif k < .95:
            f = lin(r.randint(-3, 6), r.randint(0, 8)), lin(r.choice([0, 1, 2, 3]), r.choice([1, 2, -1]))
        else:
            f = [F(r.randint(1, 3)), F(r.randint(-4, 2)), F(r.randint(2, 5))], [F(1)]
        f = trim(f[0]), trim(f[1])
        if f[0] and f[1] and count_roots(f[1], I[0], I[1]) == 0 and len(f[0]) < 4 and len(f[1]) < 4:
            return f
    return [F(3)], [F(1)]


def text(f, r=None):
    n = lambda c: " + ".join(f"({a}) * x**{len(c) - 1 - i}" if len(c) - 1 - i else f"({a})" for i, a in enumerate(c))
    return f"({n(f[0])}) / ({n(f[1])})"


def rf(f):
    return RF(list(f[0]), list(f[1]))


def inside(I, x):
    return (I[0] < x or (I[2] and I[0] == x)) and (x < I[1] or (I[3] and x == I[1]))


def judge_points(r, fs, n=3):
    """rational points on both sides of every crossing and every end (fs = [((num, den), I)])"""
    ends = sorted({H, F(1)} | {e for _, I in fs for e in I[:2] if H < e < 1})
    pts, w = [], F(1, 10**8)
    for a, b in zip(ends, ends[1:]):
        cuts = []
        act = [f for f, I in fs if I[0] <= a and b <= I[1]]
        for i in range(len(act)):
            for j in range(i):
                p = padd(pmul(act[i][0], act[j][1]), pneg(pmul(act[j][0], act[i][1])))
                if p:
                    cuts += [refine(p, lo, hi, w / 4) for lo, hi in isolate(p, a, b)]
        pts += [(a + b) / 2, a + (b - a) * F(r.randint(1, 96), 97), a + (b - a) / 10**6, b - (b - a) / 10**6]
        for lo, hi in cuts:
            pts += [x for x in (lo - w, hi + w) if a < x < b]
    return [x for x in pts if x not in ends]
