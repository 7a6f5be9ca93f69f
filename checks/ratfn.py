"""Exact model of univariate rational functions: (num, den) lists of Fractions, highest degree first."""
from fractions import Fraction as F


def ev(c, x):
    v = F(0)
    for a in c:
        v = v * x + a
    return v


def trim(c):
    i = 0
    while i < len(c) and c[i] == 0:
        i += 1
    return list(c[i:])


def padd(a, b):
    n = max(len(a), len(b))
    a, b = [F(0)] * (n - len(a)) + list(a), [F(0)] * (n - len(b)) + list(b)
    return trim([u + v for u, v in zip(a, b)])


def pmul(a, b):
    if not a or not b:
        return []
    c = [F(0)] * (len(a) + len(b) - 1)
    for i, u in enumerate(a):
        for j, v in enumerate(b):
            c[i + j] += u * v
    return trim(c)


def pneg(a):
    return [-u for u in a]


def same(f, g):
    """equality in the field"""
    return not padd(pmul(f[0], g[1]), pneg(pmul(g[0], f[1])))


def at(f, x):
    """value, or None at a zero of the denominator"""
    d = ev(f[1], x)
    return None if d == 0 else ev(f[0], x) / d


def deriv(c):
    n = len(c) - 1
    return trim([a * (n - i) for i, a in enumerate(c[:-1])])


def pdivmod(a, b):
    a, q = list(a), []
    b = trim(b)
    while len(a) >= len(b):
        k = a[0] / b[0]
        q.append(k)
        for i in range(len(b)):
            a[i] -= k * b[i]
        a.pop(0)
    return q, trim(a)


def sturm(p):
    s = [trim(p)]
    d = deriv(s[0])
    if d:
        s.append(d)
        while True:
            r = pneg(pdivmod(s[-2], s[-1])[1])
            if not r:
                break
            s.append(r)
    return s


def variations(s, x):
    sg = [v for v in (ev(c, x) for c in s) if v != 0]
    return sum(1 for a, b in zip(sg, sg[1:]) if (a < 0) != (b < 0))


def count_roots(p, a, b):
    """number of distinct real roots of p (nonzero) in the closed interval [a, b]"""
    p = trim(p)
    if not p or len(p) == 1:
        return 0
    ex = int(ev(p, a) == 0)
    if a == b:
        return ex
    # count in (a, b]: Sturm needs nonzero endpoints of the square-free part; shift slightly is avoided by dividing roots out
    q = p
    n = 0
    for e in {a, b}:
        if ev(q, e) == 0:
            n += 1
            while ev(q, e) == 0:
                q = pdivmod(q, [F(1), -e])[0]
                q = trim(q)
    if len(q) <= 1:
        return n
    s = sturm(q)
    return n + variations(s, a) - variations(s, b)


def isolate(p, a, b):
    """list of (lo, hi) closed rational intervals, each with exactly one distinct root of p in [a, b]; exact roots have lo == hi"""
    n = count_roots(p, a, b)
    if n == 0:
        return []
    if n == 1:
        if ev(p, a) == 0:
            return [(a, a)]
        if ev(p, b) == 0:
            return [(b, b)]
        return [(a, b)]
    m = (a + b) / 2
    if ev(p, m) == 0:
        e = (b - a) / 4
        while count_roots(p, m - e, m + e) > 1:
            e /= 2
        return isolate(p, a, m - e) + [(m, m)] + isolate(p, m + e, b)
    return isolate(p, a, m) + isolate(p, m, b)


def refine(p, lo, hi, w):
    """shrink an isolating interval below width w"""
    while hi - lo > w:
        m = (lo + hi) / 2
        if ev(p, m) == 0:
            return m, m
        if count_roots(p, lo, m):
            hi = m
        else:
            lo = m
    return lo, hi
