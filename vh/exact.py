"""Exact rational geometry, independent of the code under test (and of cddlib).

A closed polyhedron is (ineqs, eqs), rows [b, a1, ..., ad] standing for b + a.x >= 0 resp. = 0.
"""
from fractions import Fraction as F
from math import gcd

INFEASIBLE, UNBOUNDED, OPTIMAL = "infeasible", "unbounded", "optimal"


def _ints(row):
    """the row scaled by a positive number to coprime integers"""
    row = [v if isinstance(v, (int, F)) else F(v) for v in row]
    n = 1
    for v in row:
        d = v.denominator
        if n % d:
            n = n * d // gcd(n, d)
    row = [v.numerator * (n // v.denominator) for v in row]
    g = gcd(*row)
    return [v // g for v in row] if g > 1 else row


def _elim(row, pr, c):
    """row minus the multiple of pr that clears column c (pr[c] > 0), up to a positive factor"""
    p, f = pr[c], row[c]
    g = gcd(p, f)
    p, f = p // g, f // g
    row = [p * u - f * v for u, v in zip(row, pr)] if p != 1 else [u - f * v if v else u for u, v in zip(row, pr)]
    g = gcd(*row)
    return [v // g for v in row] if g > 1 else row


def _pivot(T, basis, r, c):
    if T[r][c] < 0:
        T[r] = [-v for v in T[r]]
    pr = T[r]
    for i, row in enumerate(T):
        if i != r and row[c]:
            T[i] = _elim(row, pr, c)
    basis[r] = c


def _simplex(T, basis, obj, ncols):
    """maximise; obj row is T[obj], reduced costs negative = improving. Bland's rule.
    Every row is an integer vector that stands for its positive multiples."""
    m = len(basis)
    while True:
        row = T[obj]
        c = next((j for j in range(ncols) if row[j] < 0), None)
        if c is None:
            return OPTIMAL
        r, bn, bd = None, None, None
        for i in range(m):
            a = T[i][c]
            if a > 0:
                x = T[i][-1]
                if r is None:
                    r, bn, bd = i, x, a
                else:
                    d = x * bd - bn * a
                    if d < 0 or (d == 0 and basis[i] < basis[r]):
                        r, bn, bd = i, x, a
        if r is None:
            return UNBOUNDED
        _pivot(T, basis, r, c)


def lp_max(c, ineqs, eqs=(), const=0):
    """max const + c.x subject to rows. Returns (status, value, x)."""
    d = len(c)
    ns = len(ineqs)
    n = 2 * d + ns
    T = []
    for k, (g, iq) in enumerate([(g, True) for g in ineqs] + [(g, False) for g in eqs]):
        # b + a.x - s = 0  ->  a.x - s = -b ; the slack may be scaled freely
        g = _ints(g)
        a, rhs = g[1:], -g[0]
        row = a + [-v for v in a] + [0] * ns
        if iq:
            row[2 * d + k] = -1
        if rhs < 0 or (rhs == 0 and iq):
            row = [-v for v in row]
            rhs = -rhs
        T.append((row, rhs, (2 * d + k) if (iq and row[2 * d + k] == 1) else None))
    m = len(T)
    nart = sum(1 for t in T if t[2] is None)
    tab, basis = [], []
    ai = 0
    for row, rhs, b in T:
        ext = [0] * nart
        if b is None:
            ext[ai] = 1
            basis.append(n + ai)
            ai += 1
        else:
            basis.append(b)
        tab.append(row + ext + [rhs])
    if nart:
        o = [0] * (n + nart + 1)
        for j in range(n, n + nart):
            o[j] = 1
        for i, b in enumerate(basis):
            if b >= n:
                o = [u - v for u, v in zip(o, tab[i])]
        tab.append(o)
        _simplex(tab, basis, m, n + nart)
        if tab[m][-1] != 0:
            return INFEASIBLE, None, None
        tab.pop()
        for i in range(m):
            if basis[i] >= n:
                c2 = next((j for j in range(n) if tab[i][j]), None)
                if c2 is not None:
                    _pivot(tab, basis, i, c2)
        keep = [i for i in range(m) if basis[i] < n]
        tab = [tab[i][:n] + [tab[i][-1]] for i in keep]
        basis = [basis[i] for i in keep]
    m = len(tab)
    c = [F(v) for v in c]
    if not any(c):
        o = [0] * (n + 1)
    else:
        o = _ints([-v for v in c])
        o = o + [-v for v in o] + [0] * ns + [0]
    for i, b in enumerate(basis):
        if o[b]:
            o = _elim(o, tab[i], b)
    tab.append(o)
    st = _simplex(tab, basis, m, n)
    if st == UNBOUNDED:
        return UNBOUNDED, None, None
    sol = [F(0)] * n
    for i, b in enumerate(basis):
        sol[b] = F(tab[i][-1], tab[i][b])
    x = [sol[j] - sol[d + j] for j in range(d)]
    return OPTIMAL, sum((ci * xi for ci, xi in zip(c, x)), F(const)), x


def ev(row, x):
    return row[0] + sum((a * v for a, v in zip(row[1:], x) if a), F(0))


def member(P, x):
    return all(ev(g, x) >= 0 for g in P[0]) and all(ev(g, x) == 0 for g in P[1])


def strict_member(P, x):
    return all(ev(g, x) > 0 for g in P[0]) and all(ev(g, x) == 0 for g in P[1])


def feasible(P, d):
    return lp_max([0] * d, P[0], P[1])[0] != INFEASIBLE


def slack(P, d):
    """max t <= 1 with every inequality >= t; returns (t, x) or (None, None) if the closed set is empty."""
    triv = [g for g in P[0] if not any(g[1:])]
    if any(g[0] < 0 for g in triv):
        return None, None
    tz = any(g[0] == 0 for g in triv)
    iq = [g for g in P[0] if any(g[1:])]
    st, v, x = lp_max([0] * d + [1], [list(g) + [-1] for g in iq] + [[1] + [0] * d + [-1]],
                      [list(g) + [0] for g in P[1]])
    if st == INFEASIBLE:
        return None, None
    if v < 0:
        return None, None
    if tz:
        v = F(0)
    return v, x[:d]


def interior_point(P, d):
    """A point with every non-trivial inequality strict, when the set is full-dimensional; else None."""
    if any(any(g) for g in P[1]):
        return None
    triv_ok = all(g[0] >= 0 for g in P[0] if not any(g[1:]))
    if not triv_ok:
        return None
    iq = [g for g in P[0] if any(g[1:])]
    t, x = slack((iq, []), d)
    if t is None or t <= 0:
        return None
    return x


def full_dim(P, d):
    return interior_point(P, d) is not None


def open_nonempty(P, d):
    """{all ineqs strict, eqs hold} non-empty"""
    t, x = slack(P, d)
    return t is not None and t > 0


def subset(A, B, d):
    if not feasible(A, d):
        return True
    for g in list(B[0]):
        st, v, _ = lp_max([-c for c in g[1:]], A[0], A[1], -g[0])
        if st == UNBOUNDED or v > 0:
            return False
    for g in list(B[1]):
        for s in (1, -1):
            st, v, _ = lp_max([s * c for c in g[1:]], A[0], A[1], s * g[0])
            if st == UNBOUNDED or v > 0:
                return False
    return True


def uncovered_point(A, Bs, d):
    """An interior point of (A minus the union of the full-dimensional Bs), or None if that has no interior."""
    x = interior_point(A, d)
    if x is None:
        return None
    Bs = [b for b in Bs if not any(any(g) for g in b[1])]
    if not Bs:
        return x
    hit = [b for b in Bs if strict_member(([g for g in b[0] if any(g[1:])], []), x) and all(g[0] >= 0 for g in b[0] if not any(g[1:]))]
    if not any(member(b, x) for b in Bs):
        return _strictly_out(A, Bs, x, d)
    B = (hit or [b for b in Bs if member(b, x)])[0]
    rest = [b for b in Bs if b is not B]
    pos = []
    for g in B[0]:
        if not any(g[1:]):
            if g[0] < 0:
                return uncovered_point(A, rest, d)
            continue
        neg = [-v for v in g]
        y = uncovered_point((list(A[0]) + pos + [neg], A[1]), rest, d)
        if y is not None:
            return y
        pos.append(list(g))
    return None


def _strictly_out(A, Bs, x, d):
    return x


def covered(A, Bs, d):
    return uncovered_point(A, Bs, d) is None


def interiors_meet(A, B, d):
    return interior_point((list(A[0]) + list(B[0]), list(A[1]) + list(B[1])), d)


def solve(rows, rhs):
    """unique solution of the square system, or None"""
    n = len(rows)
    M = [[F(v) for v in r] + [F(b)] for r, b in zip(rows, rhs)]
    for c in range(n):
        p = next((i for i in range(c, n) if M[i][c]), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        inv = 1 / M[c][c]
        M[c] = [v * inv for v in M[c]]
        for i in range(n):
            if i != c and M[i][c]:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[c])]
    return [M[i][n] for i in range(n)]


def rank(rows):
    M = [[F(v) for v in r] for r in rows]
    r = 0
    if not M:
        return 0
    for c in range(len(M[0])):
        p = next((i for i in range(r, len(M)) if M[i][c]), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, len(M)):
            if M[i][c]:
                f = M[i][c] / M[r][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        r += 1
    return r


def vertices(P, d):
    """all vertices of the closed polyhedron, by enumeration of bases"""
    import itertools
    eqs = [g for g in P[1]]
    iq = []
    seen = set()
    for g in P[0]:
        k = tuple(F(v) for v in g)
        if any(k[1:]) and k not in seen:
            seen.add(k)
            iq.append(k)
    out = set()
    re_ = rank([g[1:] for g in eqs]) if eqs else 0
    # independent subset of equalities
    ind = []
    for g in eqs:
        if rank([h[1:] for h in ind] + [g[1:]]) > len(ind):
            ind.append(g)
    for comb in itertools.combinations(iq, d - len(ind)):
        rows = [g[1:] for g in ind] + [g[1:] for g in comb]
        x = solve(rows, [-g[0] for g in ind] + [-g[0] for g in comb])
        if x is not None and member(P, x):
            out.add(tuple(x))
    return out


def bounded(P, d):
    """assumes non-empty"""
    for i in range(d):
        for s in (1, -1):
            c = [0] * d
            c[i] = s
            if lp_max(c, P[0], P[1])[0] == UNBOUNDED:
                return False
    return True


def dim_of(P, d):
    """affine dimension of the closed polyhedron (-1 if empty)"""
    if not feasible(P, d):
        return -1
    eqs = list(P[1])
    for g in P[0]:
        if any(g[1:]):
            st, v, _ = lp_max(g[1:], P[0], P[1], g[0])
            if st == OPTIMAL and v == 0:
                eqs.append(g)
    return d - rank([g[1:] for g in eqs]) if eqs else d


def edges(P, d):
    """vertex pairs of the bounded polyhedron whose common tight constraints have rank d-1 (as frozensets)"""
    import itertools
    V = list(vertices(P, d))
    rows = [g for g in list(P[0]) + list(P[1]) if any(g[1:])]
    out = set()
    tight = {v: frozenset(i for i, g in enumerate(rows) if ev(g, v) == 0) for v in V}
    for a, b in itertools.combinations(V, 2):
        t = tight[a] & tight[b]
        if d == 1 or (t and rank([rows[i][1:] for i in t]) == d - 1):
            out.add(frozenset((a, b)))
    return out
