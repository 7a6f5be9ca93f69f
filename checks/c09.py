"""C09: transformations map the point set as specified; vertices, edges, cuts, centroid, copies."""
from fractions import Fraction as F
import copy
from vh import Suite, exact as E
from vh.util import *
from checks.geo import *
from polytope import Polytope, Hyperplane

PROPERTY = "C09"
RULE = "random histories of transformations over rational polyhedra in 1-4 dimensions (with equalities, unbounded where the operation allows), each result judged against the exactly transformed rows; non-trivial when the operand is non-empty; distinct by operand and operation"


def nz(r):
    return F(r.choice([-3, -2, -1, 1, 2, 3]), r.choice([1, 2, 3]))


def t_scale(P, i, f):
    def g(row):
        row = list(row)
        row[i] = row[i] / f
        return row
    return ([g(x) for x in P[0]], [g(x) for x in P[1]])


def t_subst(P, vals, d):
    def g(row):
        return [row[0] + sum(row[i + 1] * v for i, v in vals.items())] + [row[j + 1] for j in range(d) if j not in vals]
    return ([g(x) for x in P[0]], [g(x) for x in P[1]])


def t_lift(P, var):
    n = len(var)

    def g(row):
        return [row[0]] + [row[v + 1] if isinstance(v, int) else F(0) for v in var]
    iq = [g(x) for x in P[0]]
    for i, v in enumerate(var):
        if not isinstance(v, int):
            iq.append([-v[0]] + [F(1) if j == i else F(0) for j in range(n)])
            iq.append([v[1]] + [F(-1) if j == i else F(0) for j in range(n)])
    return (iq, [g(x) for x in P[1]])


def in_proj(P, dims, y, d):
    """is y in the projection of P onto the sorted dims"""
    eq = list(P[1])
    for k, i in enumerate(sorted(dims)):
        eq.append([-y[k]] + [1 if j == i else 0 for j in range(d)])
    return E.lp_max([0] * d, P[0], eq)[0] != E.INFEASIBLE


def transform_once(r, m, op, p, P, d, desc0):
    desc = lambda: f"{op} of {desc0}"
    if op == "scale":
        i, f = r.randint(1, d), nz(r)
        extra = [cut(r, d) for _ in range(r.choice([0, 0, 1, 2]))]
        ex0 = [list(g) for g in extra]
        t = p.scale(i, f, extra)
        T = t_scale(P, i, f)
        T = (T[0] + ex0, T[1])
        judge_set(m, "scale", t, T, d, r, lambda: f"scale({i},{f},{extra}) of {desc0}")
        m.ok("scale:args", extra == ex0, desc)
        after(m, r, t, T, d, desc)
    elif op == "scale_all":
        fs = [nz(r) for _ in range(d)]
        T = P
        for i, f in enumerate(fs):
            T = t_scale(T, i + 1, f)
        t = p.scale_all(list(fs))
        judge_set(m, "scale_all", t, T, d, r, lambda: f"scale_all({fs}) of {desc0}")
        after(m, r, t, T, d, desc)
    elif op == "substitute" and d > 1:
        vals = {i: q(r) for i in (r.sample(range(d), r.randint(1, d - 1)) if r.random() < .5 else range(1))}
        T = t_subst(P, vals, d)
        v0 = dict(vals)
        t = p.substitute(vals)
        e = d - len(vals)
        D = lambda: f"substitute({v0}) in {desc0}"
        m.ok("substitute:args", vals == v0, D)
        m.eq("substitute:dim", t.dimension(), e, D)
        for x in pts_for(r, [T], e, 4):
            m.ok("substitute:contains", bool(t.contains(x)) == E.member(T, x), lambda: f"{D()} at {x}")
            it = iter(x)
            full = [vals[i] if i in vals else next(it) for i in range(d)]
            m.ok("substitute:consistent", bool(t.contains(x)) == bool(p.contains(full)), lambda: f"{D()} at {x}")
        m.ok("substitute:empty", bool(t.is_empty()) == (not E.feasible(T, e)), D)
        m.ok("substitute:open", bool(t.is_empty(include_boundary=False)) == (not E.full_dim(T, e)), D)
    elif op == "lift":
        n = d + r.choice([0, 1, 1, 2])
        pos = r.sample(range(n), d)
        var = [None] * n
        for k, i in enumerate(pos):
            var[i] = k
        for i in range(n):
            if var[i] is None:
                a, b = q(r), q(r)
                var[i] = (min(a, b), max(a, b))
        T = t_lift(P, var)
        t = p.lift(list(var))
        D = lambda: f"lift({var}) of {desc0}"
        m.eq("lift:dim", t.dimension(), n, D)
        judge_set(m, "lift", t, T, n, r, D)
        after(m, r, t, T, n, D)
    elif op == "copy":
        p.label = r.choice(["lab", 7, None])
        c = copy.copy(p)
        judge_set(m, "copy", c, P, d, r, desc)
        m.ok("copy:label", getattr(c, "label", "missing") == p.label, lambda: f"{desc()}: label {getattr(c, 'label', 'missing')}")
        m.ok("copy:equal", c == p and c is not p, desc)
        c.label = "other"
        m.ok("copy:label_independent", p.label != "other", desc)
        if E.feasible(P, d):
            c.canonicalize()
            c.is_full_dim()
            m.ok("copy:full_dim", bool(p.is_full_dim()) == E.full_dim(P, d) == bool(c.is_full_dim()), desc)
        m.ok("copy:empty", bool(c.is_empty()) == (not E.feasible(P, d)) == bool(p.is_empty()), desc)
    elif op == "chain":
        cur, C = p, P
        tr = []
        for _ in range(r.randint(2, 4)):
            k = r.choice(["s", "a", "i"])
            if k == "s":
                i, f = r.randint(1, d), nz(r)
                cur, C = cur.scale(i, f, []), t_scale(C, i, f)
            elif k == "a":
                fs = [nz(r) for _ in range(d)]
                cur = cur.scale_all(fs)
                for i, f in enumerate(fs):
                    C = t_scale(C, i + 1, f)
            else:
                g = cut(r, d)
                cur, C = cur.intersect(Polytope([list(g)])), (C[0] + [g], C[1])
            tr.append(k)
        judge_set(m, "chain", cur, C, d, r, lambda: f"chain {tr} of {desc0}")


def case_transform(r, m):
    d = r.choice([1, 2, 2, 3, 3, 4])
    P = rand_any(r, d) if r.random() < .6 else rand_bounded(r, d, cuts=2)
    if not nonzero(P):
        return
    p = mk(Polytope, P, r)
    desc0 = show(P)
    if E.feasible(P, d):
        m.nontrivial(desc0)
    pre = r.random()
    if pre < .3:
        r.choice([p.is_empty, p.get_vertices, lambda: p.is_empty(include_boundary=False)])()
        if E.feasible(P, d) and r.random() < .5:
            p.is_full_dim()
    OPS = ["scale", "scale_all", "substitute", "lift", "lift", "copy", "chain"]
    op = r.choice(OPS)
    ops = [op]
    # one polytope is often transformed more than once, e.g. sliced at several values
    while len(ops) < 3 and r.random() < .4:
        ops.append(op if r.random() < .7 else r.choice(OPS))
    desc = lambda: f"{ops} of {desc0}"
    for op in ops:
        transform_once(r, m, op, p, P, d, desc0)
    judge_set(m, "source_unchanged", p, P, d, r, desc)
    m.sample(desc())


def after(m, r, t, T, d, desc):
    """the transformed object answers later queries correctly"""
    feas = E.feasible(T, d)
    m.ok("then:empty", bool(t.is_empty()) == (not feas), lambda: f"then is_empty: {desc()}")
    m.ok("then:open", bool(t.is_empty(include_boundary=False)) == (not E.full_dim(T, d)), lambda: f"then is_empty open: {desc()}")
    if feas and r.random() < .5:
        m.ok("then:full_dim", bool(t.is_full_dim()) == E.full_dim(T, d), lambda: f"then full_dim: {desc()}")


def case_vrep(r, m):
    d = r.choice([1, 2, 2, 3, 3, 4])
    P = rand_bounded(r, d, cuts=3, full=r.random() < .8)
    if r.random() < .3 and P[0]:      # redundant rows
        g = r.choice(P[0])
        h = [2 * v for v in g]
        h[0] += r.choice([0, 3])
        P = (P[0] + [h], P[1])
    if r.random() < .15:
        P = (P[0], P[1] + [cut(r, d)])
    if not E.feasible(P, d):
        return
    p = mk(Polytope, P, r)
    if r.random() < .3:
        p = p.intersect(Polytope([list(r.choice(P[0]))]))
    want = E.vertices(P, d)
    desc = lambda: f"{show(P)}"
    edges_want = E.edges(P, d)
    order = ["v", "e", "c", "i", "x", "p", "f"]
    r.shuffle(order)
    for o in order:
        if o == "v":
            got = [tuple(F(c) for c in v) for v in p.get_vertices()]
            m.ok("vertices", set(got) == want and len(got) == len(want), lambda: f"{desc()} vertices {got} want {want}")
        elif o == "e":
            ge = set()
            for a, b in p.get_edges():
                ge.add(frozenset((tuple(F(c) for c in a), tuple(F(c) for c in b))))
            m.ok("edges", ge == edges_want, lambda: f"{desc()} order {order} edges {ge} want {edges_want}")
        elif o == "c":
            c = [F(v) for v in p.get_centroid()]
            m.ok("centroid", E.member(P, c) and (not E.full_dim(P, d) or E.strict_member(([g for g in P[0] if any(g[1:])], []), c)), lambda: f"{desc()} centroid {c}")
        elif o == "i":
            for _ in range(3):
                if r.random() < .5 and len(want) >= d:   # through vertices
                    vs = r.sample(sorted(want), min(d, len(want)))
                    a = [F(r.randint(-2, 2)) for _ in range(d)]
                    g = [-sum(x * y for x, y in zip(a, vs[0]))] + a
                else:
                    g = cut(r, d)
                s = [E.ev(g, v) for v in want]
                w = any(x > 0 for x in s) and any(x < 0 for x in s)
                m.ok("cuts", bool(p.intersects(Hyperplane(list(g)))) == w, lambda: f"{desc()} plane {g}: want {w}")
        elif o == "x" and d > 1:
            dims = set(r.sample(range(d), r.randint(1, d)))
            e = len(dims)
            t = p.project(dims)
            H = hrep(t)
            D = lambda: f"project({dims}) of {desc()} = {show(H)}"
            m.eq("project:dim", t.dimension(), e, D)
            for v in want:
                m.ok("project:covers", bool(t.contains([v[i] for i in sorted(dims)])), lambda: f"{D()} misses {v}")
            pv = E.vertices(H, e)
            m.ok("project:bounded", E.bounded(H, e) and pv, D)
            for y in pv:
                m.ok("project:tight", in_proj(P, dims, y, d), lambda: f"{D()}: {y}")
            gv = [tuple(F(c) for c in v) for v in t.get_vertices()]
            m.ok("project:vertices", set(gv) == pv and len(gv) == len(pv), lambda: f"{D()} vertices {gv} want {pv}")
            if e >= 2 and r.random() < .5:
                if r.random() < .5:
                    t.is_full_dim()
                ge = {frozenset((tuple(F(c) for c in a), tuple(F(c) for c in b))) for a, b in t.get_edges()}
                m.ok("project:edges", ge == E.edges(H, e), lambda: f"{D()} edges {ge}")
        elif o == "p":
            m.ok("still", same_set(hrep(p), P, d), desc)
        elif o == "f":
            m.ok("full", bool(p.is_full_dim()) == E.full_dim(P, d), desc)
    m.ok("still", same_set(hrep(p), P, d), desc)
    m.nontrivial(desc())


SUITES = [
    Suite("transform", case_transform, 2500, 60000, need=["scale:rows", "scale_all:rows", "substitute:contains", "lift:rows", "copy:label", "chain:rows"]),
    Suite("vrep", case_vrep, 1000, 25000, need=["vertices", "edges", "centroid", "cuts", "project:tight", "project:covers"]),
]
