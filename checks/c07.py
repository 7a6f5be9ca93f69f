"""C07: polytope queries, judged after every operation of random histories against an exact LP oracle."""
from fractions import Fraction as F
from vh import Suite, exact as E
from vh.util import *
from checks.geo import *
from polytope import Polytope

PROPERTY = "C07"
RULE = "histories of 6-12 queries on a pool of related rational polyhedra in 1-4 dimensions (bounded, unbounded, empty, flat, with equalities, redundant rows), results rejoining the pool; non-trivial when a decision query (emptiness, inclusion, equality, cover) was answered; distinct by the rows involved"


def case_history(r, m):
    d = r.choice([1, 2, 2, 2, 3, 3, 4])
    pool = []
    for _ in range(2):
        P = rand_any(r, d)
        pool.append((mk(Polytope, P, r), P))
    P = related(r, pool[0][1], d)
    if nonzero(P):
        pool.append((mk(Polytope, P, r), P))
    log = []
    for step in range(r.randint(6, 12)):
        (p, P), (s, S) = r.choice(pool), r.choice(pool)
        op = r.choice(["contains", "empty", "empty", "open", "open", "subset", "subset", "eq", "full", "full", "inter", "inters", "inters", "cover", "cover", "related"])
        log.append(op)
        desc = lambda: f"{log} on {show(P)} | {show(S)}"
        if op == "contains":
            for x in pts_for(r, [P, S], d, 4):
                m.ok("contains", bool(p.contains(tuple(x) if r.random() < .3 else x)) == E.member(P, x), lambda: f"{desc()} at {x}")
        elif op == "empty":
            m.ok("is_empty", bool(p.is_empty()) == (not E.feasible(P, d)), desc)
        elif op == "open":
            m.ok("is_empty_open", bool(p.is_empty(include_boundary=False)) == (not E.full_dim(P, d)), desc)
        elif op == "full":
            if E.feasible(P, d):
                m.ok("is_full_dim", bool(p.is_full_dim()) == E.full_dim(P, d), desc)
                m.eq("dimension", p.dimension(), d, desc)
        elif op == "subset":
            m.ok("is_subset_of", bool(p.is_subset_of(s)) == E.subset(P, S, d), desc)
            m.nontrivial(("subset", show(P), show(S)))
        elif op == "eq":
            m.ok("equal", bool(p == s) == same_set(P, S, d), desc)
        elif op == "inter":
            t = p.intersect(s)
            T = inter(P, S)
            judge_set(m, "intersect", t, T, d, r, desc)
            m.ok("intersect_empty", bool(t.is_empty()) == (not E.feasible(T, d)), desc)
            m.ok("intersect_open", bool(t.is_empty(include_boundary=False)) == (not E.full_dim(T, d)), desc)
            if len(T[0]) + len(T[1]) < 14:
                pool.append((t, T))
        elif op == "inters":
            ch = [r.choice(pool) for _ in range(r.randint(1, 4))]
            if P[0] and r.random() < .3:   # one that only touches it
                T = ([[-v for v in r.choice(P[0])]] + [g for g in P[0] if r.random() < .5], list(P[1]))
                ch = [(p, P), (Polytope([list(g) for g in T[0]], canonicalize=r.random() < .7), (T[0], []))]
            T = inter(*[c[1] for c in ch])
            t = Polytope.intersection([c[0] for c in ch], canonicalize=r.random() < .5)
            if r.random() < .4 and E.feasible(T, d):   # the first question asked of a new polytope
                m.ok("is_full_dim", bool(t.is_full_dim()) == E.full_dim(T, d), lambda: f"{log} intersection of {[show(c[1]) for c in ch]}")
            judge_set(m, "intersection", t, T, d, r, lambda: f"{log} intersection of {[show(c[1]) for c in ch]}")
            if len(ch) > 1 and len(T[0]) + len(T[1]) < 14:
                pool.append((t, T))
        elif op == "cover":
            ch = [r.choice(pool) for _ in range(r.randint(1, 3))]
            got = bool(p.is_covered_by([c[0] for c in ch]))
            want = E.covered(P, [c[1] for c in ch], d) if E.full_dim(P, d) else True
            m.ok("is_covered_by", got == want, lambda: f"{log}: {show(P)} covered by {[show(c[1]) for c in ch]}: {got}")
            m.nontrivial(("cover", show(P), [show(c[1]) for c in ch]))
        elif op == "related":
            T = related(r, P, d)
            if nonzero(T):
                pool.append((mk(Polytope, T, r), T))
    for p, P in pool:   # nothing that happened changed what the polytopes denote
        judge_set(m, "unchanged", p, P, d, r, lambda: f"after {log}")
    m.sample(f"d={d} ops={log} first={show(pool[0][1])}")


def case_cover(r, m):
    """a polytope against exact or almost exact subdivisions of it"""
    d = r.choice([1, 2, 2, 3])
    P = rand_bounded(r, d, cuts=2)
    cells = [P]
    for _ in range(r.randint(1, 3)):
        c = cells.pop(r.randrange(len(cells)))
        g = cut(r, d)
        cells += [(c[0] + [g], c[1]), (c[0] + [[-v for v in g]], c[1])]
    cells = [c for c in cells if E.full_dim(c, d)]
    k = r.random()
    if k < .3 and len(cells) > 1:
        cells.pop(r.randrange(len(cells)))
    elif k < .6:
        i = r.randrange(len(cells))
        rows = [list(g) for g in cells[i][0]]
        rows[r.randrange(len(rows))][0] -= F(1, r.choice([4, 50, 1000]))
        cells[i] = (rows, [])
    elif k < .7:
        cells.append(rand_any(r, d))
    r.shuffle(cells)
    want = E.covered(P, cells, d)
    p, cs = mk(Polytope, P, r), [mk(Polytope, c, r) for c in cells]
    got = bool(p.is_covered_by(cs))
    m.ok("subdivision_cover", got == want, lambda: f"{show(P)} by {[show(c) for c in cells]}: got {got}")
    m.count("cover_true" if want else "cover_false")
    m.nontrivial((show(P), [show(c) for c in cells]))


def in_hull(V, x):
    n = len(V)
    d = len(x)
    iq = [[0] + [1 if j == i else 0 for j in range(n)] for i in range(n)]
    eq = [[-1] + [1] * n] + [[-x[k]] + [v[k] for v in V] for k in range(d)]
    return E.lp_max([0] * n, iq, eq)[0] != E.INFEASIBLE


def case_build(r, m):
    d = r.choice([1, 2, 2, 3, 4])
    lims = rand_box(r, d, degenerate=.2)
    b = Polytope.rect(*lims)
    P = (box_rows(lims), [])
    judge_set(m, "rect", b, P, d, r, lambda: f"rect{lims}")
    V = [[q(r) for _ in range(d)] for _ in range(r.randint(1, d + 4))]
    if r.random() < .4 and len(V) > 1:   # repeated / interior points
        V.append([(a + c) / 2 for a, c in zip(V[0], V[1])])
        V.append(list(V[0]))
    before = [list(v) for v in V]
    h = Polytope.from_V_rep(V)
    H = hrep(h)
    desc = lambda: f"hull of {[[str(c) for c in v] for v in V]}: {show(H)}"
    m.ok("hull:points", V == before, lambda: f"point list changed: {before} -> {V}")
    for v in V:
        m.ok("hull:contains_generators", h.contains(v) and E.member(H, v), lambda: f"{desc()} misses {v}")
    m.ok("hull:bounded", E.bounded(H, d), desc)
    for v in E.vertices(H, d):
        m.ok("hull:tight", in_hull(V, v), lambda: f"{desc()} has vertex {v}")
    for x in pts_for(r, [H], d, 3):
        m.ok("hull:member", bool(h.contains(x)) == in_hull(V, x), lambda: f"{desc()} at {x}")
    m.ok("hull:full_dim", bool(h.is_full_dim()) == (E.rank([[a - c for a, c in zip(v, V[0])] for v in V]) == d), desc)
    m.ok("hull:empty", Polytope.from_V_rep([]) is None)
    m.raises("wrong_dimension", ValueError, lambda: h.contains([0] * (d + 1)))
    m.nontrivial((V, lims))


SUITES = [
    Suite("history", case_history, 1500, 40000, need=["contains", "is_empty", "is_empty_open", "is_subset_of", "is_covered_by", "equal", "intersect:rows", "intersection:rows", "is_full_dim"]),
    Suite("cover", case_cover, 600, 15000, need=["subdivision_cover"]),
    Suite("build", case_build, 700, 15000, need=["hull:tight", "rect:contains"]),
]
