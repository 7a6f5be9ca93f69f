"""C08: polytope difference partitions; union attempt succeeds exactly when the union is convex."""
from fractions import Fraction as F
from vh import Suite, exact as E
from vh.util import *
from checks.geo import *
from polytope import Polytope

PROPERTY = "C08"
RULE = "difference: pairs of related rational polyhedra in 1-3 dimensions; union: families of 1-5 bounded full-dimensional polytopes obtained by cutting a convex body (kept whole, with a piece missing, moved or enlarged) or independent; non-trivial when the operands overlap resp. two or more are united"


def case_minus(r, m):
    d = r.choice([1, 2, 2, 2, 3])
    k = r.random()
    A = rand_bounded(r, d, cuts=2) if k < .7 else rand_any(r, d)
    B = related(r, A, d) if r.random() < .5 else (rand_bounded(r, d, cuts=2) if r.random() < .7 else rand_any(r, d))
    if not nonzero(B) or not nonzero(A):
        return
    a, b = mk(Polytope, A, r), mk(Polytope, B, r)
    judge_minus(r, m, d, A, B, a, b)
    # other polytopes removed from the same one, and the same one from others
    while r.random() < .35:
        if r.random() < .7:
            B = related(r, A, d) if r.random() < .6 else rand_bounded(r, d, cuts=r.choice([0, 2]))
            b = mk(Polytope, B, r)
        else:
            A = related(r, B, d) if r.random() < .6 else rand_bounded(r, d, cuts=r.choice([0, 2]))
            a = mk(Polytope, A, r)
        if not nonzero(B) or not nonzero(A):
            return
        judge_minus(r, m, d, A, B, a, b)


def judge_minus(r, m, d, A, B, a, b):
    simp = r.random() < .7
    if r.random() < .4:
        a.is_empty(), b.is_full_dim() if E.feasible(B, d) else None
    parts = a.set_minus(b) if simp and r.random() < .5 else a.set_minus(b, simplify=simp)
    H = [hrep(p) for p in parts]
    desc = lambda: f"({show(A)}) minus ({show(B)}) = {[show(h) for h in H]}"
    fullA = E.full_dim(A, d)
    # every part lies in A (only full-dimensional parts matter)
    for i, h in enumerate(H):
        if E.full_dim(h, d):
            m.ok("part_in_A", E.subset(h, A, d), desc)
            m.ok("part_off_B", not (E.full_dim(B, d) and E.interiors_meet(h, B, d)), desc)
            for j in range(i):
                m.ok("parts_disjoint", not (E.full_dim(H[j], d) and E.interiors_meet(h, H[j], d)), desc)
        elif simp:
            m.ok("no_thin_parts", False, desc)
    if fullA:
        m.ok("cover", E.covered(A, [B] + H, d), lambda: f"{desc()} loses {E.uncovered_point(A, [B] + H, d)}")
        m.nontrivial((show(A), show(B)))
    m.ok("unchanged", same_set(hrep(a), A, d) and same_set(hrep(b), B, d), desc)
    # deciding by points as well, through the public membership test
    for x in generic(r, [A, B], d, 4):
        inA, inB = E.member(A, x), E.member(B, x) and not B[1]
        n = sum(1 for p in parts if p.contains(x))
        if any(E.ev(g, x) == 0 for h in H for g in h[0]):
            continue
        m.ok("points", (n == 1) if (fullA and inA and not inB) else (n == 0), lambda: f"{desc()} at {x}: {n} parts, inA {inA}, inB {inB}")
    m.sample(desc())


def family(r, d):
    """bounded full-dimensional polytopes, often the cells of a subdivided convex body"""
    P = rand_bounded(r, d, cuts=r.choice([0, 1, 2]))
    cells = [P]
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        i = r.randrange(len(cells))
        c = cells.pop(i)
        g = cut(r, d)
        cells += [x for x in ((c[0] + [g], c[1]), (c[0] + [[-v for v in g]], c[1])) if E.full_dim(x, d)]
    k = r.random()
    if k < .2 and len(cells) > 1:
        cells.pop(r.randrange(len(cells)))
    elif k < .32:      # enlarge a cell a little within the body, still convex union
        i = r.randrange(len(cells))
        rows = [list(g) for g in cells[i][0]]
        rows[-1][0] += r.choice([F(1, 2), F(1)])
        rows += [list(g) for g in P[0]]
        cells[i] = (rows, [])
    elif k < .45:      # a small gap or dent
        i = r.randrange(len(cells))
        rows = [list(g) for g in cells[i][0]]
        rows[r.randrange(len(rows))][0] -= F(1, r.choice([2, 10, 500]))
        if E.full_dim((rows, []), d):
            cells[i] = (rows, [])
    elif k < .55:
        cells.append(rand_bounded(r, d, cuts=2))
    elif k < .62:
        cells.append(cells[0])
    elif k < .7:
        cells = [rand_bounded(r, d, cuts=2) for _ in range(r.randint(2, 3))]
    cells = [c for c in cells if E.full_dim(c, d)]
    r.shuffle(cells)
    return cells[:5]


def hull_rows(cells, d):
    """is the union of the cells convex?  (exact): the hull is the union iff every cell of the envelope is covered.
    The hull is over-approximated by the constraints of the cells valid for all cells (the envelope); for a convex
    union of full-dimensional polytopes the envelope equals the union (every facet of the union is one of a cell's)."""
    env = []
    for i, c in enumerate(cells):
        for g in c[0]:
            if all(E.subset(o, ([g], []), d) for o in cells):
                env.append(g)
    return (env, [])


def tiles(r):
    """a larger family: a grid of (sheared) boxes, a row of slabs, or a fan of wedges; sometimes with a defect"""
    k = r.random()
    if k < .5:
        a, b = r.choice([(2, 3), (3, 2), (3, 3), (4, 2)])
        sh = q(r, -1, 1, (1, 2))
        xs, ys = [sorted(r.sample(range(-6, 7), n + 1)) for n in (a, b)]
        cells = []
        for i in range(a):
            for j in range(b):
                # x + sh y in [xs_i, xs_(i+1)], y in [ys_j, ys_(j+1)]
                cells.append([[-xs[i], 1, sh], [xs[i + 1], -1, -sh], [-ys[j], 0, 1], [ys[j + 1], 0, -1]])
    elif k < .75:
        xs = sorted(r.sample(range(-8, 9), r.randint(6, 9)))
        lo, hi = cut(r, 2), cut(r, 2)
        cells = [[[-u, 1, 0], [v, -1, 0], [3, 0, 1], [3, 0, -1], lo] for u, v in zip(xs, xs[1:])]
    else:
        P = rand_bounded(r, 2, cuts=3)[0]
        n = r.randint(2, 4)
        dirs = sorted({F(r.randint(-8, 8), r.randint(1, 3)) for _ in range(n)})
        # lines through the origin with these slopes, both halves
        cells = []
        for side in (1, -1):
            ds = [None] + dirs + [None]
            for u, v in zip(ds, ds[1:]):
                c = [list(g) for g in P] + [[0, side, 0]]
                if u is not None:
                    c.append([0, -u * side, side])
                if v is not None:
                    c.append([0, v * side, -side])
                cells.append(c)
    cells = [([[F(v) for v in g] for g in c], []) for c in cells]
    cells = [c for c in cells if E.full_dim(c, 2)]
    if cells and r.random() < .35:
        i = r.randrange(len(cells))
        if r.random() < .5:
            cells.pop(i)
        else:
            cells[i][0].append(cut(r, 2))
            cells = [c for c in cells if E.full_dim(c, 2)]
    r.shuffle(cells)
    return cells


def case_tiles(r, m):
    case_union(r, m, tiles(r))


def case_union(r, m, cells=None):
    d = 2 if cells is not None else r.choice([1, 2, 2, 2, 3])
    cells = family(r, d) if cells is None else cells
    if not cells:
        return
    ps = [mk(Polytope, c, r) for c in cells]
    if r.random() < .3:
        for p in ps:
            r.choice([p.is_full_dim, p.get_vertices, p.is_empty])()
    got = Polytope.try_union(ps)
    env = hull_rows(cells, d)
    convex = E.bounded(env, d) and E.covered(env, cells, d) if any(any(g[1:]) for g in env[0]) else False
    desc = lambda: f"union of {[show(c) for c in cells]}: got {None if got is None else show(hrep(got))}, convex={convex}"
    m.ok("union_iff_convex", (got is not None) == convex, desc)
    m.count("convex" if convex else "not_convex")
    if got is not None:
        m.ok("union_exact", same_set(hrep(got), env, d), desc)
        for x in pts_for(r, cells, d, 4):
            m.ok("union_points", bool(got.contains(x)) == any(E.member(c, x) for c in cells), lambda: f"{desc()} at {x}")
    for p, c in zip(ps, cells):
        m.ok("unchanged", same_set(hrep(p), c, d), desc)
        m.ok("unchanged", bool(p.is_full_dim()), desc)
    if len(cells) > 1:
        m.nontrivial([show(c) for c in cells])


SUITES = [
    Suite("minus", case_minus, 1500, 40000, need=["cover", "parts_disjoint", "points"]),
    Suite("tiles", case_tiles, 60, 1200, need=["union_iff_convex", "union_exact"]),
    Suite("union", case_union, 1200, 30000, need=["union_iff_convex", "union_exact", "union_points"]),
]
