"""C10: region expressions are Boolean combinations; every rewrite preserves the denoted set."""
from fractions import Fraction as F
import copy
from vh import Suite, exact as E
from vh.util import *
from checks.geo import *
from checks.rg import *
from polytope import Polytope
from region import Region, Region_Type

PROPERTY = "C10"
RULE = "random region trees (union, disjoint union, intersection, complement; depth up to 3) over bounded rational polytopes in 2-3 dimensions, with nested, repeated, empty and redundant children; rewrites judged at points in general position and, for conversions, by exact cell cover; non-trivial when the tree has at least two leaves"


def case_tree(r, m):
    d = r.choice([1, 2, 2, 3])
    T = rand_tree(r, d, r.choice([1, 2, 2, 3]), comp=True)
    R = build(T, r)
    rows = leaves(T)
    desc = lambda: f"{tstr(T)}"
    for x in pts_for(r, rows, d, 6):
        m.ok("contains", bool(R.contains(x)) == holds(T, x), lambda: f"{desc()} at {x}: should be {holds(T, x)}")
    ops = r.sample(["copy", "scale_all", "substitute", "lift", "subset", "disj", "str", "relabel"], 4)
    # one region is often transformed more than once, e.g. sliced at several values
    while len(ops) < 7 and r.random() < .5:
        ops.append(r.choice(ops[:4]))
    keys = shape = None
    for op in ops:
        if op == "copy":
            C = copy.copy(R)
            for x in pts_for(r, rows, d, 2):
                m.ok("copy", bool(C.contains(x)) == holds(T, x), desc)
        elif op == "scale_all":
            fs = [F(r.choice([-2, -1, 1, 2, 3]), r.choice([1, 2])) for _ in range(d)]
            S = R.scale_all(list(fs))
            for x in pts_for(r, rows, d, 5):
                y = [a * b for a, b in zip(x, fs)]
                m.ok("scale_all", bool(S.contains(y)) == holds(T, x), lambda: f"scale_all {fs} of {desc()} at {y}")
        elif op == "substitute" and d > 1:
            if keys is None or r.random() < .3:
                keys = r.sample(range(d), r.randint(1, d - 1))
            vals = {i: q(r) for i in keys}
            S = R.substitute(dict(vals))
            for x in pts_for(r, rows, d, 4):
                y = [v for i, v in enumerate(x) if i not in vals]
                full = [vals.get(i, v) for i, v in enumerate(x)]
                m.ok("substitute", bool(S.contains(y)) == holds(T, full), lambda: f"substitute {vals} in {desc()} at {y}")
        elif op == "lift":
            if shape is None or r.random() < .3:
                n = d + r.choice([0, 1, 2])
                shape = (n, r.sample(range(n), d))
            n, pos = shape
            var = [None] * n
            for k, i in enumerate(pos):
                var[i] = k
            for i in range(n):
                if var[i] is None:
                    a, b = q(r), q(r)
                    var[i] = (min(a, b), max(a, b) + F(1, 2))
            S = R.lift(list(var))
            for x in pts_for(r, rows, d, 5):
                y, ok = [], True
                for v in var:
                    if isinstance(v, int):
                        y.append(x[v])
                    else:
                        c = r.choice([v[0], v[1], (v[0] + v[1]) / 2, v[0] - 1, v[1] + F(1, 3)])
                        ok = ok and v[0] <= c <= v[1]
                        y.append(c)
                if tree_has(T, "C") and not ok:
                    # a union of a complement and a polytope: limits apply to each lifted leaf
                    pass
                m.ok("lift", bool(S.contains(y)) == (ok and holds(T, x)), lambda: f"lift {var} of {desc()} at {y}")
        elif op == "disj" and not tree_has(T, "C") and not tree_has(T, "U"):
            judge_disjoint(m, r, R, T, d, desc)
        elif op == "subset":
            pass
        elif op == "str":
            m.ok("printable", isinstance(str(R), str) and isinstance(Region.to_str(R), str), desc)
        elif op == "relabel":
            R.set_label(r.choice(["a", 3]))
    for x in pts_for(r, rows, d, 3):
        m.ok("unchanged", bool(R.contains(x)) == holds(T, x), lambda: f"afterwards {desc()} at {x}")
    if len(rows) > 1:
        m.nontrivial(tstr(T))
    m.sample(desc())


def judge_disjoint(m, r, R, T, d, desc, track=False):
    U = R.as_disjoint_union(track_dependencies=track) if track else R.as_disjoint_union()
    m.ok("disjoint:type", U.region_type == Region_Type.DISJOINT_UNION and all(c.region_type == Region_Type.POLYTOPE for c in U.child), desc)
    H = [hrep(c.child) for c in U.child]
    full = [h for h in H if E.full_dim(h, d)]
    want = cells(T, d)
    D = lambda: f"{desc()} -> {[show(h) for h in H]}"
    for i in range(len(full)):
        for j in range(i):
            x = E.interiors_meet(full[i], full[j], d)
            m.ok("disjoint:cells", x is None, lambda: f"cells overlap at {x}: {D()}")
        x = E.uncovered_point(full[i], want, d)
        m.ok("disjoint:no_more", x is None, lambda: f"extra point {x}: {D()}")
    for w in want:
        x = E.uncovered_point(w, full, d)
        m.ok("disjoint:no_less", x is None, lambda: f"lost point {x}: {D()}")
    for x in generic(r, leaves(T) + H, d, 4):
        n = sum(1 for c in U.child if c.contains(x))
        m.ok("disjoint:points", n == (1 if holds(T, x) else 0) and bool(U.contains(x)) == holds(T, x), lambda: f"at {x}: in {n} cells, should be {holds(T, x)}: {D()}")
    return U, H


def case_disjoint(r, m):
    d = r.choice([1, 2, 2, 2, 3])
    T = rand_tree(r, d, r.choice([1, 2, 2]), comp=False, union=False, top="I")
    R = build(T, r)
    desc = lambda: tstr(T)
    judge_disjoint(m, r, R, T, d, desc)
    if r.random() < .3:   # asking again gives the same set
        judge_disjoint(m, r, R, T, d, desc)
    m.nontrivial(tstr(T))


def case_many(r, m):
    """long intersections: periodic simplification is reached with 20+ operands and 100+ pieces"""
    d = 2
    n = r.randint(20, 23)
    kids = []
    box = box_rows([(F(-4), F(4))] * 2)
    # grid strips make many pieces; half of the operands are two-piece unions missing a thin strip
    for k in range(n):
        g = r.choice([[0, 1, 0], [0, 0, 1], [0, 1, 1], [0, 1, -1]])
        c = F(r.randint(-12, 12), 4)
        w = F(1, r.choice([16, 32]))
        lo = [c - w] + [-v for v in g[1:]]
        hi = [-c - w] + list(g[1:])
        kids.append(("D", [("P", ([*box, lo], [])), ("P", ([*box, hi], []))]))
    T = ("I", kids)
    R = build(T, r)
    U = R.as_disjoint_union()
    H = [hrep(c.child) for c in U.child]
    m.count("many_pieces", len(H))
    for _ in range(300):
        x = [F(r.randint(-4200, 4200), 1009), F(r.randint(-4200, 4200), 1013)]
        n_in = sum(1 for h in H if E.member(h, x))
        m.ok("many:points", n_in == (1 if holds(T, x) else 0), lambda: f"{tstr(T)} at {x}: in {n_in} cells")
        m.ok("many:contains", bool(U.contains(x)) == holds(T, x), lambda: f"{tstr(T)} at {x}")
    for _ in range(25):
        a, b = r.sample(range(len(H)), 2)
        m.ok("many:disjoint", E.interiors_meet(H[a], H[b], d) is None, tstr(T))
    m.nontrivial(tstr(T))


def alike(r, d, n):
    lo = [F(r.choice([0, 0, 1]), r.choice([1, 2, 3])) for _ in range(d)]
    up = [[a + F(r.randint(1, 40), r.choice([1, 4, 7, 10007])) for _ in range(2)] for a in lo]
    return [([[F(v) for v in g] for g in box_rows([(a, r.choice(u)) for a, u in zip(lo, up)])], []) for _ in range(n)]


def case_union(r, m):
    """simplify, project, from_union_of_halfplanes, inclusion on unions of polytopes"""
    d = r.choice([2, 2, 3])
    kind = r.choice(["simplify", "simplify", "project", "halfplanes", "subset", "subset"])
    if kind == "simplify":
        P = rand_bounded(r, d, cuts=1)
        cs = [P]
        for _ in range(r.randint(1, 4)):
            c = cs.pop(r.randrange(len(cs)))
            g = cut(r, d)
            cs += [(c[0] + [g], []), (c[0] + [[-v for v in g]], [])]
        cs = [c for c in cs if E.full_dim(c, d)]
        if r.random() < .4 and len(cs) > 1:
            cs.pop(r.randrange(len(cs)))
        t = r.choice("UD")
        T = (t, [("P", c) for c in cs])
        R = build(T, r)
        n0 = len(R.child)
        ch = R.simplify()
        H = [hrep(c.child) for c in R.child]
        full = [h for h in H if E.full_dim(h, d)]
        D = lambda: f"simplify {tstr(T)} -> {[show(h) for h in H]}"
        m.ok("simplify:fewer", len(H) <= n0, D)
        for c in cs:
            m.ok("simplify:no_less", E.covered(c, full, d), D)
        for h in full:
            m.ok("simplify:no_more", E.covered(h, cs, d), D)
        if t == "D":
            for i in range(len(full)):
                for j in range(i):
                    m.ok("simplify:disjoint", E.interiors_meet(full[i], full[j], d) is None, D)
        for x in pts_for(r, cs, d, 3):
            m.ok("simplify:points", bool(R.contains(x)) == holds(T, x), lambda: f"{D()} at {x}")
    elif kind == "project":
        cs = [rand_bounded(r, d, cuts=2, full=False) for _ in range(r.randint(1, 3))]
        if r.random() < .3:      # cells that are much alike: boxes with common corners
            cs = alike(r, d, r.randint(3, 7))
        T = (r.choice("UD"), [("P", c) for c in cs])
        if r.random() < .2:
            T = ("P", cs[0])
        if r.random() < .2:
            T = ("I", [T])
        RT = build(T, r)
        dims = set(r.sample(range(d), r.randint(1, d)))
        if r.random() < .4:      # the same region projected (and the projection simplified) before
            S = RT.project(set(r.sample(range(d), r.choice([len(dims), r.randint(1, d)]))))
            if S is not None and S.region_type != Region_Type.POLYTOPE and r.random() < .5 and T[0] in "UD":
                S.simplify()
        S = RT.project(dims)
        use = [c for c in leaves(T) if E.feasible(c, d)]
        D = lambda: f"project {dims} of {tstr(T)}"
        m.ok("project:empty", (S is None) == (not use), D)
        if S is not None:
            e = len(dims)
            ys = [[x[i] for i in sorted(dims)] for x in pts_for(r, use, d, 5)]
            ys += [[v[i] for i in sorted(dims)] for c in use for v in list(E.vertices(c, d))[:4]]
            for y in ys:
                w = any(proj_member(c, dims, y, d) for c in use)
                m.ok("project:points", bool(S.contains(y)) == w, lambda: f"{D()} at {y}: want {w}")
    elif kind == "halfplanes":
        box = box_rows(rand_box(r, d))
        hps = [cut(r, d) for _ in range(r.randint(1, 4))]
        b0, h0 = [list(g) for g in box], [list(g) for g in hps]
        R = Region.from_union_of_halfplanes(hps, box)
        m.ok("halfplanes:args", box == b0 and hps == h0)
        H = [hrep(c.child) for c in R.child]
        D = lambda: f"halfplanes {h0} in {b0}"
        for i in range(len(H)):
            for j in range(i):
                m.ok("halfplanes:disjoint", E.interiors_meet(H[i], H[j], d) is None, D)
        for x in pts_for(r, [(b0 + h0, [])], d, 6):
            w = E.member((b0, []), x) and any(E.ev(g, x) >= 0 for g in h0)
            m.ok("halfplanes:points", bool(R.contains(x)) == w, lambda: f"{D()} at {x}")
    else:
        A = rand_bounded(r, d, cuts=1)
        cs = [A]
        for _ in range(r.randint(1, 2)):
            c = cs.pop(r.randrange(len(cs)))
            g = cut(r, d)
            cs += [(c[0] + [g], []), (c[0] + [[-v for v in g]], [])]
        cs = [c for c in cs if E.full_dim(c, d)]
        if r.random() < .4 and len(cs) > 1:
            cs.pop()
        if r.random() < .3:
            cs[0] = related(r, cs[0], d)
        if r.random() < .1:     # many cells
            A = (box_rows([(F(0), F(1))] * d), [])
            ts = [F(0)] + sorted({F(r.randint(1, 40), 20) for _ in range(r.randint(8, 12))})
            cs = [(box_rows([(a, b)] + [(F(-1), F(2))] * (d - 1)), []) for a, b in zip(ts, ts[1:])]
            if r.random() < .3:
                cs.pop(r.randrange(len(cs)))
            r.shuffle(cs)
        B = (r.choice("UD"), [("P", c) for c in cs])
        lk = r.random()
        if lk < .5:
            L, want = ("P", A), E.covered(A, cs, d)
        else:
            L = (r.choice("UD"), [("P", A), ("P", cs[0])])
            want = all(E.covered(c, cs, d) for c in (A, cs[0]))
        if r.random() < .3:
            extra = related(r, A, d)
            B = ("I", [B, ("P", extra)])
            want = want and all(E.subset(c, extra, d) for c in ([A] if L[0] == "P" else [A, cs[0]]))
        if r.random() < .15:
            B, want = ("P", A), all(E.subset(c, A, d) for c in leaves(L))
        BL, BB = build(L, r), build(B, r)
        if r.random() < .3:      # other questions about the same regions
            extra = related(r, A, d)
            g1 = BL.is_subset_of(build(("P", extra), r))
            m.ok("is_subset_of", bool(g1) == all(E.subset(c, extra, d) for c in leaves(L)), lambda: f"{tstr(L)} subset of {show(extra)}: got {g1}")
            if B[0] in "UD":
                g2 = build(("P", extra), r).is_subset_of(BB)
                m.ok("is_subset_of", bool(g2) == E.covered(extra, leaves(B), d) or not E.full_dim(extra, d), lambda: f"{show(extra)} subset of {tstr(B)}: got {g2}")
        got = bool(BL.is_subset_of(BB))
        m.ok("is_subset_of", got == want, lambda: f"{tstr(L)} subset of {tstr(B)}: got {got}")
        m.count("subset_true" if want else "subset_false")
        if L[0] == "P":
            Q = rand_any(r, d)
            if nonzero(Q):
                m.ok("is_subset_of_polytope", bool(build(L, r).is_subset_of(mk(Polytope, Q, r))) == E.subset(A, Q, d), lambda: f"{show(A)} in {show(Q)}")
    m.nontrivial((kind, r.random()))


SUITES = [
    Suite("tree", case_tree, 900, 25000, need=["contains", "lift", "substitute", "scale_all", "copy", "unchanged"]),
    Suite("disjoint", case_disjoint, 700, 20000, need=["disjoint:no_more", "disjoint:no_less", "disjoint:cells", "disjoint:points"]),
    Suite("union", case_union, 900, 20000, need=["simplify:no_less", "simplify:no_more", "project:points", "halfplanes:points", "is_subset_of"]),
    Suite("many", case_many, 7, 40, cpu=400, need=["many:points"]),
]
