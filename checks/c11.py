"""C11: dependency labels of region cells suffice to derive the result, judged by exact cell cover."""
from fractions import Fraction as F
import copy
from vh import Suite, exact as E
from vh.util import *
from checks.geo import *
from checks.rg import *
from polytope import Polytope
from region import Region, Region_Type

PROPERTY = "C11"
RULE = "random intersections (also nested) of 1-6 labelled unions of bounded rational polytopes, with redundant, repeated, nested and shared operands, and labelled unions; judged by exact cover of the region that only the named sources give; non-trivial when some source is not named or several are"


def operand(r, d, prev):
    k = r.random()
    if prev and k < .15:
        return r.choice(prev)                       # the same set under another label
    if k < .35:
        return ("D", [("P", (box_rows([(F(-6), F(6))] * d), []))])      # redundant
    if k < .45:
        return ("P", rand_bounded(r, d, cuts=1))
    if k < .55:
        return ("D", [("D", rand_disjoint(r, d)[1]), ])
    return rand_disjoint(r, d)


def case_inter(r, m):
    d = r.choice([1, 2, 2, 2, 3])
    n = r.choice([1, 2, 2, 3, 4, 6])
    ops = []
    if r.random() < .5:   # overlapping operands: subdivisions of a common box with pieces missing
        base = (box_rows([(F(-2), F(2))] * d), [])
        for _ in range(n):
            cs = subdivide(r, base, d, r.choice([1, 2, 3]))
            for _ in range(r.choice([0, 1, 1])):
                if len(cs) > 1:
                    cs.pop(r.randrange(len(cs)))
            ops.append(("D", [("P", c) for c in cs]))
    else:
        for _ in range(n):
            ops.append(operand(r, d, ops))
    r.shuffle(ops)
    Rs = []
    for i, T in enumerate(ops):
        R = build(T, r)
        R.set_label(i)
        Rs.append(R)
    # nesting of intersections
    items = list(zip(ops, Rs))
    while len(items) > 2 and r.random() < .4:
        i = r.randrange(len(items) - 1)
        a = items[i:i + 2]
        items[i:i + 2] = [(("I", [x[0] for x in a]), Region.intersect([x[1] for x in a]))]
    T = ("I", [x[0] for x in items])
    R = Region.intersect([x[1] for x in items])
    desc = lambda: "; ".join(f"{i}: {tstr(t)}" for i, t in enumerate(ops))
    U = R.as_disjoint_union(track_dependencies=True)
    H = [hrep(c.child) for c in U.child]
    full = [h for h in H if E.full_dim(h, d)]
    want = cells(T, d)
    D = lambda: f"{desc()} -> {[(show(h), c.child.dependencies) for h, c in zip(H, U.child)]}"
    # tracking does not change the set
    some = lambda L: r.sample(L, 6) if len(L) > 6 else L   # large results: a sample of the cells
    for f in some(full):
        x = E.uncovered_point(f, want, d)
        m.ok("no_more", x is None, lambda: f"extra {x}: {D()}")
    for w in some(want):
        x = E.uncovered_point(w, full, d)
        m.ok("no_less", x is None, lambda: f"lost {x}: {D()}")
    named = set()
    for c in U.child:
        m.ok("known_labels", isinstance(c.child.dependencies, set) and c.child.dependencies <= set(range(n)), D)
        named |= c.child.dependencies
        for i in c.child.dependencies:
            pass
    for c, h in zip(U.child, H):
        if not E.full_dim(h, d):
            continue
        m.ok("cell_named", bool(c.child.dependencies), D)
        own = [x for i in c.child.dependencies for x in cells(ops[i], d)]
        x = E.uncovered_point(h, own, d)
        m.ok("cell_in_sources", x is None, lambda: f"{x}: {D()}")
    if U.child:
        only = cells(("I", [ops[i] for i in sorted(named)]), d)
        for w in some(only):
            x = E.uncovered_point(w, full, d)
            m.ok("sufficient", x is None, lambda: f"{x} satisfies all of the named sources {sorted(named)} but not the result: {D()}")
        if named != set(range(n)):
            m.count("some_source_not_named")
        m.nontrivial(desc())
    else:
        m.count("empty_result")
    # labels of the operands are untouched, asking again gives the same labels
    if r.random() < .4:
        U2 = R.as_disjoint_union(track_dependencies=True)
        m.ok("repeat", [c.child.dependencies for c in U2.child] == [c.child.dependencies for c in U.child], D)
    m.sample(D())


def case_union(r, m):
    d = r.choice([1, 2, 2, 3])
    T = rand_disjoint(r, d)
    leaves_ = [k[1] for k in T[1]]
    kids = []
    for i, c in enumerate(leaves_):
        k = Region.from_polytope(mk(Polytope, c, r))
        k.set_label(f"s{i % 3}" if r.random() < .5 else f"t{i}")
        kids.append((k, k.child.label, c))
    regs = [k for k, _, _ in kids]
    if len(regs) > 2 and r.random() < .5:
        regs = [Region.disjoint_union(regs[:2])] + regs[2:]
    if r.random() < .3:
        regs.append(Region.intersect([copy.copy(regs[0]), copy.copy(regs[0])]))
        regs.pop(0)
    R = Region.disjoint_union(regs)
    U = R.as_disjoint_union(track_dependencies=True)
    H = [hrep(c.child) for c in U.child]
    D = lambda: f"{[(l, show(c)) for _, l, c in kids]} -> {[(show(h), c.child.dependencies) for h, c in zip(H, U.child)]}"
    for c, h in zip(U.child, H):
        own = [x for _, l, x in kids if l in c.child.dependencies]
        m.ok("known_labels", c.child.dependencies <= {l for _, l, _ in kids}, D)
        x = E.uncovered_point(h, own, d)
        m.ok("union_cell", x is None, lambda: f"{x} is in no named source: {D()}")
    for _, l, c in kids:
        x = E.uncovered_point(c, H, d)
        m.ok("union_all", x is None, lambda: f"lost {x}: {D()}")
    m.ok("labels_kept", all(k.child.label == l for k, l, _ in kids), D)
    m.nontrivial(D())


def case_many(r, m):
    """long intersections, where neighbouring pieces are merged periodically"""
    d = 2
    box = box_rows([(F(-4), F(4))] * 2)
    kids = []
    n = r.randint(21, 22)
    for k in range(n):
        g = [0, 1, 0] if k % 2 else [0, 0, 1]
        c = F(-11, 3) + F(22, 3) * F(k // 2, 11) + F(r.randint(0, 3), 12)
        w = F(1, r.choice([16, 32]))
        kids.append(("D", [("P", ([*box, [c - w] + [-v for v in g[1:]]], [])), ("P", ([*box, [-c - w] + list(g[1:])], []))]))
    Rs = []
    for i, T in enumerate(kids):
        R = build(T)
        R.set_label(i)
        Rs.append(R)
    U = Region.intersect(Rs).as_disjoint_union(track_dependencies=True)
    named = set().union(*(c.child.dependencies for c in U.child))
    D = lambda: f"{[tstr(t) for t in kids]}; named {named}"
    m.ok("many_pieces", len(U.child) > 20, D)
    only = ("I", [kids[i] for i in sorted(named)])
    allT = ("I", kids)
    for _ in range(400):
        x = [F(r.randint(-4200, 4200), 1009), F(r.randint(-4200, 4200), 1013)]
        if r.random() < .5:   # in one of the strips
            i = r.randrange(n)
            g = kids[i][1][0][1][0][-1]
            if g[1] and not g[2]:
                x[0] = F(-g[0], g[1]) + F(1, 64) * r.choice([1, 2, 3]) * r.choice([-1, 1]) / 2
            elif g[2] and not g[1]:
                x[1] = F(-g[0], g[2]) + F(1, 64) * r.choice([1, 2, 3]) * r.choice([-1, 1]) / 2
        a, b = holds(only, x), bool(U.contains(x))
        m.ok("many_sufficient", b or not a, lambda: f"{x} satisfies the named sources but not the result; {D()}")
        m.ok("many_exact", b == holds(allT, x), lambda: f"{x}; {D()}")
    m.nontrivial(tuple(map(tstr, kids)))


def case_fine(r, m):
    """long intersections with a finely divided operand whose cells come from different sources"""
    a, b = r.choice([(101, 1), (51, 2), (1, 103), (3, 34)])
    name = {"each": lambda i, j: f"s{i}.{j}", "column": lambda i, j: f"s{i}", "mod": lambda i, j: f"s{(i * 7 + j) % 5}"}[r.choice(["each", "column", "mod"])]
    gap = F(r.choice([0, 0, 1]), 8)
    leaf, regs = [], []
    for i in range(a):
        for j in range(b):
            P = (box_rows([(F(i), i + 1 - gap), (F(j), F(j + 1))]), [])
            k = Region.from_polytope(mk(Polytope, P, r))
            k.set_label(name(i, j))
            regs.append(k)
            leaf.append((name(i, j), P))
    kids = [Region.disjoint_union(regs)]
    top = r.choice([F(0), F(0), F(1, 20)])   # some of the boxes may cut the top off
    for t in range(r.randint(20, 21)):
        k = Region.from_polytope(mk(Polytope, (box_rows([(F(-1 - t), F(a + 1 + t)), (F(-1), F(b) + 1 if t % 5 or not top else F(b) - top)]), []), r))
        k.set_label(f"o{t}")
        kids.append(k)
    U = Region.intersect(kids).as_disjoint_union(track_dependencies=True)
    m.count("fine_cells", len(U.child))
    H = [(hrep(c.child), c.child.dependencies) for c in U.child]
    D = lambda: f"{a} by {b} grid with gap {gap}, {len(kids) - 1} boxes -> {[(show(h), sorted(d)) for h, d in H][:6]}"
    if len(U.child) < a * b:
        m.count("fine_merged")
    for h, own in r.sample(H, min(len(H), 40)):
        vs = E.vertices(h, 2)
        for _ in range(6 if len(H) > 10 else 40):
            w = [F(r.randint(1, 99)) for _ in vs]
            x = [sum(u * v[i] for u, v in zip(w, vs)) / sum(w) for i in range(2)]
            m.ok("fine_in_sources", any(l in own and E.member(P, x) for l, P in leaf) or not any(E.member(P, x) for _, P in leaf), lambda: f"{x} comes from {[l for l, P in leaf if E.member(P, x)]}, not named; {D()}")
    for _ in range(200):
        x = [F(r.randint(-2000, 2000 + 1000 * a), 1009), F(r.randint(-500, 500 + 1000 * b), 1013)]
        want = any(E.member(P, x) for _, P in leaf) and x[1] <= b - top
        m.ok("fine_exact", sum(E.member(h, x) for h, _ in H) == want, lambda: f"{x}; {D()}")
    m.nontrivial((a, b, gap, len(kids), len(H)))


SUITES = [
    Suite("inter", case_inter, 700, 20000, need=["sufficient", "cell_in_sources", "no_more", "no_less"]),
    Suite("union", case_union, 400, 8000, need=["union_cell", "union_all"]),
    Suite("fine", case_fine, 14, 200, need=["fine_in_sources", "fine_exact"]),
    Suite("many", case_many, 7, 200, need=["many_sufficient"]),
]
