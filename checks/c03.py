"""C03: two-variable affine piecewise functions. Oracle: pointwise evaluation at points in general position + exact cell cover."""
from fractions import Fraction as F
import copy, itertools
from vh import Suite, exact as E
from vh.util import *
from checks.geo import *
from polytope import Polytope, Hyperplane
from functions import Affine2, Piecewise

PROPERTY = "C03"
RULE = "affine functions of 2 (sometimes 1 or 3) variables on disjoint cells of bounded rational polytopes; random sequences of minimum, crop, simplify, scale, copy; judged at points in general position and by exact cell cover; non-trivial when at least two functions compete on a common cell"


def rand_fn(r, d, base=None):
    if base is not None and r.random() < .5:
        a = list(base)
        k = r.random()
        if k < .4:
            return a
        a[r.randrange(d + 1)] += r.choice([-1, 1, F(1, 2)]) if r.random() < .85 else tiny(r)
        return a
    return [q(r, -2, 2, (1, 2))] + [q(r, -2, 2, (1, 1, 2)) for _ in range(d)]


def rand_pw(r, d, labels, base=None):
    """model: list of (a, rows, label) with disjoint cells"""
    P = rand_bounded(r, d, cuts=r.choice([0, 1, 2]))
    if r.random() < .4:
        P = (box_rows([(F(-2), F(2))] * d), [])
    cs = [P]
    for _ in range(r.choice([0, 1, 1, 2])):
        c = cs.pop(r.randrange(len(cs)))
        g = cut(r, d)
        cs += [x for x in ((c[0] + [g], []), (c[0] + [[-v for v in g]], [])) if E.full_dim(x, d)]
    if len(cs) > 1 and r.random() < .3:
        cs.pop(r.randrange(len(cs)))
    out = []
    f0 = rand_fn(r, d, base)
    if r.random() < .12:     # functions that hardly differ, all with the same label
        g0 = list(f0)
        g0[r.randrange(d + 1)] += tiny(r)
        l = r.choice(labels)
        return [(r.choice([f0, g0]), c, l) for c in cs]
    for c in cs:
        if r.random() < .5:
            f0 = rand_fn(r, d, f0)
        out.append((f0, c, r.choice(labels)))
    return out


def real(M, r):
    return Piecewise([Affine2(list(a), mk(Polytope, c, r), l) for a, c, l in M])


def fval(a, x):
    return a[0] + sum(u * v for u, v in zip(a[1:], x))


def at(M, x):
    """(value, set of (label, coefficients)) or None"""
    for a, c, l in M:
        if E.member(c, x):
            return fval(a, x)
    return None


def cands(M, x):
    return [(fval(a, x), tuple(a), l) for a, c, l in M if E.member(c, x)]


def state(pw):
    return [(tuple(p.a), show(hrep(p.domain)), p.label) for p in pw.pieces]


def case_ops(r, m):
    d = r.choice([2, 2, 2, 2, 1, 3])
    labels = r.choice([["a", "b", "c"], [1, 2, 3], ["x"]])
    A = rand_pw(r, d, labels)
    B = rand_pw(r, d, labels, A[0][0] if r.random() < .5 else None)
    C = rand_pw(r, d, labels) if r.random() < .4 else None
    Ms = [A, B] + ([C] if C else [])
    pws = [real(M, r) for M in Ms]
    before = [state(p) for p in pws]
    cur = pws[0]
    for p in pws[1:]:
        cur = cur.min_with(p)
    log = ["min"]
    mods = []      # list of functions on points: transformation of domain
    crops = []
    scales = []
    desc = lambda: f"{log} of {[[([str(v) for v in a], show(c), l) for a, c, l in M] for M in Ms]} -> {[([str(v) for v in p.a], show(hrep(p.domain)), p.label) for p in cur.pieces]}"
    if r.random() < .3:
        for o in range(r.choice([1, 2])):
            k = r.random()
            if k < .5:
                D = rand_bounded(r, d, cuts=1)
                dp = mk(Polytope, D, r)
                simp = r.random() < .7
                cur.crop(dp, simp) if r.random() < .5 or not simp else cur.crop(dp)
                crops.append(D)
                log.append(f"crop {show(D)}")
                m.ok("crop_arg", same_set(hrep(dp), D, d), desc)
            else:
                cur.simplify(r.choice([2, 3]))
                log.append("simplify")
    elif r.random() < .6:
        cur.simplify()
        log.append("simplify")
    rows = [c for M in Ms for _, c, _ in M] + crops + [hrep(p.domain) for p in cur.pieces]
    diffs = [([[u - v for u, v in zip(a, b)]], []) for M in Ms for N in Ms if M is not N for a, _, _ in M for b, _, _ in N if list(a) != list(b)]
    competed = False
    for x in generic(r, rows + diffs, d, 14):
        per = [cands(M, x) for M in Ms]
        inside = all(per) and all(E.member(D, x) for D in crops)
        hits = [p for p in cur.pieces if p.domain.contains(x)]
        if not inside:
            m.ok("undefined_outside", not hits and cur.at(x) is None, lambda: f"{desc()} at {x}: defined outside")
            continue
        want = min(c[0][0] for c in per)
        competed = True
        m.ok("defined_inside", len(hits) == 1, lambda: f"{desc()} at {x}: {len(hits)} pieces")
        m.ok("value", cur.at(x) == want, lambda: f"{desc()} at {x}: {cur.at(x)} want {want}")
        h = hits[0]
        m.ok("label", (tuple(h.a), h.label) in {(c[0][1], c[0][2]) for c in per if c[0][0] == want},
             lambda: f"{desc()} at {x}: label {h.label} not one attaining the minimum")
    H = [hrep(p.domain) for p in cur.pieces]
    full = [h for h in H if E.full_dim(h, d)]
    if len(full) <= 10:
        for i in range(len(full)):
            for j in range(i):
                m.ok("cells_disjoint", E.interiors_meet(full[i], full[j], d) is None, desc)
        for _, a, _ in A:
            for _, b, _ in B:
                for c in ([c for _, c, _ in C] if C else [([], [])]):
                    w = inter(a, b, c, *crops)
                    if E.full_dim(w, d):
                        m.ok("cover", E.covered(w, full, d), desc)
    m.ok("operands_unchanged", [state(p) for p in pws] == before, lambda: f"operand changed: {before} -> {[state(p) for p in pws]} ({log})")
    if competed:
        m.nontrivial(desc())
    m.sample(f"{len(Ms)} functions, {[len(M) for M in Ms]} pieces, {log}: {len(cur.pieces)} pieces")


def case_grid(r, m):
    """many pieces on a grid (or strips), cropped and simplified several times"""
    d = r.choice([1, 2, 2])
    grids = []
    for _ in range(d):
        n = r.choice([3, 4, 5]) if d == 1 or not grids else r.choice([1, 2, 3])
        grids.append([F(i) / r.choice([1, 2]) if r.random() < .1 else F(i) for i in range(n + 1)])
        grids[-1] = sorted(set(grids[-1]))
    cells = [(box_rows(list(b)), []) for b in itertools.product(*[list(zip(g, g[1:])) for g in grids])]
    if r.random() < .4:
        r.shuffle(cells)
    if len(cells) > 2 and r.random() < .3:
        cells.pop(r.randrange(len(cells)))
    fs = [rand_fn(r, d) for _ in range(r.choice([1, 1, 2, 3]))]
    labels = r.choice([["a"], ["a", "b"]])
    M = [(r.choice(fs), c, r.choice(labels)) for c in cells]
    pw = real(M, r)
    log, crops = [], []
    desc = lambda: f"{log} of {[([str(v) for v in a], show(c), l) for a, c, l in M]} -> {[([str(v) for v in p.a], show(hrep(p.domain)), p.label) for p in pw.pieces]}"
    for _ in range(r.choice([1, 1, 2])):
        if r.random() < .75:
            lims = []
            for g in grids:
                a, b = sorted([r.choice(g), r.choice(g) + r.choice([0, 0, F(1, 3)])])
                lims.append((a, b if a < b else a + r.choice([1, F(1, 2)])))
            D = (box_rows(lims), [])
            crops.append(D)
            simp = r.random() < .4
            log.append(f"crop {show(D)} {simp}")
            pw.crop(mk(Polytope, D, r), simp)
        else:
            log.append("simplify")
            pw.simplify()
    for x in generic(r, [c for _, c, _ in M] + crops, d, 24):
        c = cands(M, x) if all(E.member(D, x) for D in crops) else []
        hits = [p for p in pw.pieces if p.domain.contains(x)]
        if not c:
            m.ok("grid_outside", not hits and pw.at(x) is None, lambda: f"{desc()} at {x}: defined outside")
            continue
        m.ok("grid_inside", len(hits) == 1, lambda: f"{desc()} at {x}: {len(hits)} pieces")
        m.ok("grid_value", pw.at(x) == c[0][0] and tuple(hits[0].a) == c[0][1], lambda: f"{desc()} at {x}: {pw.at(x)} want {c[0]}")
        m.ok("grid_label", (tuple(hits[0].a), hits[0].label) in {(k[1], k[2]) for k in [c[0]]}, lambda: f"{desc()} at {x}: label {hits[0].label} want {c[0]}")
    full = [h for h in (hrep(p.domain) for p in pw.pieces) if E.full_dim(h, d)]
    m.ok("grid_disjoint", all(E.interiors_meet(full[i], full[j], d) is None for i in range(len(full)) for j in range(i)) if len(full) <= 8 else True, desc)
    if len(M) > 2 and crops:
        m.nontrivial(desc())


def case_single(r, m):
    """one function: evaluation, crossing hyperplane, rescaling, cropping, copying"""
    d = r.choice([1, 2, 2, 3])
    a, b = rand_fn(r, d), rand_fn(r, d)
    P = rand_bounded(r, d, cuts=1)
    f = Affine2(list(a), mk(Polytope, P), "p")
    g = Affine2(list(b), mk(Polytope, P), "q")
    D = lambda: f"{a} {b} on {show(P)}"
    for x in pts_for(r, [P], d, 3):
        m.eq("eval", f.at(x), fval(a, x), D)
        m.ok("crossing", bool(f.intersection(g).contains(x)) == (fval(a, x) == fval(b, x)), D)
    # a point on the crossing
    k = next((i for i in range(d) if a[i + 1] != b[i + 1]), None)
    if k is not None:
        x = [q(r) for _ in range(d)]
        x[k] = 0
        x[k] = -(fval(a, x) - fval(b, x)) / (a[k + 1] - b[k + 1])
        m.ok("crossing", f.intersection(g).contains(x) and fval(a, x) == fval(b, x), D)
    m.raises("arity", ValueError, lambda: f.at([0] * (d + 1)))
    i, s = r.randint(1, d), F(r.choice([-2, 1, 2, 3]), r.choice([1, 2]))
    extra = [cut(r, d)] if r.random() < .5 else []
    pw = Piecewise([f]).scale(i, s, [list(e) for e in extra])
    m.ok("scale", len(pw.pieces) == 1 and list(pw.pieces[0].a) == list(a), D)
    T = ([[v / s if j == i else v for j, v in enumerate(row)] for row in P[0]] + extra, [])
    m.ok("scale", same_set(hrep(pw.pieces[0].domain), T, d), lambda: f"scale {i} {s} {extra} of {D()}: {show(hrep(pw.pieces[0].domain))}")
    c = copy.copy(Piecewise([f, g]))
    m.ok("copy", [(list(p.a), p.label) for p in c.pieces] == [(a, "p"), (b, "q")] and all(same_set(hrep(p.domain), P, d) for p in c.pieces), D)
    Q = rand_bounded(r, d, cuts=1)
    c.crop(mk(Polytope, Q))
    for p in c.pieces:
        p.a[0] += 1
        p.label = "z"
    m.ok("copy_independent", list(f.a) == list(a) and same_set(hrep(f.domain), P, d) and f.label == "p", D)
    m.raises("bad_domain", ValueError, lambda: Affine2(list(a), "not a polytope"))
    m.nontrivial(D())


def case_unbounded(r, m):
    """pieces that reach to infinity, cropped to a bounded or an unbounded domain and rescaled"""
    d = r.choice([1, 2, 2, 2, 3])
    g = cut(r, d)
    cs = [([g], [])] if r.random() < .6 else [([g], []), ([[-v for v in g]], [])]
    if r.random() < .4:      # an orthant, or what is beyond a corner
        g = [[-q(r)] + [F(r.choice([-1, 1])) if j == i else F(0) for j in range(d)] for i in range(d)]
        cs = [(g, [])]
    for _ in range(r.choice([0, 0, 1, 2])):
        c = cs.pop(r.randrange(len(cs)))
        g = cut(r, d)
        cs += [x for x in ((c[0] + [g], []), (c[0] + [[-v for v in g]], [])) if E.full_dim(x, d)]
    cs = [c for c in cs if E.full_dim(c, d)]
    if not cs:
        return
    M = [(rand_fn(r, d), c, r.choice(["a", "b"])) for c in cs]
    pw = real(M, r)
    log, crops, T = [], [], M
    scaled = False      # rescaling keeps the coefficients
    desc = lambda: f"{log} of {[([str(v) for v in a], show(c), l) for a, c, l in M]} -> {[([str(v) for v in p.a], show(hrep(p.domain)), p.label) for p in pw.pieces]}"
    pre = r.random()
    if pre < .3:
        [p.domain.get_vertices() for p in pw.pieces]
    for _ in range(r.choice([1, 1, 2])):
        if r.random() < .8:
            if r.random() < .3:
                D = ([cut(r, d)], [])
            elif r.random() < .5:      # around the corners of a piece
                vs = [v for p in pw.pieces for v in p.domain.get_vertices()] or [[q(r) for _ in range(d)]]
                w = r.choice(vs)
                D = (box_rows([(F(u) - r.choice([0, 1, F(1, 2)]), F(u) + r.choice([1, 2, 5])) for u in w]), [])
            else:
                D = rand_bounded(r, d, cuts=1)
            if not E.full_dim(D, d):
                continue
            simp = r.random() < .6
            log.append(f"crop {show(D)} {simp}")
            pw.crop(mk(Polytope, D, r), simp)
            T = [(a, inter(c, D), l) for a, c, l in T]
            crops.append(D)
        else:
            i, s = r.randint(1, d), F(r.choice([1, 2, 3]), r.choice([1, 2]))
            log.append(f"scale {i} {s}")
            scaled = True
            pw = pw.scale(i, s, [])
            sc = lambda c: ([[v / s if j == i else v for j, v in enumerate(row)] for row in c[0]], [])
            T = [(a, sc(c), l) for a, c, l in T]
    for x in generic(r, [c for _, c, _ in T] + [c for _, c, _ in M] + crops, d, 12):
        want = cands(T, x)
        hits = [p for p in pw.pieces if p.domain.contains(x)]
        if not want:
            m.ok("unbounded_outside", not hits and pw.at(x) is None, lambda: f"{desc()} at {x}: defined outside")
            continue
        m.ok("unbounded_inside", len(hits) == 1 and pw.at(x) == want[0][0], lambda: f"{desc()} at {x}: {pw.at(x)} want {want[0]}")
        m.ok("unbounded_label", tuple(hits[0].a) == want[0][1] and (scaled or hits[0].label == want[0][2]), lambda: f"{desc()} at {x}: label {hits[0].label} want {want[0]}")
    if crops:
        m.nontrivial(desc())


def case_check(r, m):
    """the defect check: accepts covers, rejects overlaps and visible gaps"""
    W = (box_rows([(F(0), F(2)), (F(0), F(2))]), [])
    cs = [W]
    for _ in range(r.choice([0, 1, 2])):
        c = cs.pop(r.randrange(len(cs)))
        g = [q(r, -2, 2, (1, 2)), r.choice([-1, 0, 1, 2]), r.choice([-2, 1, -1])]
        cs += [x for x in ((c[0] + [g], []), (c[0] + [[-v for v in g]], [])) if E.full_dim(x, 2)]
    kind = r.choice(["ok", "gap", "overlap"])
    if kind == "gap":
        i = r.randrange(len(cs))
        x = E.interior_point(cs[i], 2)
        cs.pop(i) if r.random() < .5 and len(cs) > 1 else cs.__setitem__(i, (cs[i][0] + [[-x[0] - F(1, 5), 1, 0]], []))
    elif kind == "overlap":
        i = r.randrange(len(cs))
        x = E.interior_point(cs[i], 2)
        e = F(1, r.choice([3, 50, 1000]))
        cs.append((cs[i][0] + [[-x[0] + e, 1, 0], [x[0] + e, -1, 0]], []))
        r.shuffle(cs)
    cs = [c for c in cs if E.full_dim(c, 2)]
    over = any(E.interiors_meet(cs[i], cs[j], 2) is not None for i in range(len(cs)) for j in range(i))
    pts = [(F(2 * i, 100), F(2 * j, 100)) for i in range(100) for j in range(100)]
    gap = any(not any(E.member(c, x) for c in cs) for x in pts)
    pw = Piecewise([Affine2([k, 0, 1], mk(Polytope, c, r), k) for k, c in enumerate(cs)])
    got = bool(pw.check((0, 2), (0, 2)))
    m.ok("check", got == (not over and not gap), lambda: f"{[show(c) for c in cs]}: overlap {over} gap {gap} check {got}")
    m.count(f"check_{kind}")
    m.nontrivial([show(c) for c in cs])


SUITES = [
    Suite("ops", case_ops, 900, 25000, need=["value", "label", "cover", "cells_disjoint", "undefined_outside", "operands_unchanged"]),
    Suite("grid", case_grid, 400, 10000, need=["grid_outside", "grid_inside", "grid_label"]),
    Suite("single", case_single, 700, 15000, need=["eval", "scale", "copy"]),
    Suite("unbounded", case_unbounded, 250, 6000, need=["unbounded_outside", "unbounded_inside", "unbounded_label"]),
    Suite("check", case_check, 20, 400, need=["check"]),
]
