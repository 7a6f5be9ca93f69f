"""C25: large value energy regions transform and combine soundly."""
from vh import Suite
from checks.lve import *
from checks.rg import build, leaves, cells, tree_has
from checks.c16 import rand_pairs

PROPERTY = "C25"
RULE = "random exponent pairs, estimates, powers and bounded regions in five coordinates, judged at points next to every face; combinations over random rectangles and polyhedra; projections judged by linear programming; non-trivial when points inside and outside both occurred"
ASSUMPTIONS = ["judged off the boundaries of cells"]


def judge(m, kind, region, T, pts, D):
    n = [0, 0]
    for x in pts:
        w, g = holds(T, x), bool(region.contains(x))
        m.ok(kind, g == w, lambda: f"{[str(v) for v in x]}: contained {g}, want {w}; {D()}")
        n[w] += 1
    if n[0] and n[1]:
        m.nontrivial(D())


def case_ep(r, m):
    p = rand_pair(r)
    e = dress(r, pair_h(r, p))
    h = ad.ep_to_lver(e)
    D = lambda: f"pair {p}"
    m.ok("cites", set(h.dependencies) == {e} and h.hypothesis_type == "Large value energy region", D)
    T = ep_tree(*p)
    judge(m, "ep", h.data.region, T, pts5(r, [T], 24), D)
    for x in pts5(r, [T], 2):
        m.ok("contains", h.data.contains(x) == h.data.region.contains(x), D)
    m.raises("contains_dim", Exception, lambda: h.data.contains([F(1)] * 4), D)


def case_lv(r, m):
    Bs = [rand_lv(r) for _ in range(r.choice([0, 1, 2]) if r.random() > .04 else r.randint(5, 8))]
    Zs = [rand_lv(r) for _ in range(r.choice([0, 1, 2]))]
    hs, zs = dress(r, [lv_h(r, B) for B in Bs]), dress(r, [zlv_h(r, B) for B in Zs])
    allh = hs + zs
    r.shuffle(allh)
    S = Hypothesis_Set(allh)
    zeta = r.random() < .4
    out = ad.lv_to_lver(S, zeta) if zeta or r.random() < .5 else ad.lv_to_lver(S)
    src = list(zip(zs, Zs)) if zeta else list(zip(hs, Bs))
    D = lambda: f"bounds {[[[str(v) for v in b] for b in B] for _, B in src]} zeta {zeta}"
    m.eq("number", len(out), len(src), D)
    for o in out:
        m.ok("cites", len(o.dependencies) == 1 and o.hypothesis_type == ("Zeta l" if zeta else "L") + "arge value energy region", D)
        d = next(iter(o.dependencies))
        B = next((B for h, B in src if h is d), None)
        m.ok("cites", B is not None, D)
        T = lv_tree5(B)
        judge(m, "lv", o.data.region, T, pts5(r, [T], 12), D)
    for h, B in src:
        m.ok("unchanged", all(h.data.region.contains(x) == lv_has(B, x) for x in lv_points(r, [B], 3)), D)


def case_power(r, m):
    T = rand_region5(r) if r.random() < .6 else ep_tree(*rand_pair(r))
    h = lver_h(r, T)
    k = r.choice([2, 3, 4, 5])
    tr = ad.get_raise_to_power_hypothesis(k)
    o = tr.data.transform(h)
    D = lambda: f"power {k} of {h.data}"
    m.ok("cites", set(o.dependencies) == {h} and o.hypothesis_type == "Large value energy region", D)
    W = scaled(T, F(k))
    judge(m, "power", o.data.region, W, pts5(r, [W], 14, 8 * k) + pts5(r, [T], 3), D)
    judge(m, "unchanged", h.data.region, T, pts5(r, [T], 4), D)
    # in-place expansion of a collection
    k2 = [k] + ([k + 1] if r.random() < .4 else [])
    h2 = lver_h(r, rand_region5(r), zeta=True)
    S = Hypothesis_Set([h, h2] + [ad.get_raise_to_power_hypothesis(j) for j in k2])
    n = len(S)
    ad.expand_lver(S)
    new = [x for x in S if x.reference.is_derived()]
    m.ok("expand", len(S) == n + len(k2) == n + len(new) and all(set(x.dependencies) == {h} for x in new), lambda: f"{[x.name for x in S]}; {D()}")


def rand_dom(r):
    s0 = F(r.choice([50, 60, 70, 75]), 100)
    s1 = s0 + F(r.choice([5, 10, 25]), 100)
    t0 = F(r.choice([0, 1, 2, 2, 3]))
    t1 = t0 + F(r.choice([1, 2, 4]))
    rows = [[F(v) for v in g] for g in box_rows([(s0, s1), (t0, t1)])]
    if r.random() < .5:
        rows.append([-t0 - F(r.choice([1, 3]), 2), F(r.choice([1, 2])), F(1)])
    return rows


def lift_dom(rows):
    e = lambda i: [F(1) if j == i else F(0) for j in range(5)]
    return [g + [F(0)] * 3 for g in rows] + [x for i in (2, 3, 4) for x in ([F(0)] + e(i), [BIG] + [-v for v in e(i)])]


def family(r, small=False):
    """(hypothesis, tree, zeta) triples and transforms"""
    out = []
    for _ in range(r.choice([0, 1, 1, 2] if not small else [1, 1, 2])):
        T = rand_region5(r)
        z = r.random() < .3
        out.append((dress(r, lver_h(r, T, z), .2), T, z))
    if r.random() < (.35 if not small else .15):
        p = rand_pair(r)
        out.append((ad.ep_to_lver(pair_h(r, p)), ep_tree(*p), False))
    if r.random() < .5:
        B = rand_lv(r, r.choice([1, 2]))
        z = r.random() < .3
        S = Hypothesis_Set([zlv_h(r, B) if z else lv_h(r, B)])
        out.append((ad.lv_to_lver(S, z)[0], lv_tree5(B), z))
    ks = r.sample([2, 3], r.choice([0, 0, 1]))
    trs = [ad.get_raise_to_power_hypothesis(k) for k in ks]
    if r.random() < .25:
        for z in (True, False):
            alike([h for h, _, y in out if y == z])
    hs = [h for h, _, _ in out] + trs
    r.shuffle(hs)
    return out, ks, Hypothesis_Set(hs), hs


def case_best(r, m):
    fam, ks, S, hs = family(r)
    rows = rand_dom(r)
    zeta = r.random() < .4
    dom = Region.from_polytope(Polytope([list(g) for g in rows]))
    before = [cells_of(h.data.region) for h, _, _ in fam]
    h = ad.compute_best_lver(S, dom, zeta=zeta)
    D = lambda: f"{[(f.data if len(str(f.data)) < 1500 else f.name, z) for f, _, z in fam]} powers {ks} zeta {zeta} domain {[[str(v) for v in g] for g in rows]}"
    m.ok("best_type", h.hypothesis_type == ("Zeta l" if zeta else "L") + "arge value energy region", D)
    parts = [T for _, T, z in fam if zeta or not z] + [scaled(T, F(k)) for _, T, z in fam if not z for k in ks]
    W = ("I", [("P", (lift_dom(rows), []))] + parts)
    pts = pts5(r, [W], 25)
    for _ in range(4):       # points in the interior of a random product cell
        P = (lift_dom(rows), [])
        for T in parts:
            c = r.choice(leaves(T))
            Q = (P[0] + c[0], P[1] + c[1])
            if E.full_dim(Q, 5):
                P = Q
        x = E.interior_point(P, 5)
        if x is not None:
            x = [v + F(r.randint(-3, 3), 10**9 + 7) for v in x]
            pts.append(x)
    pts = [x for x in pts if all(E.ev(g, x) != 0 for P in leaves(W) for g in P[0] + P[1] if any(g[1:]))]
    judge(m, "best", h.data.region, W, pts, D)
    cs = [hrep(c.child) for c in h.data.region.child]
    if len(cs) < 9:
        bad = disjoint(cs, 5)
        m.ok("best_disjoint", bad is None, D)
    # citations: members or their powers, and enough of them
    cited = []
    for d in h.dependencies:
        if any(d is f for f, _, z in fam if zeta or not z):
            cited.append(next(T for f, T, _ in fam if f is d))
        else:
            m.ok("best_cites", len(d.dependencies) == 1 and any(next(iter(d.dependencies)) is f for f, _, z in fam if not z), lambda: f"{d.name}; {D()}")
            cited.append(("U", [("P", c) for c in cells_of(d.data.region)]))
    O = ("I", [("P", (lift_dom(rows), []))] + cited)
    for x in pts:
        m.ok("best_sufficient", h.data.region.contains(x) or not holds(O, x), lambda: f"{x} satisfies every cited region but is excluded; {D()}")
    m.ok("unchanged", set(S) == set(hs) and all(same_cells(cells_of(f.data.region), b, 5) for (f, _, _), b in zip(fam, before)), D)
    m.sample(D())


def shadow(cs, dims, y):
    return any(proj_member(c, dims, y, 5) for c in cs)


def case_project(r, m):
    zeta = r.random() < .3
    if r.random() < .5:
        T = rand_region5(r)
        h = lver_h(r, T, zeta)
    else:
        fam, ks, S, hs = family(r, small=True)
        rows = rand_dom(r)
        dom = Region.from_polytope(Polytope([list(g) for g in rows]))
        h = ad.compute_best_lver(S, dom, zeta=zeta)
        parts = [T for _, T, z in fam if zeta or not z] + [scaled(T, F(k)) for _, T, z in fam if not z for k in ks]
        T = ("I", [("P", (lift_dom(rows), []))] + parts)
    cs = [c for c in cells_of(h.data.region)]
    full = [c for c in cs if E.full_dim(c, 5)]
    if len(full) > 12:
        return
    which = r.choice(["lv", "energy"])
    o = ad.lver_to_lv(h) if which == "lv" else ad.lver_to_energy(h)
    dims = {0, 1, 2} if which == "lv" else {0, 1, 3}
    D = lambda: f"{which} of {[show(c) for c in full]}"
    if not full:
        m.ok("project_empty", o is None or not any(E.full_dim(c, 3) for c in cells_of(o.data.region)), D)
        return
    m.ok("project_some", o is not None, D)
    want = "Additive energy estimate" if which == "energy" else ("Zeta large value estimate" if zeta else "Large value estimate")
    m.ok("project_type", o.hypothesis_type == want and set(o.dependencies) == {h}, lambda: f"{o.hypothesis_type}, {o.dependencies}; {D()}")
    n = [0, 0]
    for _ in range(14):
        c = r.choice(full)
        if r.random() < .3:
            x = E.interior_point(c, 5)
        else:
            w = [F(r.randint(-9, 9)) if i in dims else F(0) for i in range(5)]
            st, v, x = lp_point(w, c)
            if st != E.OPTIMAL:
                continue
        y = [x[i] for i in sorted(dims)]
        if r.random() < .8:
            y = [v + F(r.randint(-40, 40), 4001) for v in y]
        a, b = shadow(full, dims, y), None
        # keep away from the boundary of the shadow
        eps = F(1, 10**7)
        if any(shadow(full, dims, [v + s * eps * t for v, t in zip(y, (1, 2, 3))]) != a for s in (-1, 1)):
            continue
        b = bool(o.data.region.contains(y))
        m.ok("project", a == b, lambda: f"{[str(v) for v in y]}: contained {b}, want {a}; {D()}")
        n[a] += 1
    if n[0] and n[1]:
        m.nontrivial(D())
    m.ok("project_unchanged", same_cells(cells_of(h.data.region), cs, 5), D)


def lp_point(w, c):
    res = E.lp_max(w, c[0], c[1])
    return res if len(res) == 3 else (res[0], res[1], None)


def case_star(r, m):
    fam, ks, S, hs = family(r, small=True)
    rows = rand_dom(r)
    zeta = r.random() < .4
    dom = Region.from_polytope(Polytope([list(g) for g in rows]))
    h = ad.compute_LV_star(S, dom, debug=False, zeta=zeta)
    best = ad.compute_best_lver(S, dom, zeta=zeta)
    full = [c for c in cells_of(best.data.region) if E.full_dim(c, 5)]
    D = lambda: f"LV* of {[f.name for f, _, _ in fam]}: {[show(c) for c in full]}"
    if not full:
        m.count("star_empty")
        return
    m.ok("star_some", h is not None, D)
    dep = lambda s: {d if any(d is f for f, _, _ in fam) else (next(iter(d.dependencies)), d.proof) for d in s}
    m.ok("star_cites", dep(h.dependencies) == dep(best.dependencies), D)
    for _ in range(8):
        c = r.choice(full)
        x = E.interior_point(c, 5)
        y = [x[0], x[1], x[3]]
        y = [v + F(r.randint(-60, 60), r.choice([61, 601])) for v in y]
        a = shadow(full, {0, 1, 3}, y)
        eps = F(1, 10**7)
        if any(shadow(full, {0, 1, 3}, [v + s * eps * t for v, t in zip(y, (1, 2, 3))]) != a for s in (-1, 1)):
            continue
        m.ok("star", bool(h.data.region.contains(y)) == a, lambda: f"{[str(v) for v in y]} want {a}; {D()}")


SUITES = [
    Suite("ep", case_ep, 250, 6000, need=["ep", "cites"]),
    Suite("lv", case_lv, 200, 5000, need=["lv", "number"]),
    Suite("power", case_power, 200, 5000, need=["power", "expand"]),
    Suite("best", case_best, 160, 4000, need=["best", "best_sufficient"]),
    Suite("project", case_project, 120, 3000, need=["project"]),
    Suite("star", case_star, 40, 800, need=["star"]),
]
