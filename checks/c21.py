"""C21: the combined large value region is the exact intersection and its citations suffice."""
from vh import Suite
from checks.lvs import *
from checks.rg import cells, holds
import zero_density_estimate as zd
import copy

PROPERTY = "C21"
RULE = "random collections of 0-4 large value estimates, powers and zeta estimates over random rectangular, polyhedral and union domains; judged by exact cell cover; histories of several computations over one collection; non-trivial when an estimate cuts the domain and another is not cited"


class Cases(list):
    """an estimate given by a bound on either side of a line (as a list: of what is shown for it)"""
    def __init__(self, line, left, right):
        super().__init__([line, left, right])
        neg = [-v for v in line]
        self.cells = [(BASE + [list(line[:2]) + [line[2], F(0)], list(left) + [F(-1)]], []), (BASE + [neg[:2] + [neg[2], F(0)], list(right) + [F(-1)]], [])]


def cases(r, near=None):
    """possibly with a cell of an earlier one"""
    if near is not None:
        line, left, right = near
        b = rand_lv(r, 1)[0]
        return Cases(line, left, b) if r.random() < .7 else Cases(line, b, right)
    line = r.choice([[F(3), F(0), F(-1)], [F(2), F(0), F(-1)], [F(7, 10), F(-1), F(0)], [F(1), F(2), F(-1)], [F(-3), F(0), F(1)]])
    return Cases(line, *rand_lv(r, 2))


def cases_h(r, B):
    kids = [Region.from_polytope(mk(Polytope, c)) for c in B.cells]
    return lv.derived_bound_LV(Region.disjoint_union(kids), "by cases", set())


def tree(bounds, k=F(1)):
    """own tree of an estimate raised to the power k"""
    out = []
    for c in (bounds.cells if isinstance(bounds, Cases) else lv_cells(bounds)):
        out.append(("P", ([[g[0], g[1], g[2] / k, g[3] / k] for g in c[0]], [])))
    return ("U", out)


def rand_domain(r):
    s0 = F(r.choice([50, 50, 60, 70, 75, 80]), 100)
    s1 = s0 + F(r.choice([5, 10, 20]), 100)
    t0 = F(r.choice([0, 1, 2, 2, 3, 4]))
    t1 = t0 + r.choice([F(1, 2), 1, 2, t0 or 1])
    pm = r.choice([F(2), F(8), BIG])
    rows = [[F(v) for v in g] for g in box_rows([(s0, s1), (t0, t1), (F(0), pm)])]
    k = r.random()
    if k < .6:
        return ("P", (rows, []))
    if k < .8:
        return ("P", (rows + [[-r.choice([F(1), F(1, 2)]) - t0, r.choice([F(1), F(2), F(-1)]), F(1), F(0)]], []))
    c = (t0 + t1) / 2
    return ("D", [("P", (rows + [[c, F(0), F(-1), F(0)]], [])), ("P", (rows + [[-c - F(1, 7), F(0), F(1), F(0)]], []))])


def collection(r, zeta_ok=True):
    Bs = [rand_lv(r, r.choice([1, 1, 2, 2, 3])) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
    if r.random() < .06:     # many estimates
        Bs = [rand_lv(r, 1) for _ in range(r.randint(6, 9))]
    if r.random() < .5:
        Bs.append([list(b) for b in L2])
    if Bs and r.random() < .2:
        b = list(r.choice(Bs))
        Bs.append(b + rand_lv(r, 1) if r.random() < .5 and len(b) < 3 else b)
    if len(Bs) < 3 and r.random() < .35:
        c = cases(r)
        Bs.append(c)
        if r.random() < .7:
            Bs.append(cases(r, c))
    ks = r.sample([2, 3], r.choice([0, 0, 1]) if len(Bs) < 4 else 0)
    Zs = [rand_lv(r, r.choice([1, 2])) for _ in range(r.choice([0, 0, 1, 2]))]
    hs = [cases_h(r, B) if isinstance(B, Cases) else lv_h(r, B) for B in Bs]
    zs = [zlv_h(r, B) for B in Zs]
    dress(r, hs + zs)
    trs = [lv.raise_to_power_hypothesis(k) for k in ks]
    noise = [pair_h(r, rand_pair(r))] if r.random() < .3 else []
    allh = hs + zs + trs + noise
    r.shuffle(allh)
    return Hypothesis_Set(allh), allh, Bs, ks, Zs, hs, zs


def region_of(T, r):
    from checks.rg import build
    return build(T, r)


def case(r, m):
    S, allh, Bs, ks, Zs, hs, zs = collection(r)
    base = [(h, tree(B)) for h, B in zip(hs, Bs)]
    fp = [cells_of(h.data.region) for h in hs + zs]
    labels = [labels_of(h.data.region) for h in hs + zs]
    first = {}
    asks = [(rand_domain(r), r.random() < .4) for _ in range(r.choice([1, 1, 2]))]
    if len(asks) > 1 and r.random() < .6:
        asks.append(asks[0])
    for n, (T, zeta) in enumerate(asks):
        dom = region_of(T, r)
        before = cells_of(dom)
        h = zd.compute_large_value_region(S, dom, zeta=zeta)
        U = h.data.region
        got = [hrep(c.child) for c in U.child]
        full = [c for c in got if E.full_dim(c, 3)]
        D = lambda: f"estimates {[[[str(v) for v in b] for b in B] for B in Bs]} powers {ks} zeta {[[[str(v) for v in b] for b in B] for B in Zs] if zeta else None} domain {show(leaf(T))}: {[show(c) for c in got]} citing {[d.name + str(d.data) for d in h.dependencies]}"
        leaf = lambda T: T[1] if T[0] == "P" else T[1][0][1]
        m.ok("type", h.hypothesis_type == ("Zeta large value estimate" if zeta else "Large value estimate"), D)
        parts = [t for _, t in base] + [tree(B, F(k)) for B in Bs for k in ks] + ([tree(B) for B in Zs] if zeta else [])
        W = ("I", [T] + parts)
        want = cells(W, 3)
        for w in want:
            x = E.uncovered_point(w, full, 3)
            m.ok("no_less", x is None, lambda: f"{x} satisfies every estimate but is not in the result; {D()}")
        for c in full:
            x = E.uncovered_point(c, want, 3)
            m.ok("no_more", x is None, lambda: f"{x} is ruled out but is in the result; {D()}")
        bad = disjoint(full, 3)
        m.ok("disjoint", bad is None, D)
        # citations
        cited = []
        for d in h.dependencies:
            if any(d is x for x in hs + (zs if zeta else [])):
                pass
            else:
                m.ok("cites", len(d.dependencies) == 1 and any(next(iter(d.dependencies)) is x for x in hs), lambda: f"{d.desc()}; {D()}")
            cs = cells_of(d.data.region)
            cited.append(("U", [("P", c) for c in cs]))
        only = cells(("I", [T] + cited), 3)
        for w in only:
            x = E.uncovered_point(w, full, 3)
            m.ok("sufficient", x is None, lambda: f"{x} satisfies every cited estimate, but is not in the result; {D()}")
        if want and len(h.dependencies) < len(parts):
            m.nontrivial(D())
        m.count("empty_result" if not want else "nonempty_result")
        if parts and not h.dependencies:
            m.count("no_citation")
        # independence
        m.ok("domain_unchanged", same_cells(cells_of(dom), before, 3), D)
        m.ok("unchanged", set(S) == set(allh) and len(S) == len(set(allh)), D)
        m.ok("unchanged", all(same_cells(cells_of(h.data.region), f, 3) for h, f in zip(hs + zs, fp)), D)
        m.eq("labels_unchanged", [labels_of(h.data.region) for h in hs + zs], labels, D)
        kk = (id(T), zeta)
        if kk in first:
            f0, d0 = first[kk]
            m.ok("repeat", all(E.uncovered_point(c, f0, 3) is None for c in full) and all(E.uncovered_point(c, full, 3) is None for c in f0), D)
            m.eq("repeat", sorted(d.name + str(d.data) for d in h.dependencies), d0, D)
        first[kk] = (full, sorted(d.name + str(d.data) for d in h.dependencies))
    m.sample(D())


SUITES = [
    Suite("region", case, 200, 6000, need=["no_less", "no_more", "sufficient", "disjoint", "repeat"]),
]
