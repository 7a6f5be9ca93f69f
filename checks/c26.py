"""C26: additive energy bounds derived from energy regions equal the exact suprema."""
from vh import Suite
from vh.util import tiny
from checks.lve import *
from checks.c25 import family, lift_dom
from checks.c22 import slice_sup, grid, R_
from checks.rg import leaves
import zero_density_energy_estimate as ze
from functions import Affine, Interval

from checks.c23 import case_trivial

PROPERTY = "C26"
RULE = "random unions of bounded polytopes (cut boxes and hulls of random points), and random collections of energy regions, powers, estimates with constant and varying splitting parameter; the supremum is recomputed exactly at random abscissae by linear-fractional programming over every product of cells; non-trivial when the supremum is positive"
ASSUMPTIONS = ["judged at abscissae off the finitely many breakpoints"]


def case_sup(r, m):
    polys = []
    for _ in range(r.choice([1, 1, 2, 3]) if r.random() > .05 else r.randint(6, 8)):
        for _ in range(30):
            if r.random() < .4:
                P = rand_hull(r, [(-2, 2), (1, 4), (0, 4)], r.choice([4, 4, 5, 6]))
            else:
                P = rand_bounded(r, 3, cuts=r.choice([0, 1, 2, 3]))
            P = ([[F(v) for v in g] for g in P[0]] + [[F(-1, 2), F(0), F(1), F(0)], [F(0), F(0), F(0), F(1)]], [])
            if E.full_dim(P, 3):
                polys.append(P)
                break
        if polys and r.random() < .15:      # a slightly larger or smaller copy of the last cell
            e = tiny(r)
            P = ([[g[0] + e if g[3] < 0 else g[0]] + g[1:] for g in polys[-1][0]], [])
            if E.full_dim(P, 3):
                polys.append(P)
    if not polys:
        return
    lo, hi = sorted([q(r, -2, 2), q(r, -2, 2)])
    if lo == hi:
        hi = lo + 1
    I = Interval(lo, hi)
    kids = [Region.from_polytope(mk(Polytope, P)) for P in polys]
    R = Region.union(kids) if r.random() < .5 else Region.disjoint_union(kids)
    before = cells_of(R)
    res = ze.compute_sup_LV_on_tau(R, I)
    ends = [v[0] for P in polys for v in E.vertices(P, 3)]
    D = lambda: f"{[show(P) for P in polys]} on {I}: {[(str(p[0]), str(p[1])) for p in res]}"
    for s in grid(r, lo, hi, 6, r.sample(ends, min(4, len(ends)))):
        if s in ends:
            continue
        w = [x for x in (slice_sup(P, s) for P in polys) if x is not None]
        hit = [p for p in res if p[1].contains(s)]
        if not w:
            m.ok("sup_undefined", all(p[0].at(s) < -1000 for p in hit), lambda: f"{s}: {D()}")
            continue
        m.ok("sup_cover", len(hit) == 1, lambda: f"{len(hit)} pieces at {s}: {D()}")
        g = hit[0][0].at(s)
        m.ok("sup", g == R_(max(w)), lambda: f"at {s}: {g}, want {max(w)}; {D()}")
        if max(w) > 0:
            m.nontrivial(D())
    m.ok("sup_unchanged", same_cells(cells_of(R), before, 3), D)


def ratio_sup(P, s, num=3, den=1):
    """max x[num]/x[den] over a cell at x[0] = s, with x[den] > 0 (Charnes-Cooper): None if empty"""
    # x = y / t, y[den] = 1, t > 0
    rows = []
    for g in P[0]:
        rows.append([F(0)] + [g[0] + g[1] * s] + list(g[2:]))        # variables (t, x1.. x4 scaled)
    idx = den      # variable order: t, x[1], x[2], x[3], x[4]
    eq = [[F(-1)] + [F(1) if j == idx else F(0) for j in range(5)]]
    rows.append([F(0), F(1), F(0), F(0), F(0), F(0)])
    c = [F(1) if j == num else F(0) for j in range(5)]
    st, v = E.lp_max(c, rows, eq)[:2]
    return v if st == E.OPTIMAL else None


def products(parts, s):
    """full-dimensional products of cells (slices at s kept only if non-empty)"""
    out = [([], [])]
    for T in parts:
        new = []
        for a in out:
            for b in leaves(T):
                x = (a[0] + b[0], a[1] + b[1])
                sl = ([[g[0] + g[1] * s] + list(g[2:]) for g in x[0]], [])
                if E.full_dim(sl, 4):
                    new.append(x)
        out = new
    return out


def region_sup(parts, rows, s):
    ps = products([("P", (lift_dom(rows), []))] + parts, s)
    return max([v for v in (ratio_sup(P, s) for P in ps) if v is not None], default=None)


def case_energy(r, m):
    fam, ks, S, hs = family(r, small=True)
    if r.random() < .3:
        # the energy may grow faster than the second coordinate, so that the ends of its range matter
        a, b = F(r.choice([2, 3, 4])), F(r.choice([1, 2, 3]))
        T = ("P", ([[F(v) for v in g] for g in box_rows([(F(1, 2), F(1)), (F(0), F(14)), (F(0), F(3)), (F(0), F(60)), (F(0), F(4))])] + [[-b, F(0), a, F(0), F(-1), F(0)]], []))
        z = r.random() < .3
        fam = [(lver_h(r, T, z), T, z)] + fam[:r.choice([0, 0, 1])]
        hs = [h for h, _, _ in fam] + [ad.get_raise_to_power_hypothesis(k) for k in ks]
        r.shuffle(hs)
        S = Hypothesis_Set(hs)
    lo = F(r.choice([50, 60, 70, 75, 80]), 100)
    hi = lo + F(r.choice([5, 10, 15]), 100)
    mm = r.choice([F(0), F(0), F(-1), F(1), F(2)])
    c = r.choice([F(2), F(3), F(5, 2), F(2), F(3), F(5, 2), F(3, 2), F(39, 20)]) - min(mm * lo, mm * hi)
    tau0 = Affine(mm, c, Interval(lo, hi))
    before = [cells_of(h.data.region) for h, _, _ in fam]
    out = ze.lver_to_energy_bound(S, tau0)
    D = lambda: f"{[(str(h.data)[:1500], z) for h, _, z in fam]} powers {ks} tau0 {tau0}: {[str(h.data) for h in out]}"
    base = [[-lo, F(1), F(0)], [hi, F(-1), F(0)]]
    L1 = base + [[-c, -mm, F(1)], [2 * c, 2 * mm, F(-1)]]
    L2_ = base + [[F(-2), F(0), F(1)], [c, mm, F(-1)]]
    nz = [T for _, T, z in fam if not z] + [scaled(T, F(k)) for _, T, z in fam if not z for k in ks]
    al = nz + [T for _, T, z in fam if z]
    for s in grid(r, lo, hi, 3):
        a, b = region_sup(nz, L1, s), region_sup(al, L2_, s)
        v = max([x for x in (a, b) if x is not None], default=None)
        hit = [h for h in out if h.data.interval.contains(s)]
        if v is None:
            m.count("no_feasible_tuple")
            m.ok("energy_none", all(h.data.at(s) <= 0 for h in hit), lambda: f"at {s}: {D()}")
            continue
        m.ok("energy_cover", len(hit) == 1, lambda: f"{len(hit)} estimates at {s}, want {v / (1 - s)}; {D()}")
        g = hit[0].data.at(s)
        if v == 0:
            m.ok("energy", g <= 0, lambda: f"at {s}: {g}; {D()}")
            continue
        m.ok("energy", g == R_(v / (1 - s)), lambda: f"at {s}: {g}, want {v / (1 - s)} (sup {a}, zeta {b}); {D()}")
        m.nontrivial(D())
    cited = []
    for h in out:
        m.ok("type", h.hypothesis_type == "Zero density energy estimate", D)
        st, seen, found = list(h.dependencies), set(), set()
        while st:
            d = st.pop()
            if id(d) in seen:
                continue
            seen.add(id(d))
            if any(d is f for f, _, _ in fam):
                found.add(id(d))
            st += list(d.dependencies)
        cited.append(found)
    if out and r.random() < .5:
        # what is cited must give the bound by itself
        s = lo + (hi - lo) * F(r.randint(1, 9972), 9973)
        hit = next((i for i, h in enumerate(out) if h.data.interval.contains(s)), None)
        if hit is not None:
            f2 = [(h, T, z) for h, T, z in fam if id(h) in cited[hit]]
            nz2 = [T for _, T, z in f2 if not z] + [scaled(T, F(k)) for _, T, z in f2 if not z for k in ks]
            al2 = nz2 + [T for _, T, z in f2 if z]
            a, b = region_sup(nz2, L1, s), region_sup(al2, L2_, s)
            v = max([x for x in (a, b) if x is not None], default=F(0))
            m.ok("sufficient", R_(v / (1 - s)) <= max(out[hit].data.at(s), 0), lambda: f"at {s} the cited regions only give {v / (1 - s)}; {D()}")
    m.ok("unchanged", set(S) == set(hs) and all(same_cells(cells_of(f.data.region), b, 5) for (f, _, _), b in zip(fam, before)), D)
    m.sample(D())


SUITES = [
    Suite("sup", case_sup, 250, 6000, need=["sup", "sup_cover"]),
    Suite("energy", case_energy, 80, 2000, need=["energy", "energy_cover", "sufficient"]),
    Suite("trivial", case_trivial, 100, 2000, need=["trivial_value", "trivial_base"]),
]
