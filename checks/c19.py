"""C19: large value estimates denote the region their bounds describe; raising to a power."""
from vh import Suite
from checks.lvs import *
from fractions import Fraction as F
import functools

PROPERTY = "C19"
RULE = "random lists of 1-4 affine bounds (ties, duplicates, parallel, dominated and never-binding ones) judged at points near every face and crossing and far out; powers 2-8 and chains of powers; every recorded estimate against its recorded text; non-trivial when points inside and outside both occurred"


def judge(m, r, kind, region, has, pts, D):
    n = [0, 0]
    for x in pts:
        w = has(x)
        g = region.contains(x)
        m.ok(kind, bool(g) == w, lambda: f"{[str(v) for v in x]}: contained {g}, want {w}; {D()}")
        n[w] += 1
    if n[0] and n[1]:
        m.nontrivial(D())


def case_lit(r, m):
    B = rand_lv(r)
    keep = [list(b) for b in B]
    how = r.randrange(4)
    rf = ref(r)
    if how == 0:
        e, h = lv.convert_bounds(B), None
    elif how == 1:
        h = lv.literature_bound_LV_max(B, rf, r.choice(["", " with x"]))
    elif how == 2:
        h = lv.classical_LV_estimate(B)
    else:
        h = lv.conjectured_LV_estimate(B, "c")
    if h is not None:
        e = h.data
        m.ok("kind", h.hypothesis_type == "Large value estimate" and not h.dependencies, h.hypothesis_type)
    D = lambda: f"bounds {[[str(v) for v in b] for b in keep]}"
    m.eq("unchanged", B, keep)
    judge(m, r, "region", e.region, lambda x: lv_has(keep, x), lv_points(r, [keep], 16), D)
    bad = disjoint(cells_of(e.region), 3)
    m.ok("disjoint", bad is None, lambda: f"overlap {show(bad[0])} {show(bad[1])}; {D()}")
    x = lv_points(r, [keep], 1)[0]
    m.ok("printed", all(ch in str(e) for ch in "ρ"), lambda: f"{e}")


def case_power(r, m):
    B = rand_lv(r)
    h = dress(r, lv_h(r, B)) if r.random() < .85 else lv.large_value_estimate_L2
    if h is lv.large_value_estimate_L2:
        B = L2
    chain = [F(r.choice([2, 2, 3, 4, 5, 8, 1])) for _ in range(r.choice([1, 1, 2]))]
    before = cells_of(h.data.region)
    g, k = h, F(1)
    for c in chain:
        tr = lv.raise_to_power_hypothesis(c if r.random() < .5 else int(c))
        p = g
        if r.random() < .4:     # the transform is used for more than one estimate, of the same name
            o = lv_h(r, rand_lv(r))
            if r.random() < .8:
                o.name, o.reference = p.name, p.reference
            tr.data.transform(o)
        g = tr.data.transform(p)
        k *= c
        m.ok("cites", set(g.dependencies) == {p} and g.hypothesis_type == "Large value estimate" and g.reference.is_derived(), lambda: f"{g.dependencies}")
        m.ok("date", g.reference.year() == p.reference.year() or not isinstance(p.reference.year(), int), lambda: f"{g.reference.year()} {p.reference.year()}")
    D = lambda: f"bounds {[[str(v) for v in b] for b in B]} power {chain}"
    has = lambda x: lv_has(B, [x[0], x[1] / k, x[2] / k])
    pts = [[s, t * k, p * k] for s, t, p in lv_points(r, [B], 12)] + lv_points(r, [B], 4)
    pts = [x for x in pts if all(abs(v) not in (BIG, BIG * k) for v in x)]
    judge(m, r, "power", g.data.region, has, pts, D)
    judge(m, r, "parent_unchanged", h.data.region, lambda x: lv_has(B, x), lv_points(r, [B], 4), D)
    m.ok("parent_unchanged", same_cells(cells_of(h.data.region), before, 3), D)


SUITES = [
    Suite("literature", case_lit, 500, 15000, need=["region", "disjoint"]),
    Suite("power", case_power, 500, 15000, need=["power", "cites"]),
]
