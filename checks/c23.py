"""C23: tables of best zero density / energy estimates are pointwise minima with true provenance."""
from vh import Suite
from checks.zdt import *

PROPERTY = "C23"
RULE = "random collections of 0-6 rational-function estimates on sub-intervals of [1/2,1] (touching, nested, equal, crossing, with all endpoint flags, given as text or as functions, some with the same name), judged exactly on both sides of every crossing and interval end; non-trivial when two estimates are defined at a judged point"


def collection(r, kind):
    fs = []
    n = r.choice([0, 1, 2, 3, 3, 4, 5, 6]) if r.random() > .03 else r.randint(9, 12)
    for _ in range(n):
        I = ival(r)
        f = rand_est(r, I, r.choice(fs)[0] if fs and r.random() < .6 else None)
        fs.append((f, I))
    hs = []
    S0 = Hypothesis_Set()
    for i, (f, I) in enumerate(fs):
        rfn = ref(r)
        k = r.random()
        Z = zd.Zero_Density_Estimate if kind == "zd" else ze.Zero_Density_Energy_Estimate
        if k < .3 and kind == "zd":
            S = Hypothesis_Set()
            zd.add_zero_density(S, text(f), Interval(*I), rfn)
            h = next(iter(S))
        elif k < .3:
            h = ze.literature_zero_density_energy_estimate(text(f), Interval(*I), rfn)
        else:
            data = Z.from_rational_func(rf(f), Interval(*I)) if r.random() < .6 else Z(text(f), Interval(*I))
            deps = {pair_h(r, rand_pair(r)) for _ in range(r.randint(0, 2))}
            if deps:
                h = (zd.derived_zero_density_estimate if kind == "zd" else ze.derived_zero_density_energy_estimate)(data, f"proof {i}", deps)
            else:
                h = Hypothesis(f"e{i}", "Zero density estimate" if kind == "zd" else "Zero density energy estimate", data, f"proof {i}", rfn)
        hs.append(h)
    return fs, hs


def table(kind, S):
    return zd.best_zero_density_estimate(S) if kind == "zd" else ze.compute_best_energy_bound(S)


def case(r, m):
    kind = r.choice(["zd", "ze"])
    fs, hs = collection(r, kind)
    other = [pair_h(r, rand_pair(r))]
    I = ival(r)
    f = rand_est(r, I)
    # estimates of the other kind must play no role
    other.append((ze.literature_zero_density_energy_estimate(text(f), Interval(*I), ref(r))) if kind == "zd" else
                 Hypothesis("z", "Zero density estimate", zd.Zero_Density_Estimate(text(f), Interval(*I)), "", ref(r)))
    allh = hs + other
    order = list(range(len(allh)))
    r.shuffle(order)
    S = Hypothesis_Set([allh[i] for i in order])
    deps0 = [set(h.dependencies) for h in hs]
    out = table(kind, S)
    D = lambda: f"{kind}: {[(text(f), str(Interval(*I))) for f, I in fs]}: {[(str(h.data.bound), str(h.data.interval), h.name) for h in out]}"
    T = "Zero density estimate" if kind == "zd" else "Zero density energy estimate"
    m.ok("shape", all(h.hypothesis_type == T for h in out), D)
    if hs:
        m.ok("adjacent", out and out[0].data.interval.x0 == H and out[-1].data.interval.x1 == 1 and all(a.data.interval.x1 == b.data.interval.x0 for a, b in zip(out, out[1:])), D)
    two = False
    vals_at = {}
    for x in judge_points(r, fs):
        vals = [(at(f, x), i) for i, (f, I) in enumerate(fs) if inside(I, x)]
        hit = [h for h in out if h.data.interval.contains(x)]
        if not hs and not hit:
            continue
        m.ok("covered", len(hit) == 1, lambda: f"{len(hit)} pieces at {x}; {D()}")
        h = hit[0]
        g = h.data.at(x)
        if not vals:
            m.ok("placeholder", g > 1000 and not h.dependencies and not any(h.name == k.name for k in hs), lambda: f"at {x}: {g}; {D()}")
            continue
        two |= len(vals) > 1
        want = min(vals)[0]
        vals_at[x] = want
        m.ok("value", g == R_(want), lambda: f"at {x}: {g}, want {want}; {D()}")
        src = [i for v, i in vals if v == want and hs[i].name == h.name and hs[i].proof == h.proof and hs[i].reference is h.reference and set(h.dependencies) == deps0[i]]
        m.ok("provenance", bool(src), lambda: f"at {x} the table cites {h.name} ({h.proof}, {h.reference}, {h.dependencies}), which does not give {want} there; {D()}")
    if two:
        m.nontrivial(D())
    m.ok("unchanged", set(S) == set(allh) and [set(h.dependencies) for h in hs] == deps0 and
         all(str(h.data.interval) == str(Interval(*I)) for h, (_, I) in zip(hs, fs)), D)
    # adding an estimate
    if r.random() < .3:
        I = ival(r)
        f = rand_est(r, I, fs[0][0] if fs else None)
        Z = zd.Zero_Density_Estimate if kind == "zd" else ze.Zero_Density_Energy_Estimate
        S.add_hypothesis(Hypothesis("new", T, Z(text(f), Interval(*I)), "new", ref(r)))
        out2 = table(kind, S)
        for x, w in vals_at.items():
            hit = [h for h in out2 if h.data.interval.contains(x)]
            m.ok("monotone", len(hit) == 1 and hit[0].data.at(x) <= R_(w), lambda: f"at {x}: was {w}; after adding {text(f)} on {Interval(*I)}: {[(str(h.data)) for h in hit]}; {D()}")
    m.sample(D())


def case_simplify(r, m):
    pool = [rand_est(r, (H, F(1))) for _ in range(r.choice([1, 2, 3]))]
    cuts = sorted({H, F(1)} | {F(r.randint(21, 39), 40) for _ in range(r.randint(0, 6))})
    ps = []
    for a, b in zip(cuts, cuts[1:]):
        if r.random() < .12:
            continue
        ps.append((r.choice(pool), a, b))
    inp = [(rf(f), Interval(a, b)) for f, a, b in ps]
    out = zd.simplify(list(inp))
    D = lambda: f"{[(text(f), str(a), str(b)) for f, a, b in ps]} -> {[(str(p[0]), str(p[1])) for p in out]}"
    m.ok("simplify_shorter", len(out) <= len(ps), D)
    m.ok("simplify_merged", not any(same(f, g) and b == c for (f, a, b), (g, c, d) in zip(ps, ps[1:])) or len(out) < len(ps), D)
    for x in cuts + [(a + b) / 2 for a, b in zip(cuts, cuts[1:])]:
        want = [f for f, a, b in ps if a <= x < b]
        hit = [p for p in out if p[1].contains(x)]
        m.ok("simplify_cover", len(hit) == len(want), lambda: f"at {x}; {D()}")
        if want:
            m.ok("simplify_value", hit[0][0].at(x) == R_(at(want[0], x)), lambda: f"at {x}; {D()}")
    m.ok("simplify_unchanged", [str(p[1]) for p in inp] == [str(Interval(a, b)) for _, a, b in ps], D)


def case_trivial(r, m):
    fs, hs = collection(r, "zd")
    if r.random() < .5:
        for h in hs:
            if r.random() < .5:
                h.data.at((h.data.interval.x0 + h.data.interval.x1) / 2)
    S = Hypothesis_Set(hs)
    n0 = len(S)
    ze.add_trivial_zero_density_energy_estimates(S)
    new = [h for h in S if not any(h is x for x in hs)]
    D = lambda: f"{[(text(f), str(Interval(*I))) for f, I in fs]}: {[str(h.data) for h in new]}"
    m.ok("trivial_number", len(new) == len(hs) + 1 and all(any(h is x for x in S) for h in hs), D)
    seen, base = [], 0
    for h in new:
        m.ok("trivial_type", h.hypothesis_type == "Zero density energy estimate", D)
        if not h.dependencies:
            base += 1
            m.ok("trivial_base", h.data.interval.x0 == H and h.data.interval.x1 == 1, D)
            for x in (H, F(3, 4), F(99, 100)):
                m.ok("trivial_base", h.data.at(x) == R_(3 / (1 - x)), D)
            continue
        m.ok("trivial_cites", len(h.dependencies) == 1, D)
        d = next(iter(h.dependencies))
        i = next((j for j, k in enumerate(hs) if k is d), None)
        m.ok("trivial_cites", i is not None, D)
        seen.append(i)
        f, I = fs[i]
        m.ok("trivial_range", h.data.interval == Interval(*I), D)
        for _ in range(3):
            x = I[0] + (I[1] - I[0]) * F(r.randint(1, 96), 97)
            m.ok("trivial_value", h.data.at(x) == R_(3 * at(f, x)), lambda: f"at {x}: {h.data.at(x)}; {D()}")
    m.ok("trivial_cites", sorted(seen) == list(range(len(hs))) and base == 1, D)
    if hs:
        m.nontrivial(D())


SUITES = [
    Suite("table", case, 420, 10000, need=["value", "provenance", "monotone", "placeholder"]),
    Suite("simplify", case_simplify, 300, 6000, need=["simplify_value"]),
    Suite("trivial", case_trivial, 200, 4000, need=["trivial_value", "trivial_base"]),
]
