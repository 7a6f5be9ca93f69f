"""C18: best exponential-sum bounds are the pointwise minimum, each piece citing a bound that attains it."""
from fractions import Fraction as F
from vh import Suite
from vh.util import q, tiny
from checks.mupairs import *
from checks.hyp import *
import bound_beta as bb
from functions import Affine, Interval

PROPERTY = "C18"
RULE = "random families of 0-8 affine bounds on sub-intervals of [0,1] with all endpoint flags (touching, singleton, identical, tied and gapped ones), requested ranges of every kind; non-trivial when at least two bounds attain the minimum somewhere"


def rand_bounds(r, n):
    out = []
    ends = [F(0), F(1, 4), F(1, 3), F(2, 5), H, F(3, 4), F(1)]
    for _ in range(n):
        a, b = r.choice(ends), r.choice(ends)
        if r.random() < .3:
            a = F(r.randint(0, 20), 20)
        if r.random() < .04:
            a += tiny(r)
        a, b = min(a, b), max(a, b)
        if a == b:
            fl = (True, True) if r.random() < .7 else (r.random() < .5, r.random() < .5)
        else:
            fl = (r.random() < .6, r.random() < .6)
        if out and r.random() < .25:
            m_, c_ = out[-1][:2]
            if r.random() < .3:
                c_ += tiny(r)
        else:
            m_, c_ = q(r, -2, 3, (1, 2, 3, 5)), q(r, -1, 2, (1, 2, 4, 6))
        out.append((m_, c_, a, b) + fl)
    return out


def has(b, x):
    m_, c_, lo, hi, il, iu = b
    return (lo < x or (lo == x and il)) and (x < hi or (x == hi and iu))


def case_best(r, m):
    bs = rand_bounds(r, r.choice([0, 1, 2, 2, 3, 4, 5, 6, 8]) if r.random() > .04 else r.randint(15, 30))
    hs = dress(r, [beta_h(r, b) for b in bs])
    extra = [pair_h(r, rand_pair(r)) for _ in range(r.randint(0, 2))]
    allh = hs + extra
    r.shuffle(allh)
    S = Hypothesis_Set(allh)
    k = r.random()
    if k < .4:
        dom, D0 = None, (F(0), H, True, True)
    else:
        a, b = F(r.randint(0, 12), 12), F(r.randint(0, 12), 12)
        a, b = min(a, b), max(a, b)
        if a == b:
            b = a + F(1, 6)
        D0 = (a, b, r.random() < .7, r.random() < .7)
        dom = Interval(*D0)
    before = [(h.data.bound.m, h.data.bound.c, str(h.data.bound.domain)) for h in hs]
    out = bb.compute_best_beta_bounds(S, dom) if dom is not None else bb.compute_best_beta_bounds(S)
    D = lambda: f"bounds {[tuple(map(str, b)) for b in bs]} on {D0}: {[str(o.data.bound) for o in out]}"
    xs = {D0[0], D0[1]} | {x for b in bs for x in b[2:4]}
    for i in range(len(bs)):
        for j in range(i):
            if bs[i][0] != bs[j][0]:
                xs.add((bs[j][1] - bs[i][1]) / (bs[i][0] - bs[j][0]))
    xs = sorted(xs)
    xs = xs + [(a + b) / 2 for a, b in zip(xs, xs[1:])] + [a + (b - a) / 97 for a, b in zip(xs, xs[1:])] + [D0[0] - 1, D0[1] + 1]
    for x in xs:
        ind = has((0, 0) + D0, x)
        known = [b[0] * x + b[1] for b in bs if has(b, x)]
        ps = [o for o in out if o.data.bound.domain.contains(x)]
        if not ind or not known:
            m.ok("nowhere_else", not ps, lambda: f"defined at {x}: {[str(p.data.bound) for p in ps]}; {D()}")
            continue
        m.ok("covered_once", len(ps) == 1, lambda: f"{len(ps)} pieces at {x}; {D()}")
        f = ps[0].data.bound
        m.ok("minimum", f.m * x + f.c == min(known), lambda: f"at {x}: {f.m * x + f.c}, want {min(known)}; {D()}")
        m.ok("minimum", f.at(x) == min(known), D)
        src = ps[0] if any(ps[0] is h for h in hs) else None
        if src is None:
            m.ok("cites", len(ps[0].dependencies) == 1 and ps[0].hypothesis_type == "Upper bound on beta", lambda: f"{ps[0].dependencies}; {D()}")
            src = next(iter(ps[0].dependencies))
        i = next((i for i, h in enumerate(hs) if h is src), None)
        m.ok("cites", i is not None and has(bs[i], x) and bs[i][0] * x + bs[i][1] == min(known), lambda: f"at {x} cites {src}, which does not attain {min(known)}; {D()}")
    m.eq("unchanged", [(h.data.bound.m, h.data.bound.c, str(h.data.bound.domain)) for h in hs], before, D)
    m.ok("unchanged", set(S) == set(allh), D)
    if len({o.data.bound.m for o in out}) > 1:
        m.nontrivial(D())
    m.sample(D())


def case_pairs(r, m):
    ps = [rand_pair(r) for _ in range(r.randint(0, 4))]
    hs = dress(r, [pair_h(r, p) for p in ps])
    useD = r.random() < .5
    S = Hypothesis_Set(hs + ([TRH["D"]] if useD else []))
    out = bb.exponent_pairs_to_beta_bounds(S)
    D = lambda: f"pairs {ps} D {useD}: {[str(o.data) for o in out]}"
    for h, p in zip(hs, ps):
        mine = [o for o in out if h in o.dependencies]
        plain = [o for o in mine if o.dependencies == {h}]
        m.ok("formula", len(plain) == 1, D)
        f = plain[0].data.bound
        m.ok("formula", f.m == p[1] - p[0] and f.c == p[0], lambda: f"{f} from {p}")
        for x in (F(0), F(1, 7), H):
            m.ok("formula", f.domain.contains(x) and f.at(x) == (p[1] - p[0]) * x + p[0], D)
        m.ok("formula", not f.domain.contains(H + F(1, 100)) and not f.domain.contains(-F(1, 100)), D)
        rest = [o for o in mine if o.dependencies != {h}]
        m.ok("transform_only_if_known", useD or not rest, D)
        if useD:
            k, l = p
            for i in range(26):
                x = F(i, 50)
                want = max(((6 * k + 5 * l + 2) / (2 * (5 * k + 3 * l + 2))) * x + (5 * k + l + 2) / (8 * (5 * k + 3 * l + 2)), F(2, 3) * x + F(1, 12))
                vs = [o.data.bound.at(x) for o in rest if o.data.bound.domain.contains(x)]
                m.ok("D_formula", all(v == want for v in vs), lambda: f"at {x}: {vs}, want {want}; {D()}")
                m.ok("D_covers", bool(vs) or 2 * i in (0, 50), lambda: f"nothing at {x}; {D()}")
            m.ok("D_cites", all(o.dependencies == {h, TRH["D"]} for o in rest), D)
    m.ok("nothing_else", all(any(h in o.dependencies for h in hs) for o in out), D)
    m.nontrivial(D())


SUITES = [
    Suite("best", case_best, 1500, 40000, need=["minimum", "cites", "nowhere_else"]),
    Suite("pairs", case_pairs, 300, 5000, need=["formula", "D_formula"]),
]
