"""C16: exponent pair transforms, expansion to a depth, convex hull; proofs replayed exactly."""
from fractions import Fraction as F
from vh import Suite
from vh.util import tiny
from checks.mupairs import *
from checks.hyp import *
import exponent_pair as ep

PROPERTY = "C16"
RULE = "random collections of 0-6 rational pairs of the admissible triangle (collinear, repeated and trivial ones included), any subset of the transforms A, B, C, depths 0-4 with and without pruning; non-trivial when at least one new pair is generated"


def rand_pairs(r, lo=0, hi=6):
    k = r.random()
    n = r.randint(lo, hi) if r.random() > .04 else r.randint(2 * hi, 4 * hi)   # now and then a large collection
    if k < .6:
        ps = [rand_pair(r) for _ in range(n)]
    elif k < .85:   # collinear
        a, b = rand_pair(r), rand_pair(r)
        ps = [tuple(x + (y - x) * t for x, y in zip(a, b)) for t in (F(r.randint(0, 4), 4) for _ in range(n))]
    else:
        ps = [(F(0), F(1)), (H, H)] + [rand_pair(r) for _ in range(max(0, n - 2))]
    ps = ps[:max(n, lo)]
    if ps and len(ps) < hi and r.random() < .15:     # hardly different from another one
        ps.append(mix(r.choice(ps), rand_pair(r), abs(tiny(r))))
    return ps


def key(h):
    return F(h.data.k), F(h.data.l)


def case_transform(r, m):
    for _ in range(4):
        p = rand_pair(r)
        h = dress(r, pair_h(r, p))
        d0 = set(h.dependencies)
        for n, f in TR.items():
            o = TRH[n].data.transform(h)
            m.ok("transform", key(o) == f(p) and o.hypothesis_type == "Exponent pair", lambda: f"{n}{p} gave {o.data}, want {f(p)}")
            m.ok("transform_cites", o.dependencies == {h, TRH[n]}, lambda: f"{o.dependencies}")
            m.ok("source", key(h) == p and h.dependencies == d0)
            k, l = key(o)
            m.ok("triangle", 0 <= k <= H <= l <= 1 and k + l <= 1, lambda: f"{n}{p} = {o.data}")
    m.nontrivial(p)


def case_expand(r, m):
    ps = rand_pairs(r)
    trs = [t for t in "ABC" if r.random() < .6]
    hs = dress(r, [pair_h(r, p) for p in ps]) + [TRH[t] for t in trs]
    if r.random() < .3:
        hs.append(ep.trivial_exp_pair)
        ps = ps + [(F(0), F(1))]
    r.shuffle(hs)
    S = Hypothesis_Set(hs)
    prune = r.random() < .5
    depth = r.randint(0, 5) if prune else r.randint(0, 2 if len(trs) == 3 else 3)
    names = [(TRH[t], TRH[t].name) for t in trs]
    try:
        if r.random() < .15:     # the name of a transform does not say what it does
            for h, _ in names:
                h.name = "Transform"
        out = ep.compute_exp_pairs(S, search_depth=depth, prune=prune)
    finally:
        for h, n in names:
            h.name = n
    got = [key(h) for h in out]
    D = lambda: f"pairs {[(str(a), str(b)) for a, b in ps]} transforms {trs} depth {depth} prune {prune}: {sorted((str(a), str(b)) for a, b in got)}"
    m.ok("distinct", len(set(got)) == len(got), D)
    seen = {}
    for h in out:
        try:
            check_proof(h, hs, seen)
        except Bad as e:
            m.fail("proof", f"{e}; {D()}")
        k, l = key(h)
        m.ok("triangle", 0 <= k <= H <= l <= 1 and k + l <= 1, D)
    m.ok("proof", True)
    want = rounds(ps, trs, depth) if prune else words(ps, trs, depth)
    if prune:
        for p in want:
            m.ok("complete", bool(got) and in_hull(p, got), lambda: f"{p} is not in the hull; {D()}")
    else:
        m.ok("complete", want <= set(got), lambda: f"missing {want - set(got)}; {D()}")
    limit = rounds(ps, trs, depth * max(1, len(trs)))
    for p in got:
        m.ok("sound", in_hull(p, limit), lambda: f"{p} is not implied; {D()}")
    m.ok("unchanged", set(S) == set(hs) and len(S) == len(set(hs)), D)
    if set(got) - set(ps):
        m.nontrivial(D())
    m.sample(D())


def case_hull(r, m):
    ps = rand_pairs(r, 1, 12)
    hs = dress(r, [pair_h(r, p) for p in ps])
    S = Hypothesis_Set(hs)
    V = [key(h) for h in ep.compute_convex_hull(S)]
    D = lambda: f"pairs {[(str(a), str(b)) for a, b in ps]}: {V}"
    m.ok("hull_members", all(v in ps for v in V), D)
    for p in ps:
        m.ok("hull_contains", in_hull(p, V), lambda: f"{p} outside; {D()}")
    if len(hull(ps)) > 2 and len(set(ps)) == len(ps):
        m.ok("hull_vertices", set(V) == hull(ps), lambda: f"want {hull(ps)}; {D()}")
        m.nontrivial(D())
    for h in ep.compute_convex_hull(S):
        m.ok("hull_hypotheses", any(h is x for x in hs), D)


SUITES = [
    Suite("transform", case_transform, 300, 5000, need=["transform", "triangle"]),
    Suite("expand", case_expand, 600, 25000, need=["complete", "sound", "proof"]),
    Suite("hull", case_hull, 800, 20000, need=["hull_contains", "hull_vertices"]),
]
