"""Builders of real hypotheses and a validator of derived proofs."""
from fractions import Fraction as F
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference
from exponent_pair import Exp_pair
from bound_mu import Bound_mu
from bound_beta import Bound_beta
from functions import Affine, Interval
import literature as L
from checks.mupairs import *

TRH = {"A": L.A_transform_hypothesis, "B": L.B_transform_hypothesis, "C": L.C_transform_hypothesis, "D": L.D_transform_hypothesis}


def ref(r, lo=1900, hi=2020):
    if r.random() < .2 and lo <= 1970 <= hi:     # several results of the same source
        return Reference.make("Able", 1970)
    return Reference.make(r.choice(["Able", "Baker", "Cook"]), r.randint(lo, hi))


def pair_h(r, p, year=None):
    rf = ref(r) if year is None else Reference.make("Able", year)
    return Hypothesis(f"pair {p[0]} {p[1]} {rf.year()}" if r.random() < .8 else f"{rf.author()} exponent pair", "Exponent pair", Exp_pair(*p), "given", rf)


def mu_h(r, s, v):
    return Hypothesis(f"mu {s}", "Upper bound on mu", Bound_mu(s, v), "given", ref(r))


def beta_h(r, a, year=None):
    """a = (m, c, x0, x1, incl, incl)"""
    rf = ref(r) if year is None else Reference.make("Able", year)
    return Hypothesis(f"beta {a}" if r.random() < .8 else "beta", "Upper bound on beta", Bound_beta(Affine(a[0], a[1], Interval(*a[2:]))), "given", rf)


def dress(r, hs, p=.3):
    """Where a result comes from does not change what it says: some of the hypotheses become derived ones (with a
    dependency outside the collection), conjectures, classical or trivial ones."""
    one = not isinstance(hs, list)
    for h in [hs] if one else hs:
        if r.random() < p:
            k = r.random()
            if k < .6:
                h.reference = Reference.derived(r.randint(1900, 2020))
                h.dependencies = {Hypothesis(f"root of {h.name}", h.hypothesis_type, h.data, "given", ref(r))}
            else:
                h.reference = r.choice([Reference.conjectured, Reference.classical, Reference.trivial])()
    if not one and len(hs) > 1 and r.random() < .12:
        alike(hs)
    return hs


def alike(hs):
    """results recorded under one name with one source and one proof: still different results"""
    for h in hs:
        h.name, h.reference, h.proof = hs[0].name, hs[0].reference, hs[0].proof


def beta_ok(deps, p, lo=F(0), hi=H):
    """the cited exponential-sum bounds imply beta(a) <= (l-k) a + k on [0, 1/2]: exact, by critical points"""
    fs = [d.data.bound for d in deps]
    m, c = p[1] - p[0], p[0]
    xs = {lo, hi}
    for f in fs:
        xs |= {x for x in (f.domain.x0, f.domain.x1) if lo <= x <= hi}
        if f.m != m:
            x = F(c - f.c) / F(f.m - m)
            if lo <= x <= hi:
                xs.add(x)
    xs = sorted(xs)
    for a, b in zip(xs, xs[1:]):
        x = (a + b) / 2
        if not any(f.domain.contains(x) and f.m * x + f.c <= m * x + c for f in fs):
            return x
    return None


class Bad(Exception):
    pass


def check_proof(h, members, seen=None):
    """Every node of a derived pair / mu bound follows from its direct dependencies, and leaves are members
    (or the classical bound mu(1) <= 0). Raises Bad."""
    seen = {} if seen is None else seen
    if id(h) in seen:
        return
    seen[id(h)] = h
    if any(h is x for x in members):
        return
    ds = list(h.dependencies)
    t = h.hypothesis_type
    by = {}
    for d in ds:
        by.setdefault(d.hypothesis_type, []).append(d)
    if t == "Upper bound on mu":
        s, v = h.data.sigma, h.data.mu
        if not ds:
            trivial = H - s if s <= 0 else F(0) if s >= 1 else (1 - F(s)) / 2
            if v != trivial:
                raise Bad(f"{h.desc()} has no dependencies and is not the trivial bound {trivial}")
        elif len(by.get("Exponent pair", [])) == 1 and len(ds) == 1:
            p = ds[0].data
            if (s, v) != (p.l - p.k, p.k):
                raise Bad(f"{h.desc()} does not follow from {p}")
        elif set(by) == {"Upper bound on mu"} and len(ds) == 1:
            b = ds[0].data
            if (s, v) not in ((1 - b.sigma, b.mu + b.sigma - H), (b.sigma, b.mu)):
                raise Bad(f"{h.desc()} is not the reflection of {b}")
        elif set(by) == {"Upper bound on mu"} and len(ds) == 2:
            a, b = ds[0].data, ds[1].data
            ok = (v - a.mu) * (b.sigma - a.sigma) == (b.mu - a.mu) * (s - a.sigma) and min(a.sigma, b.sigma) <= s <= max(a.sigma, b.sigma)
            if not ok:
                raise Bad(f"{h.desc()} is not between {a} and {b}")
        else:
            raise Bad(f"{h.desc()} has dependencies {ds}")
    elif t == "Exponent pair":
        p = (h.data.k, h.data.l)
        tr = by.get("Exponent pair transform", [])
        ps = by.get("Exponent pair", [])
        bs = by.get("Upper bound on beta", [])
        if len(tr) == 1 and len(ps) == 1 and not bs:
            f = next((f for n, f in TR.items() if tr[0] is TRH[n]), None)
            if f is None or p != f((F(ps[0].data.k), F(ps[0].data.l))):
                raise Bad(f"{h.desc()} is not {tr[0].name} of {ps[0].desc()}")
        elif ps and not tr and not bs:
            if not in_hull(p, [(x.data.k, x.data.l) for x in ps]):
                raise Bad(f"{h.desc()} is not in the hull of {[x.data for x in ps]}")
        elif bs and not tr and not ps:
            x = beta_ok(bs, p)
            if x is not None:
                raise Bad(f"{h.desc()}: the cited bounds {[b.data for b in bs]} do not give it at {x}")
        else:
            raise Bad(f"{h.desc()} has dependencies {ds}")
    elif t == "Upper bound on beta":
        f = h.data.bound
        ps, tr, bs = by.get("Exponent pair", []), by.get("Exponent pair to beta bound transform", []), by.get("Upper bound on beta", [])
        if len(bs) == 1 and len(ds) == 1:
            g = bs[0].data.bound
            if (f.m, f.c) != (g.m, g.c) and not (f.domain.x0 == f.domain.x1 and f.m * f.domain.x0 + f.c == g.m * f.domain.x0 + g.c) or f.domain.x0 < g.domain.x0 or f.domain.x1 > g.domain.x1:
                raise Bad(f"{h.desc()} does not restrict {g}")
        elif len(ps) == 1 and len(ds) == 1:
            k, l = ps[0].data.k, ps[0].data.l
            if (f.m, f.c) != (l - k, k) or f.domain.x0 < 0 or f.domain.x1 > H:
                raise Bad(f"{h.desc()} is not the bound of {ps[0].data}")
        elif len(ps) == 1 and len(tr) == 1 and tr[0] is TRH["D"]:
            k, l = F(ps[0].data.k), F(ps[0].data.l)
            for x in (f.domain.x0, f.domain.x1):
                want = max(((6 * k + 5 * l + 2) / (2 * (5 * k + 3 * l + 2))) * x + (5 * k + l + 2) / (8 * (5 * k + 3 * l + 2)), F(2, 3) * x + F(1, 12))
                if f.m * x + f.c != want:
                    raise Bad(f"{h.desc()} is not the D transform of {ps[0].data} at {x}")
        else:
            raise Bad(f"{h.desc()} has dependencies {ds}")
    elif t in ("Exponent pair transform", "Exponent pair to beta bound transform"):
        raise Bad(f"transform {h.name} is cited but not in the collection")
    else:
        raise Bad(f"unexpected dependency {h.desc()}")
    for d in ds:
        if d.hypothesis_type == "Upper bound on mu" and not d.dependencies and d.data == Bound_mu(1, 0):
            continue
        check_proof(d, members, seen)
