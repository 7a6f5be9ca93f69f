"""Online monitors: every polyhedral, region and piecewise operation the code performs while a derivation runs is
observed at its call boundary; a seeded sample of the calls is judged against its own specification with exact arithmetic."""
import random
from collections import Counter
from fractions import Fraction as F
from vh import exact as E
from vh.util import hrep
from checks.geo import show
from polytope import Polytope
from region import Region, Region_Type
from functions import RationalFunction as RF
import functions


def snap(R):
    """own picture of a region"""
    if isinstance(R, Polytope):
        return ("P", hrep(R))
    t = R.region_type
    if t == Region_Type.POLYTOPE:
        return ("P", hrep(R.child))
    if t == Region_Type.COMPLEMENT:
        return ("C", snap(R.child))
    return ("I" if t == Region_Type.INTERSECT else "U", [snap(c) for c in R.child])


def inside(T, x):
    t, c = T
    if t == "P":
        return E.member(c, x)
    if t == "C":
        return not inside(c, x)
    return (all if t == "I" else any)(inside(k, x) for k in c)


def leaves(T):
    t, c = T
    return [c] if t == "P" else leaves(c) if t == "C" else [l for k in c for l in leaves(k)]


def size(R):
    """leaves of a region, without reading them"""
    if isinstance(R, Polytope) or R.region_type == Region_Type.POLYTOPE:
        return 1
    if R.region_type == Region_Type.COMPLEMENT:
        return size(R.child)
    return sum(size(c) for c in R.child)


def rows(P):
    return [g for g in P[0] + P[1] if any(g[1:])]


def points(r, Ps, d, n):
    """vertices in random directions of random members of Ps, mixtures of them, and points nearby, none on a constraint of Ps"""
    Ps = [P for P in Ps if rows(P)]
    out, vs = [], []
    for P in (r.sample(Ps, min(len(Ps), 3)) if Ps else []):
        loc = []
        for _ in range(3):
            st, _, x = E.lp_max([F(r.randint(-5, 5)) for _ in range(d)], [g for g in P[0]], P[1])
            if st == E.OPTIMAL:
                loc.append(x)
        if loc:
            w = [F(r.randint(1, 9)) for _ in loc]
            vs += loc + [[sum(a * x[i] for a, x in zip(w, loc)) / sum(w) for i in range(d)]]
    allrows = [g for P in Ps for g in rows(P)]
    for _ in range(n):
        if not vs:
            break
        x = [v + F(r.randint(-50, 50), r.choice([101, 1009, 10007])) for v in r.choice(vs)]
        if all(E.ev(g, x) != 0 for g in allrows):
            out.append(x)
    return out


def fix(P, values, d):
    """the slice of P at the given coordinates, as rows over the remaining ones"""
    keep = [i for i in range(d) if i not in values]
    f = lambda g: [g[0] + sum(g[i + 1] * F(v) for i, v in values.items())] + [g[i + 1] for i in keep]
    return ([f(g) for g in P[0]], [f(g) for g in P[1]])


def dim(P):
    return next((len(g) - 1 for g in P[0] + P[1]), 0)


def space(L):
    """dimension of the space a list of polytopes lives in; 0 when no constraint tells"""
    return max((dim(P) for P in L), default=0)


class Watch:
    """with Watch(m, seed): ... installs the monitors around the public operations"""
    def __init__(self, m, r, rate=40, cap=12):
        self.m, self.r, self.rate, self.cap = m, r, rate, cap
        self.calls, self.judged, self.saved, self.busy = Counter(), Counter(), [], False

    def wrap(self, cls, name, judge, before=None):
        raw = cls.__dict__.get(name)
        if raw is None:
            return
        fn = raw.__func__ if isinstance(raw, staticmethod) else raw
        key, self_ = f"{cls.__name__}.{name}", self

        def hook(*a, **k):
            if self_.busy:
                return fn(*a, **k)
            self_.calls[key] += 1
            if self_.judged[key] >= self_.cap or not (self_.judged[key] < 2 or self_.r.random() < 1 / self_.rate):
                return fn(*a, **k)
            self_.busy = True
            try:
                pre = before(*a, **k)
            finally:
                self_.busy = False
            out = fn(*a, **k)
            if pre is None:
                return out
            self_.judged[key] += 1
            self_.busy = True
            try:
                judge(pre, out, a, k)
            finally:
                self_.busy = False
            return out
        setattr(cls, name, staticmethod(hook) if isinstance(raw, staticmethod) else hook)
        self.saved.append((cls, name, raw))

    def __enter__(self):
        m, r = self.m, self.r

        def two(a, b, *_, **__):
            return snap(a)[1], snap(b)[1]

        def intersect(pre, out, a, k):
            A, B = pre
            C = hrep(out)
            for x in points(r, [A, B], space([A, B]), 6):
                m.ok("op:intersect", E.member(C, x) == (E.member(A, x) and E.member(B, x)), lambda: f"{show(A)} and {show(B)} gave {show(C)} at {x}")

        def is_empty(pre, out, a, k):
            (P,) = pre
            closed = (a[1] if len(a) > 1 else k.get("include_boundary", True))
            want = not E.feasible(P, dim(P)) if closed else not E.full_dim(P, dim(P))
            m.ok("op:is_empty", bool(out) == want, lambda: f"is_empty(include_boundary={closed}) of {show(P)} gave {out}")

        def subset(pre, out, a, k):
            m.ok("op:is_subset_of", bool(out) == E.subset(pre[0], pre[1], dim(pre[0])), lambda: f"{show(pre[0])} inside {show(pre[1])} gave {out}")

        def minus(pre, out, a, k):
            A, B = pre
            Cs = [hrep(c) for c in out]
            for x in points(r, [A, B], space([A, B]), 6):
                if all(E.ev(g, x) != 0 for c in Cs for g in rows(c)):
                    m.ok("op:set_minus", sum(E.member(c, x) for c in Cs) == (E.member(A, x) and not E.member(B, x)), lambda: f"{show(A)} minus {show(B)} gave {[show(c) for c in Cs]} at {x}")

        def vrep(pre, out, a, k):
            (P,) = pre
            for v in (out if out is not None else a[0].get_vertices()) or []:
                m.ok("op:vertices", E.member(P, [F(x) for x in v]), lambda: f"{show(P)} got the vertex {v}")

        def project(pre, out, a, k):
            dims, T = pre
            L = leaves(T)
            d = space(L)
            ds = sorted(dims)
            O = snap(out) if out is not None else ("U", [])
            for x in points(r, L, d, 6):
                y = [x[i] for i in ds]
                if any(E.ev(g, y) == 0 for P in leaves(O) for g in rows(P)):
                    continue
                m.ok("op:project", inside(O, y) == shadow(T, dict(zip(ds, y)), d), lambda: f"the projection onto {ds} of {T} gave {O} at {y}")

        def shadow(T, vals, d):
            t, c = T
            if t == "P":
                P = fix(c, vals, d)
                return E.feasible(P, d - len(vals))
            return (all if t == "I" else any)(shadow(k, vals, d) for k in c)

        def proj_before(s, dims, *_, **__):
            T = snap(s)
            if size(s) > 60 or any(t == "C" for t in kinds(T)):
                return None
            return set(dims), T

        def kinds(T):
            yield T[0]
            if T[0] == "C":
                yield from kinds(T[1])
            elif T[0] != "P":
                for c in T[1]:
                    yield from kinds(c)

        def substitute(pre, out, a, k):
            T, vals = pre
            d = space(leaves(T))
            O = snap(out)
            keep = [i for i in range(d) if i not in vals]
            for y in points(r, [fix(P, vals, d) for P in leaves(T)], len(keep), 6):
                x = [None] * d
                for i, v in vals.items():
                    x[i] = F(v)
                for i, v in zip(keep, y):
                    x[i] = v
                m.ok("op:substitute", inside(O, y) == inside(T, x), lambda: f"{T} with {vals} gave {O} at {y}")

        def scaled(pre, out, a, k):
            T, fs = pre
            O = snap(out)
            for x in points(r, leaves(T), len(fs), 6):
                m.ok("op:scale_all", inside(O, [v * F(f) for v, f in zip(x, fs)]) == inside(T, x), lambda: f"{T} scaled by {fs} gave {O} at {x}")

        def lifted(pre, out, a, k):
            T, var = pre
            O = snap(out)
            old = {v: i for i, v in enumerate(var) if isinstance(v, int)}
            d = space(leaves(T))
            for x in points(r, leaves(T), d, 4):
                y = [None] * len(var)
                okk = True
                for i, v in enumerate(var):
                    if isinstance(v, tuple):
                        lo, hi = F(v[0]), F(v[1])
                        u = r.choice([F(-1, 7), F(1, 3), F(6, 7), F(9, 8)])
                        y[i] = lo + (hi - lo) * u
                        okk = okk and 0 <= u <= 1
                    else:
                        y[i] = x[v]
                if len(old) == d:
                    m.ok("op:lift", inside(O, y) == (okk and inside(T, x)), lambda: f"{T} lifted by {var} gave {O} at {y}")

        def disjoint(pre, out, a, k):
            (T,) = pre
            O = snap(out)
            L = leaves(T)
            for x in points(r, L, space(L), 12):
                hit = sum(E.member(P, x) for P in leaves(O))
                if any(E.ev(g, x) == 0 for P in leaves(O) for g in rows(P)):
                    continue
                m.ok("op:as_disjoint_union", hit == inside(T, x), lambda: f"{hit} parts hold {x}, which is {'in' if inside(T, x) else 'not in'} the region of {len(L)} leaves")

        def simplified(pre, out, a, k):
            (T,) = pre
            O = snap(a[0])
            L = leaves(T)
            for x in points(r, L, space(L), 8):
                if any(E.ev(g, x) == 0 for P in leaves(O) for g in rows(P)):
                    continue
                m.ok("op:simplify", inside(O, x) == inside(T, x), lambda: f"simplify changed membership of {x}: {T} became {O}")

        def best(sign):
            def judge(pre, out, a, k):
                fs, dom = pre
                import sympy
                lo, hi = dom
                for _ in range(5):
                    x = F(lo).limit_denominator(10**6) + (F(hi).limit_denominator(10**6) - F(lo).limit_denominator(10**6)) * F(r.randint(1, 9999), 10000)
                    w = [f.at(x) for f, i in fs if within(i, x)]
                    hit = [p for p in out if within(p[1], x)]
                    m.ok("op:rf_best_cover", len(hit) == 1, lambda: f"{len(hit)} pieces at {x} of {out}")
                    g = hit[0][0].at(x)
                    if w:
                        want = max(w) if sign > 0 else min(w)
                        m.ok("op:rf_best", abs(float(g) - float(want)) <= 1e-9 * (1 + abs(float(want))), lambda: f"at {x}: {g}, want {want}: {fs} gave {out}")
            return judge

        def within(i, x):
            return float(i.x0) < float(x) < float(i.x1)

        def fns(lst, dom, *_, **__):
            return [(p[0], p[1]) for p in lst], (num(dom.x0), num(dom.x1))

        def num(v):
            try:
                return F(v)
            except TypeError:
                return F(float(v))

        small = lambda n: (lambda s, *a, **k: (snap(s),) if size(s) <= n else None)
        self.wrap(Polytope, "intersect", intersect, two)
        self.wrap(Polytope, "is_empty", is_empty, lambda s, *a, **k: (hrep(s),) if rows(hrep(s)) else None)
        self.wrap(Polytope, "is_subset_of", subset, two)
        self.wrap(Polytope, "set_minus", minus, two)
        self.wrap(Polytope, "get_vertices", vrep, lambda s: (hrep(s),))
        self.wrap(Polytope, "project", project, proj_before)
        self.wrap(Polytope, "substitute", substitute, lambda s, v: (snap(s), dict(v)))
        self.wrap(Polytope, "scale_all", scaled, lambda s, f: (snap(s), list(f)))
        self.wrap(Polytope, "lift", lifted, lambda s, v: (snap(s), list(v)))
        self.wrap(Region, "project", project, proj_before)
        self.wrap(Region, "substitute", substitute, lambda s, v: (snap(s), dict(v)) if size(s) < 300 else None)
        self.wrap(Region, "scale_all", scaled, lambda s, f: (snap(s), list(f)) if size(s) < 300 else None)
        self.wrap(Region, "lift", lifted, lambda s, v: (snap(s), list(v)) if size(s) < 300 else None)
        self.wrap(Region, "as_disjoint_union", disjoint, small(400))
        self.wrap(Region, "simplify", simplified, small(200))
        self.wrap(RF, "min", best(-1), fns)
        self.wrap(RF, "max", best(1), fns)
        return self

    def __exit__(self, *exc):
        for cls, name, raw in reversed(self.saved):
            setattr(cls, name, raw)
        for k, v in self.calls.items():
            self.m.count("call:" + k, v)
        return False
