"""C15: answers depend only on the members of a collection, not on the history of queries, copies and additions.
Every query in a random history is judged against an exact oracle computed from the model's list of members."""
import copy
import io, contextlib
from vh import Suite
from checks.lvs import *
from checks.zdt import rand_est, text, inside, ival, at, R_
from checks.c17 import rand_beta, minval
from checks.c14 import points as mu_points, bracket
from checks.rg import holds
import bound_mu as bm
import bound_beta as bb
import exponent_pair as ep
import zero_density_estimate as zd
import zero_density_energy_estimate as ze
from functions import Affine, Interval

PROPERTY = "C15"
RULE = "random histories of 12-40 operations (adding one, a list, a set or a collection of hypotheses of six families; copying; asking fourteen kinds of queries) over up to five collections sharing hypotheses; every answer is compared with an exact oracle on the model's members; non-trivial when an answer differs from the collection's earlier answer to the same query"
ASSUMPTIONS = ["a collection with growth exponent transforms is judged between the hulls of pairs reachable in 5 rounds and in 5 rounds of every order"]


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


class Model:
    """a collection and the list of its members with their exact meaning"""
    def __init__(self, S, members):
        self.S, self.mem = S, dict(members)   # id(h) -> (h, kind, spec)

    def of(self, kind):
        return [s for _, k, s in self.mem.values() if k == kind]

    def hs(self, kind=None):
        return [h for h, k, _ in self.mem.values() if kind is None or k == kind]


def new_hyp(r):
    """(hypothesis, kind, spec)"""
    k = r.random()
    if k < .25:
        s = F(r.randint(0, 12), 12)
        v = (1 - s) / 2 * r.choice([F(1, 2), F(2, 3), F(9, 10), F(3, 4)])
        return dress(r, mu_h(r, s, v)), "mu", (s, v)
    if k < .5:
        p = rand_pair(r)
        return dress(r, pair_h(r, p)), "pair", p
    if k < .68:
        b = r.choice(rand_beta(r))
        return dress(r, beta_h(r, b)), "beta", b
    if k < .82:
        I = ival(r)
        f = rand_est(r, I)
        z = zd.Zero_Density_Estimate(text(f), Interval(*I))
        return Hypothesis("zd", "Zero density estimate", z, "", ref(r)), "zd", (f, I)
    if k < .92:
        I = ival(r)
        f = rand_est(r, I)
        return ze.literature_zero_density_energy_estimate(text(f), Interval(*I), ref(r)), "ze", (f, I)
    t = r.choice("AB")
    return TRH[t], "tr", t


QUERIES = ["mu", "mu", "mu", "mupw", "hull", "hull", "expand", "construct", "prove", "beta", "beta", "eptobeta", "zd", "ze", "proofmu", "dual", "list"]


def ask(r, m, M, what, D):
    S = M.S
    mus, pairs, trs = M.of("mu"), M.of("pair"), sorted(set(M.of("tr")))
    if what in ("mu", "mupw", "proofmu"):
        lo, hi = bracket(mus, pairs, trs)
        x = F(r.randint(1, 96), 97) if r.random() < .6 else r.choice([H, F(3, 4), F(1, 4), F(5, 6)])
        a, b = envelope(hi, x), envelope(lo, x)
        if what == "mu":
            v = bm.best_mu_bound(x, S).data.mu
        elif what == "mupw":
            u = r.choice([F(0), x / 2, x])
            w = r.choice([F(1), (1 + x) / 2])
            ps = bm.best_mu_bound_piecewise(Interval(u, w), S)
            vs = [p.m * x + p.c for p in ps if p.domain.contains(x)]
            m.ok("mu_piecewise", len(vs) == 1, lambda: f"{len(vs)} pieces at {x}; {D()}")
            v = vs[0]
        else:
            want = b + r.choice([0, F(1, 1000)])
            h = bm.prove_mu_bound(x, want, S)
            m.ok("prove", h is not False and a <= h.data.mu <= want, lambda: f"mu({x}) <= {want} not proved: {h}; {D()}")
            M.mem[id(h)] = (h, "mu", (x, h.data.mu))     # the proved bound is added
            m.ok("prove", bm.prove_mu_bound(x, a - F(1, 10**6), S) is False, D)
            return None
        m.ok("mu", a <= v <= b, lambda: f"mu({x}) <= {v}, members give {b} (at best {a}); {D()}")
        return x, v
    if what == "hull":
        if not pairs:
            return None
        V = {(F(h.data.k), F(h.data.l)) for h in ep.compute_convex_hull(S)}
        m.ok("hull", V <= set(pairs), lambda: f"hull vertices {V}, members {pairs}; {D()}")
        for p in pairs:
            m.ok("hull", in_hull(p, V), lambda: f"{p} outside the hull {V}; {D()}")
        return tuple(sorted(V))
    if what == "expand":
        n = r.randint(0, 3)
        got = [(F(h.data.k), F(h.data.l)) for h in ep.compute_exp_pairs(S, search_depth=n, prune=r.random() < .7)]
        lo, hi = rounds(pairs, trs, n), rounds(pairs, trs, n * max(1, len(trs)))
        for p in lo:
            m.ok("expand", bool(got) and in_hull(p, got), lambda: f"{p} not implied by {got}; {D()}")
        for p in got:
            m.ok("expand", in_hull(p, hi), lambda: f"{p} is not reachable; {D()}")
        return None
    if what == "construct":
        if pairs and r.random() < .7:
            w = [r.choice(pairs) for _ in range(3)]
            p = tuple(sum(c) / 3 for c in zip(*w))
        else:
            p = rand_pair(r)
        h = ep.construct_proof(p[0], p[1], S, reduce_dependencies=r.random() < .5, deep_search=r.random() < .5)
        want = in_hull(p, pairs) if pairs else False
        # the hull is computed in floating point: leave a thin rim around it undecided
        if want or not (pairs and in_hull(p, pairs)):
            m.ok("construct", (h is not None) == want, lambda: f"{p}: {h}, members {pairs}; {D()}")
        if h is not None and p not in pairs:
            ds = list(h.dependencies)
            m.ok("construct", all(id(d) in M.mem for d in ds) and in_hull(p, [M.mem[id(d)][2] for d in ds]), lambda: f"{p} cites {ds}; {D()}")
        return None
    if what in ("beta", "dual"):
        bs = M.of("beta")
        if what == "beta":
            x = F(r.randint(1, 96), 193)
            known = minval(bs, x)
            u, w = sorted([F(r.randint(0, 12), 24), F(r.randint(0, 12), 24)])
            if r.random() < .5 and u < w:
                out = bb.compute_best_beta_bounds(S, Interval(u, w))
                if not u < x < w:
                    known = None
            else:
                out = bb.compute_best_beta_bounds(S)
            ps = [h.data.bound for h in out if h.data.bound.domain.contains(x)]
            m.ok("beta", [p.at(x) for p in ps] == ([] if known is None else [known]), lambda: f"at {x}: {ps}, want {known}; {D()}")
            return x, known
        out = ep.beta_bounds_to_exponent_pairs(S)
        fresh = Hypothesis_Set(r.sample(M.hs(), len(M.mem)))
        want = ep.beta_bounds_to_exponent_pairs(fresh)
        k = lambda hs: {(F(h.data.k), F(h.data.l)) for h in hs}
        m.eq("dual", k(out), k(want), D)
        return None
    if what == "eptobeta":
        out = bb.exponent_pairs_to_beta_bounds(S)
        m.eq("eptobeta", sorted((h.data.bound.m, h.data.bound.c) for h in out), sorted((l - k, k) for k, l in pairs), D)
        return None
    if what in ("zd", "ze"):
        fs = M.of(what)
        out = zd.best_zero_density_estimate(S) if what == "zd" else ze.compute_best_energy_bound(S)
        x = H + F(r.randint(1, 96), 194)
        vals = [at(f, x) for f, I in fs if I[0] < x < I[1]]
        if any(x in I[:2] for f, I in fs):
            return None
        ps = [h for h in out if h.data.interval.contains(x)]
        if not vals:
            m.ok(what, not ps or ps[0].data.at(x) > 1000, lambda: f"at {x}: {ps[0].data.at(x) if ps else None}; {D()}")
            return None
        m.ok(what, len(ps) == 1 and ps[0].data.at(x) == R_(min(vals)), lambda: f"at {x}: {[p.data.at(x) for p in ps]}, want {min(vals)}; {D()}")
        return x, min(vals)
    m.ok("list", {id(h) for h in S} == set(M.mem) and len(S) == len(M.mem) and len(S.list_hypotheses("Exponent pair")) == len(pairs), D)
    return None


def case(r, m):
    pool = []
    log = []
    D = lambda: " ; ".join(log)

    def some(n):
        out = []
        for _ in range(n):
            if pool and r.random() < .3:
                out.append(r.choice(pool))
            else:
                h = new_hyp(r)
                pool.append(h)
                out.append(h)
        return out

    first = some(r.randint(0, 6))
    Ms = [Model(Hypothesis_Set([h for h, _, _ in first]), {id(h[0]): h for h in first})]
    log.append(f"S0 = {[(k, str(s)) for _, k, s in first]}")
    last = {}
    changed = 0
    favourite = r.choice(QUERIES)
    for _ in range(r.randint(12, 40)):
        i = r.randrange(len(Ms))
        M = Ms[i]
        k = r.random()
        if k < .3:
            new = some(r.choice([1, 1, 1, 2, 3]))
            hs = [h for h, _, _ in new]
            how = r.choice(["one", "one", "many_one", "list", "set", "coll", "tuple"])
            if how == "one":
                for h in hs:
                    M.S.add_hypothesis(h)
            elif how == "many_one":
                for h in hs:
                    M.S.add_hypotheses(h)
            else:
                M.S.add_hypotheses({"list": list, "set": set, "coll": Hypothesis_Set, "tuple": tuple}[how](hs))
            M.mem.update({id(h[0]): h for h in new})
            log.append(f"S{i} += ({how}) {[(kk, str(s)) for _, kk, s in new]}")
        elif k < .42 and len(Ms) < 5:
            if r.random() < .7:
                Ms.append(Model(copy.copy(M.S), M.mem))
                log.append(f"S{len(Ms) - 1} = copy S{i}")
            else:
                Ms.append(Model(Hypothesis_Set(M.S), M.mem))
                log.append(f"S{len(Ms) - 1} = Hypothesis_Set(S{i})")
        elif k < .46 and len(Ms) > 1:
            j = r.randrange(len(Ms))
            M.S.add_hypotheses(Ms[j].S)
            M.mem.update(Ms[j].mem)
            log.append(f"S{i} += S{j}")
        else:
            what = favourite if r.random() < .3 else r.choice(QUERIES)
            log.append(f"{what}(S{i})")
            a = quiet(lambda: ask(r, m, M, what, D))
            if a is not None:
                if last.get((i, what), a) != a:
                    changed += 1
                last[i, what] = a
    for i, M in enumerate(Ms):
        quiet(lambda: ask(r, m, M, "list", D))
        quiet(lambda: ask(r, m, M, "mu", D))
    if changed:
        m.nontrivial(D())
    m.sample(D())


def case_lv(r, m):
    """large value regions asked again and again while estimates are added"""
    Bs, hs, log = [], [], []
    S = Hypothesis_Set()
    others = []
    D = lambda: " ; ".join(log)
    for step in range(r.randint(3, 5)):
        k = r.random()
        if k < .6 or not Bs:
            B = rand_lv(r, r.choice([1, 1, 2]))
            h = lv_h(r, B)
            Bs.append(B)
            hs.append(h)
            S.add_hypotheses(h if r.random() < .5 else [h])
            log.append(f"S += {[list(map(str, b)) for b in B]}")
        elif k < .75:
            others.append((copy.copy(S), list(Bs)))
            log.append("copy")
        elif others and k < .85:
            S, Bs = others.pop()
            Bs = list(Bs)
            log.append("go on with the copy")
        s0, t0 = F(r.choice([50, 60, 75]), 100), F(r.choice([1, 2, 3]))
        dom = Region.from_polytope(Polytope.rect((s0, s0 + F(1, 5)), (t0, t0 + 1), (F(0), F(6))))
        R = quiet(lambda: zd.compute_large_value_region(S, dom))
        log.append(f"region over [{s0},{s0 + F(1, 5)}]x[{t0},{t0 + 1}]")
        m.ok("lv_members", set(S) == set(S.hypotheses) and len(S) == len(Bs), D)
        data = R.data if hasattr(R, "data") else R
        reg = data.region if hasattr(data, "region") else data
        for x in lv_points(r, Bs, 12, tmax=4):
            x = [s0 + F(r.randint(1, 96), 485), t0 + F(r.randint(1, 96), 97), x[2]]
            if r.random() < .7:
                b = r.choice(r.choice(Bs))
                x[2] = b[0] + b[1] * x[0] + b[2] * x[1] + F(r.choice([-1, 1]), r.choice([50, 700, 9001]))
            if not 0 < x[2] < 6:
                continue
            want = all(lv_has(B, x) for B in Bs)
            m.ok("lv", bool(reg.contains(x)) == want, lambda: f"{x}: {not want}; {D()}")
    m.nontrivial(D())


SUITES = [
    Suite("history", case, 1000, 25000, need=["mu", "mu_piecewise", "prove", "hull", "expand", "construct", "beta", "dual", "zd", "ze", "list"]),
    Suite("lv", case_lv, 60, 1500, need=["lv"]),
]
