"""C30: queries never modify their inputs.
Random programs over pools of shared operands; every operand is fingerprinted before and after each operation, the operation is
repeated, and what it derived is changed afterwards."""
import copy, io, contextlib, math
from collections import Counter
from vh import Suite
from checks.zdt import *
from checks.lvs import *
from checks.lve import *
from checks.rg import *
from checks.c16 import rand_pairs
import bound_beta as bb
import bound_mu as bm
import exponent_pair as ep
import additive_energy as ad
import prime_gap as pg
import literature as L
from constants import Proof_Optimization_Method as PM
from functions import Affine, Affine2, Piecewise, RationalFunction as RF, RationalFunction2
from polynomial import Polynomial
from polytope import Polytope, Hyperplane
from reference import Reference

PROPERTY = "C30"
RULE = "random programs of 6-14 public operations over 3-8 shared operands (results join the pool), with every operand fingerprinted around every operation; non-trivial when at least four operations ran to completion and one derived an object that was then changed"
ASSUMPTIONS = ["a polytope's or region's set is compared exactly for polytopes and at generic points for regions; its rows may be rewritten",
               "collections and objects composed by a constructor (a union of given regions, a collection of given hypotheses) share their parts by design"]


# ------------------------------------------------------------------------------------------------------------ geometry
def leaves_of(R):
    if R.region_type == Region_Type.POLYTOPE:
        return [R.child]
    return [x for c in (R.child if isinstance(R.child, list) else [R.child]) for x in leaves_of(c)]


def inside_region(R, x):
    if R.region_type == Region_Type.POLYTOPE:
        return E.member(hrep(R.child), x)
    if R.region_type == Region_Type.COMPLEMENT:
        return not inside_region(R.child, x)
    f = all if R.region_type == Region_Type.INTERSECT else any
    return f([inside_region(c, x) for c in R.child])


def tags(p):
    d = getattr(p, "dependencies", None)
    return getattr(p, "label", None), None if d is None else frozenset(map(str, d))


class Probe:
    """fixed generic points per dimension"""
    def __init__(self, r):
        self.r, self.p = r, {}

    def pts(self, d):
        if d not in self.p:
            self.p[d] = [[F(self.r.randint(-3200, 3200), 1009) + F(1, 7919) for _ in range(d)] for _ in range(14 if d < 4 else 8)]
        return self.p[d]


def fp_geo(o, pr):
    """fingerprint of a geometric object or of a result made of them"""
    if isinstance(o, Polytope):
        h = hrep(o)
        d = len((h[0] + h[1])[0]) - 1 if h[0] + h[1] else 0
        return "polytope", d, tuple(E.member(h, x) for x in pr.pts(d)), tags(o)
    if isinstance(o, Region):
        ls = leaves_of(o)
        if not ls:
            return ("region", "empty")
        rows = [hrep(p) for p in ls]
        d = next((len((h[0] + h[1])[0]) - 1 for h in rows if h[0] + h[1]), 0)
        return "region", d, tuple(inside_region(o, x) for x in pr.pts(d)), tuple(sorted(str(tags(p)) for p in ls)) if o.region_type != Region_Type.DISJOINT_UNION else frozenset(str(tags(p)) for p in ls)
    if isinstance(o, (list, tuple)):
        fs = [fp_geo(x, pr) for x in o]
        return ("list", len(fs), tuple(sorted(map(str, fs))))
    return ("value", str(o))


def exact_geo(o):
    return hrep(o) if isinstance(o, Polytope) else [hrep(p) for p in leaves_of(o)]


def same_exact(a, b, d):
    if isinstance(a, tuple):
        return a == b or same_set(a, b, d)
    return len(a) == len(b) and all(x == y or same_set(x, y, d) for x, y in zip(a, b))


def gdim(o):
    h = exact_geo(o)
    h = h if isinstance(h, tuple) else h[0]
    return len((h[0] + h[1])[0]) - 1


def change(r, o, own):
    """change a derived object through public means (parts that are operands returned as they are excepted); True when something was changed"""
    if isinstance(o, Polytope):
        if id(o) in own:
            return False
        o.label = "changed"
        o.dependencies = {"changed"}
        if r.random() < .5:
            o.canonicalize()
        if r.random() < .5 and o.mat.row_size:   # cut it by a further constraint
            o.mat.extend([[F(-1, 7)] + [F(1)] * (o.mat.col_size - 1)], linear=False)
        return True
    if isinstance(o, Region):
        if id(o) in own:
            return False
        if not any(id(p) in own for p in leaves_of(o)) and r.random() < .5:
            o.set_label("changed")
            done = True
        else:
            done = any([change(r, p, own) for p in leaves_of(o)])
        if r.random() < .5:
            o.simplify()
        if isinstance(o.child, list) and r.random() < .5:
            o.child.append(Region.from_polytope(Polytope.rect((F(50), F(51)))))
        return done
    if isinstance(o, (list, tuple)):
        done = [change(r, x, own) for x in o]
        if isinstance(o, list):
            o.append("changed")
        return any(done) or isinstance(o, list)
    if isinstance(o, set):
        o.add("changed")
        return True
    return False


def parts(o):
    """the polytopes and regions an operand is made of"""
    if isinstance(o, Region):
        return {id(o)}.union(*[parts(c) for c in (o.child if isinstance(o.child, list) else [o.child])])
    return {id(o)} if isinstance(o, Polytope) else set()


def geo_ops(r, pool, d):
    P = [o for o in pool if isinstance(o, Polytope) and gdim(o) == d]
    R = [o for o in pool if isinstance(o, Region) and gdim(o) == d]
    p, q_ = r.choice(P), r.choice(P)
    x = [F(r.randint(-9, 9), 3) for _ in range(d)]
    lst = [r.choice(P) for _ in range(r.randint(1, 3))]
    fs = [F(r.choice([-2, -1, 1, 2, 3]), r.choice([1, 2])) for _ in range(d)]
    vals = {i: F(r.randint(-3, 3), 2) for i in r.sample(range(d), r.randint(1, d - 1))}
    dims = set(r.sample(range(d), r.randint(1, d)))
    var = list(range(d)) + [(F(0), F(1))]
    r.shuffle(var)
    hp = Hyperplane([F(r.randint(-2, 2)) for _ in range(d)] + [F(1)])
    i = r.randrange(d)
    ops = [("is_empty", lambda: p.is_empty()), ("is_empty(False)", lambda: p.is_empty(include_boundary=False)), ("dimension", lambda: p.dimension()), ("is_full_dim", lambda: p.is_full_dim()),
           ("vertices", lambda: sorted(map(str, p.get_vertices()))), ("centroid", lambda: p.get_centroid()), ("constraints", lambda: [0 for c in p.get_constraints()][:0]),
           ("edges", lambda: len(p.get_edges())), ("contains", lambda: p.contains(x)), ("intersects", lambda: p.intersects(hp)), ("intersect", lambda: p.intersect(q_)),
           ("intersection", lambda: Polytope.intersection(lst)), ("try_union", lambda: Polytope.try_union([p, q_])), ("set_minus", lambda: p.set_minus(q_)),
           ("is_subset_of", lambda: p.is_subset_of(q_)), ("is_covered_by", lambda: p.is_covered_by(lst)), ("substitute", lambda: p.substitute(vals)), ("project", lambda: p.project(dims)),
           ("lift", lambda: p.lift(var)), ("scale_all", lambda: p.scale_all(fs)), ("scale", lambda: p.scale(i, F(2), [])), ("copy", lambda: copy.copy(p)), ("text", lambda: isinstance(str(p), str)),
           ("equal", lambda: p == q_), ("V_rep", lambda: p.compute_V_rep() and None)] * 2
    if R:
        t, u = r.choice(R), r.choice(R)
        ops += [("R.contains", lambda: t.contains(x)), ("R.substitute", lambda: t.substitute(vals)), ("R.scale_all", lambda: t.scale_all(fs)), ("R.project", lambda: t.project(dims)),
                ("R.lift", lambda: t.lift(var)), ("R.copy", lambda: copy.copy(t)), ("R.text", lambda: isinstance(str(t) + Region.to_str(t), str)),
                ("R.disjoint", lambda: t.as_disjoint_union()), ("R.disjoint", lambda: t.as_disjoint_union()), 
                ("R.subset", lambda: u.is_subset_of(t))] * 3
        if all(hasattr(p, "label") for p in leaves_of(t)):
            ops += [("R.tracked", lambda: t.as_disjoint_union(track_dependencies=True))] * 6
    containers = [lst, fs, vals, dims, var, x]
    return r.choice(ops), containers


def snap(c):
    return [list(c_) if isinstance(c_, list) else dict(c_) if isinstance(c_, dict) else set(c_) if isinstance(c_, set) else c_ for c_ in c]


def same_snap(a, b):
    return all(len(x) == len(y) and (all(u is v or (not isinstance(u, (Polytope, Region)) and u == v) for u, v in zip(x, y)) if isinstance(x, list) else x == y)
               if isinstance(x, (list, dict, set)) else True for x, y in zip(a, b))


def geo(r, m):
    d = r.choice([2, 2, 3])
    pr = Probe(r)
    pool = [mk(Polytope, rand_bounded(r, d, cuts=r.choice([0, 1, 2]), full=r.random() < .9), r) for _ in range(r.randint(2, 4))]
    for p in pool:
        if r.random() < .5:
            p.label = r.choice(["a", "b", 3])
    base = list(pool)
    for _ in range(r.randint(1, 3)):
        k = r.random()
        part = lambda: Region.from_polytope(r.choice(base)) if r.random() < .6 else Region.from_polytope(mk(Polytope, rand_bounded(r, d, cuts=1), r))
        R = part() if k < .25 else Region.intersect([part() for _ in range(r.randint(1, 3))]) if k < .6 else build(rand_disjoint(r, d))
        if k >= .6 and r.random() < .6:
            R = Region.intersect([R, part()])
        pool.append(R)
    log, ran, changed = [], 0, False
    F0 = [(fp_geo(o, pr), exact_geo(o)) for o in pool]
    D = lambda: f"after {log}: {[str(o) for o in pool]}"

    def unchanged(kind):
        for j, (o, (f, e)) in enumerate(zip(pool, F0)):
            g = fp_geo(o, pr)
            m.ok(kind, g == f, lambda: f"operand {j} became {g}, was {f}; {D()}")
            m.ok(kind, same_exact(exact_geo(o), e, f[1]), lambda: f"operand {j} is another set: {exact_geo(o)}, was {e}; {D()}")
    for _ in range(r.randint(5, 9)):
        (name, f), cont = geo_ops(r, pool, d)
        before = snap(cont)
        log.append(name)
        try:
            a = f()
        except (NotImplementedError, ValueError, ZeroDivisionError) as ex:
            m.count(f"refused {name}: {type(ex).__name__}")
            unchanged("unchanged")
            continue
        unchanged("unchanged")
        m.ok("arguments", same_snap(before, cont), D)
        fa = fp_geo(a, pr)
        b = f()
        fb = fp_geo(b, pr)
        m.ok("repeat", fa == fb, lambda: f"{name}: first {fa}, then {fb}; {D()}")
        ran += 1
        m.count(f"ran {name}")
        own = set() if "copy" in name else {x for o in pool for x in parts(o)} | {x for o in ([a] if isinstance(a, (Polytope, Region)) else []) for x in parts(o)}
        if "copy" not in name and not isinstance(a, (list, tuple)):
            m.count("results that are an operand itself", int(id(a) in {id(o) for o in pool}))
        if change(r, b, own):
            changed = True
            log.append("change")
            unchanged("independent")
            m.ok("result_kept", fp_geo(a, pr) == fa, lambda: f"changing the second result of {name} changed the first; {D()}")
        if isinstance(a, (Polytope, Region)) and r.random() < .4 and fa[1] == d and (isinstance(a, Polytope) or leaves_of(a)):
            if not (isinstance(a, Polytope) and a.is_empty()) and not (isinstance(a, Region) and any(p.is_empty() for p in leaves_of(a))):
                pool.append(a)
                F0.append((fp_geo(a, pr), exact_geo(a)))
    if ran >= 4 and changed:
        m.nontrivial(D())
    m.sample(D())


# ---------------------------------------------------------------------------------------------------------- hypotheses
def iv(I):
    return str(I.x0), str(I.x1), I.include_lower, I.include_upper


def fp_data(d, pr):
    t = type(d).__name__
    if t == "Exp_pair":
        return t, str(d.k), str(d.l)
    if t == "Bound_mu":
        return t, str(d.sigma), str(d.mu)
    if t == "Bound_beta":
        b = d.bound
        return t, str(b.m), str(b.c), iv(b.domain), str(b.label)
    if t in ("Zero_Density_Estimate", "Zero_Density_Energy_Estimate"):
        vals = []
        a, b = F(str(sympy.nsimplify(d.interval.x0).evalf(15))), F(str(sympy.nsimplify(d.interval.x1).evalf(15)))
        for k in (1, 3, 4):
            x = a + (b - a) * F(k, 7)
            f = d.bound if d.bound is not None else RF.parse(d.expr)
            vals.append(f"{float(f.at(x)):.9g}")
        return t, str(d.expr), iv(d.interval), tuple(vals)
    if hasattr(d, "region"):
        return (t,) + fp_geo(d.region, pr)
    return t, str(d)


def fp_hyp(h, pr, deep=True):
    return (h.name, h.hypothesis_type, h.description, h.proof, id(h.reference), h.reference.label, h.reference.reftype, str(sorted(h.reference.entries.items(), key=str)),
            frozenset(id(x) for x in h.dependencies), id(h.data), fp_data(h.data, pr) if deep else None)


def core(o, pr):
    """a result, compared between two runs on the same inputs"""
    if isinstance(o, Hypothesis):
        f = fp_data(o.data, pr)
        if "Zero_Density" in f[0]:
            f = (f[0],) + f[2:]
        if len(f) > 1 and f[1] == "region":
            f = f[:-1]
        return (o.hypothesis_type, f)
    if isinstance(o, Hypothesis_Set):
        return ("set", tuple(sorted(str(core(x, pr)) for x in o)))
    if isinstance(o, (list, set, tuple)):
        return ("list", tuple(sorted(str(core(x, pr)) for x in o)))
    return str(o)


def derived_of(o):
    if isinstance(o, Hypothesis):
        return [o]
    if isinstance(o, (list, set, tuple, Hypothesis_Set)):
        return [x for y in o for x in derived_of(y)]
    return []


ALL_T = ["Exponent pair", "Upper bound on mu", "Upper bound on beta", "Zero density estimate", "Zero density energy estimate", "Large value estimate", "Zeta large value estimate",
         "Large value energy region", "Zeta large value energy region", "Exponent pair transform", "Any"]


def collection(r):
    """hypotheses of many types; flavours keep every operation affordable"""
    hs = []
    fl = r.choice(["pairs", "pairs", "mu", "beta", "zd", "lv", "lver", "mixed"])
    if fl in ("pairs", "mixed", "mu"):
        hs += [pair_h(r, p) for p in rand_pairs(r, 1, 3)]
        hs += [TRH[t] for t in "ABC" if r.random() < .4]
        if r.random() < .5:
            hs.append(ep.trivial_exp_pair)
    if fl in ("mu", "mixed"):
        for _ in range(r.randint(1, 3)):
            s_ = F(r.randint(0, 20), 20)
            hs.append(mu_h(r, s_, bm.trivial_mu_bound(s_) * F(r.randint(8, 10), 10)))
    if fl in ("beta", "mixed"):
        hs += [bb.trivial_beta_bound_1] if r.random() < .5 else []
        for _ in range(r.randint(1, 3)):
            a, b = sorted(r.sample(range(0, 13), 2))
            hs.append(beta_h(r, (F(r.randint(2, 8), 8), F(r.randint(0, 4), 12), F(a, 24), F(b, 24), True, r.random() < .5)))
    if fl in ("zd", "mixed"):
        for _ in range(r.randint(1, 3)):
            I = ival(r)
            f = rand_est(r, I)
            T = r.random() < .6
            Z = zd.Zero_Density_Estimate if T else ze.Zero_Density_Energy_Estimate
            data = Z.from_rational_func(rf(f), Interval(*I)) if r.random() < .5 else Z(text(f), Interval(*I))
            hs.append(Hypothesis(f"e{len(hs)}", "Zero density estimate" if T else "Zero density energy estimate", data, "given", ref(r)))
    if fl in ("lv", "mixed"):
        hs.append(lv_h(r, rand_lv(r, r.choice([1, 2]))))
        if fl == "lv":
            hs.append(zlv_h(r, rand_lv(r, 1)) if r.random() < .5 else lv_h(r, rand_lv(r, 2)))
            if r.random() < .5:
                hs.append(lv.raise_to_power_hypothesis(2))
    if fl == "lver":
        hs.append(lver_h(r, rand_region5(r), r.random() < .3))
        if r.random() < .6:
            hs.append(ad.get_raise_to_power_hypothesis(2))
    # derived members with shared dependencies
    if len(hs) > 1 and r.random() < .5:
        ps = [h for h in hs if h.hypothesis_type == "Exponent pair"]
        if ps:
            p = r.choice(ps)
            hs.append(bm.obtain_mu_bound_from_exponent_pair(p))
    r.shuffle(hs)
    return fl, hs


def hyp_ops(r, fl, S, hs):
    T = lambda t: [h for h in hs if h.hypothesis_type == t]
    pick = lambda t: r.choice(T(t)) if T(t) else None
    s = F(r.randint(0, 40), 40)
    t, y = r.choice(ALL_T), r.choice(["Any", 1950, 1999, 2010])
    h = r.choice(hs)
    lo, hi = sorted(r.sample(range(0, 21), 2))
    I = Interval(F(lo, 20), F(hi, 20), True, r.random() < .5)
    ops = [("list", lambda: S.list_hypotheses(t, y)), ("find", lambda: S.find_hypothesis(hypothesis_type=t)), ("copy", lambda: copy.copy(S)), ("to_list", lambda: S.to_list()),
           ("texts", lambda: [h.desc(), h.desc_with_proof(), str(h), str(S)]), ("list_proofs", lambda: S.list_proofs()), ("proofs", lambda: h.recursively_list_proofs()),
           ("dependencies", lambda: h.recursive_dependencies()), ("complexity", lambda: h.proof_complexity()), ("date", lambda: h.proof_date()), ("match", lambda: h.is_match(t, y))]
    ops = [(n, f, [], False) for n, f in ops]
    if fl in ("pairs", "mu", "mixed"):
        d = r.choice([1, 1, 2])
        pr_ = r.random() < .5
        ops += [("mu", lambda: bm.best_mu_bound(s, S), [], False), ("mu_pieces", lambda: bm.best_mu_bound_piecewise(I, S), [I], False),
                ("expand", lambda: ep.compute_exp_pairs(S, search_depth=d, prune=pr_), [], False), ("pairs_to_beta", lambda: bb.exponent_pairs_to_beta_bounds(S), [], False),
                ("bounds", lambda: bm.get_bounds(S), [], False)] * 2
        p = pick("Exponent pair")
        r_tr, lst = TRH[r.choice("ABC")], T("Exponent pair")
        if p:
            meth = r.choice([PM.NONE, PM.DATE, PM.COMPLEXITY])
            ops += [("mu_of_pair", lambda: bm.obtain_mu_bound_from_exponent_pair(p), [], False), ("transform", lambda: r_tr.data.transform(p), [], False), ("lver_of_pair", lambda: ad.ep_to_lver(p), [], False),
                    ("ivic", lambda: zd.ivic_ep_to_zd(lst, m=2), [lst], False)]
            ops += [("best_proof", lambda: ep.find_best_proof(p.data.k, p.data.l, S, meth), [], False)]
        ops += [("prove_mu", lambda: bm.prove_mu_bound(s, bm.trivial_mu_bound(s), S), [], True)]
        m_ = pick("Upper bound on mu")
        if m_:
            ops += [("reflect", lambda: bm.apply_functional_equation(m_), [], False), ("convex", lambda: bm.apply_mu_convexity(m_, bm.bound_mu_trivial, F(1, 3)), [], False),
                    ("mu_to_zlv", lambda: zlv.mu_to_zlv(S), [], False)]
    if fl in ("beta", "mixed"):
        dom = r.choice([None, Interval(F(0), H, True, True)])
        ops += [("best_beta", lambda: bb.compute_best_beta_bounds(S, dom), [dom] if dom else [], False), ("beta_to_pairs", lambda: ep.beta_bounds_to_exponent_pairs(S), [], False),
                ("beta_to_zlv", lambda: zlv.beta_to_zlv(S), [], False)] * 3
    if fl in ("zd", "mixed"):
        ops += [("best_zd", lambda: zd.best_zero_density_estimate(S), [], False), ("best_ze", lambda: ze.compute_best_energy_bound(S), [], False)] * 3
        ops += [("trivial_energy", lambda: ze.add_trivial_zero_density_energy_estimates(S), [], True)] * 2
        z = pick("Zero density estimate")
        if z:
            ops += [("evaluate", lambda: z.data.at((F(str(z.data.interval.x0)) + F(str(z.data.interval.x1))) / 2), [], False)] * 2
    if fl in ("lv", "mixed"):
        dom, r_lv = Interval(F(7, 10), F(9, 10)), pick("Large value estimate")
        box = Region.from_polytope(Polytope.rect((F(7, 10), F(9, 10)), (F(1), F(3)), (F(0), F(10))))
        ops += [("lv_to_zlv", lambda: zlv.lv_to_zlv(S), [], False), ("lv_to_lver", lambda: ad.lv_to_lver(S), [], False), ("zeta_estimates", lambda: zlv.compute_large_value_estimate(S), [], False),
                ("power", lambda: lv.raise_to_power_hypothesis(3).data.transform(r_lv), [], False)] * 2
        if fl == "lv":
            ops += [("large_value_region", lambda: zd.compute_large_value_region(S, box, zeta=False), [box], False), ("zd_of_lv", lambda: zd.lv_zlv_to_zd(S, dom, F(2)), [dom], False)] * 3
    if fl == "lver":
        e = pick("Large value energy region") or pick("Zeta large value energy region")
        ops += [("power", lambda: ad.get_raise_to_power_hypothesis(2).data.transform(e), [], False), ("lver_copy", lambda: copy.copy(e.data), [], False), ("lver_to_lv", lambda: ad.lver_to_lv(e), [], False),
                ("lver_to_energy", lambda: ad.lver_to_energy(e), [], False), ("contains", lambda: e.data.contains([F(3, 4), F(1), F(1, 2), F(1), F(1)]), [], False)] * 2
        ops += [("expand_lver", lambda: ad.expand_lver(S), [], True)] * 2
    return r.choice(ops)


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def hyp(r, m):
    pr = Probe(r)
    fl, hs = collection(r)
    S = Hypothesis_Set(list(hs))
    other = Hypothesis_Set(list(hs))          # a second collection of the same hypotheses, never given to anything
    log, ran, changed = [], 0, False
    FP = {id(h): (h, fp_hyp(h, pr)) for h in hs}
    members = {id(h) for h in S}
    for h in hs:
        for d in h.dependencies:
            FP.setdefault(id(d), (d, fp_hyp(d, pr)))
    trs = [TRH[t] for t in "ABC"] + [ep.trivial_exp_pair, bm.bound_mu_trivial, bb.trivial_beta_bound_1, bb.trivial_beta_bound_2]
    for d in trs:
        FP.setdefault(id(d), (d, fp_hyp(d, pr)))
    D = lambda: f"{fl}: after {log}: {[h.desc()[:200] for h in hs]}"

    def unchanged(kind, add):
        for i, (h, f) in FP.items():
            g = fp_hyp(h, pr)
            m.ok(kind, g == f, lambda: f"{h.name} became {g}, was {f}; {D()}")
        now = {id(h) for h in S}
        m.ok("members", now >= members if add else now == members, lambda: f"lost {[FP[i][0].name for i in members - now if i in FP]}, gained {[h.name for h in S if id(h) not in members]}; {D()}")
        m.ok("members", {id(h) for h in other} == {id(h) for h in hs0}, lambda: f"another collection changed; {D()}")
    hs0 = list(hs)
    for _ in range(r.randint(4, 8)):
        name, f, args, add = hyp_ops(r, fl, S, hs)
        log.append(name)
        ab = [iv(a) if isinstance(a, Interval) else list(a) if isinstance(a, list) else exact_geo(a) for a in args]
        try:
            a = quiet(f)
        except (NotImplementedError, ValueError, ZeroDivisionError, IndexError, AttributeError, TypeError) as ex:
            m.count(f"refused {name}: {type(ex).__name__}")
            unchanged("unchanged", add)
            for h in S:
                members.add(id(h))
                FP.setdefault(id(h), (h, fp_hyp(h, pr)))
            continue
        unchanged("unchanged", add)
        for a_, w in zip(args, ab):
            g = iv(a_) if isinstance(a_, Interval) else list(a_) if isinstance(a_, list) else exact_geo(a_)
            m.ok("arguments", g == w or (isinstance(a_, Region) and same_exact(g, w, 3)), lambda: f"an argument became {a_}; {D()}")
        ran += 1
        m.count(f"ran {name}")
        if add:
            m.ok("only_adds", True)
            for h in list(S):
                members.add(id(h))
                FP.setdefault(id(h), (h, fp_hyp(h, pr)))
            continue
        fa = core(a, pr)
        b = quiet(f)
        m.ok("repeat", core(b, pr) == fa, lambda: f"{name}: first {fa}, then {core(b, pr)}; {D()}")
        # change what was derived
        new = [x for x in derived_of(b) if id(x) not in FP]
        first = {id(x) for x in derived_of(a)}
        for x in new[:6]:
            if id(x) in first:
                continue
            # sets of dependencies of derived facts belong to them
            x.add_dependency(ep.trivial_exp_pair if r.random() < .5 else r.choice(hs))
            if hasattr(x.data, "region") and name in ("power", "lver_copy"):
                for p in leaves_of(x.data.region):
                    p.label = "changed"
            changed = True
        if name == "lver_copy":
            for p in leaves_of(b.region):
                p.label = "changed"
            changed = True
        if name == "copy":
            b.add_hypothesis(pair_h(r, rand_pair(r)))
            b.data["x"] = 1
            changed = True
        elif isinstance(b, list):
            b.append("changed")
            b.reverse()
            changed = True
        elif isinstance(b, Hypothesis_Set):
            b.add_hypothesis(pair_h(r, rand_pair(r)))
            changed = True
        log.append("change")
        unchanged("independent", False)
        if name not in ("find",):
            m.ok("result_kept", core(a, pr) == fa, lambda: f"changing the second result of {name} changed the first; {D()}")
        if r.random() < .3:
            m.ok("repeat", core(quiet(f), pr) == fa, lambda: f"{name}: after its result was changed, {core(quiet(f), pr)}, was {fa}; {D()}")
    if ran >= 3 and changed:
        m.nontrivial(D())
    m.sample(D())


# ----------------------------------------------------------------------------------------------------------- functions
def fp_fn(o, xs):
    if isinstance(o, Interval):
        return ("interval",) + iv(o)
    if isinstance(o, Affine):
        return "affine", str(o.m), str(o.c), iv(o.domain), str(o.label), str(o)
    if isinstance(o, Piecewise):
        return ("piecewise",) + tuple((tuple(map(str, p.a)), str(p.label), tuple(E.member(hrep(p.domain), x) for x in xs[2])) for p in o.pieces)
    if isinstance(o, Affine2):
        return "affine2", tuple(map(str, o.a)), str(o.label), tuple(E.member(hrep(o.domain), x) for x in xs[2])
    if isinstance(o, Polynomial):
        return "polynomial", tuple(map(str, o.coefficients)), str(o)
    if isinstance(o, RF):
        return ("rational",) + tuple(value_of(o, x) for x in xs[1])
    if isinstance(o, (list, tuple)):
        return ("list",) + tuple(fp_fn(x, xs) for x in o)
    return ("value", str(o))


def value_of(f, x):
    try:
        return str(f.at(x))
    except ZeroDivisionError:
        return "pole"


def change_fn(o):
    """change a derived function; the interval, domain and label of a result are its own"""
    if isinstance(o, Interval):
        o.x1 = o.x1 + 1
        o.include_lower = not o.include_lower
    elif isinstance(o, Affine):
        o.m, o.c, o.label = o.m + 1, o.c - 1, "changed"
    elif isinstance(o, Affine2):
        o.label = "changed"
    elif isinstance(o, Piecewise):
        o.pieces.append("changed")
    elif isinstance(o, RF):
        o.num, o.den = o.num + 1, o.den + 3
    elif isinstance(o, Polynomial):
        o.coefficients = tuple(o.coefficients) + (5,)
    elif isinstance(o, (list, tuple)):
        done = [change_fn(x) for x in o]
        if isinstance(o, list):
            o.append("changed")
    else:
        return False
    return True


def fn(r, m):
    from checks.c03 import rand_pw, real
    xs = {1: [F(r.randint(-300, 300), 101) + F(1, 7919) for _ in range(3)], 2: [[F(r.randint(-300, 300), 101) + F(1, 7919) for _ in "ab"] for _ in range(5)]}
    def rint():
        a, b = sorted([q(r), q(r)])
        return Interval(a, b, *((True, True) if a == b else (r.random() < .7, r.random() < .5)))
    I = [rint() for _ in range(3)]
    A = [Affine(q(r, -2, 2), q(r, -2, 2), r.choice(I), r.choice([None, 1, "a"])) for _ in range(3)]
    labels = r.choice([["a", "b"], [1, 2]])
    W = [real(rand_pw(r, 2, labels), r) for _ in range(2)]
    polys = lambda: [F(r.randint(-4, 4), r.choice([1, 1, 2])) for _ in range(r.randint(1, 3))]
    Q = []
    while len(Q) < 3:
        n, d = polys(), polys()
        if any(d):
            Q.append(RF(n, d))
    N = [Polynomial(tuple(polys() + [F(r.choice([1, -1, 2, F(1, 2)]))])) for _ in range(3)]
    pool = I + A + W + Q + N
    F0 = [fp_fn(o, xs) for o in pool]
    log, ran, changed = [], 0, False
    D = lambda: f"after {log}: {[str(o) for o in pool]}"

    def unchanged(kind):
        for j, (o, f) in enumerate(zip(pool, F0)):
            g = fp_fn(o, xs)
            m.ok(kind, g == f, lambda: f"operand {j} became {g}, was {f}; {D()}")
    for _ in range(r.randint(6, 12)):
        c = lambda L: r.choice(L)
        i, j, a, b, w, v, f, g, n, k = c(I), c(I), c(A), c(A), c(W), c(W), c(Q), c(Q), c(N), c(N)
        x = q(r)
        ls, fd = [c(A) for _ in range(r.randint(1, 3))], [(c(Q), c(I)) for _ in range(r.randint(1, 2))]
        dom = Interval(F(-3), F(3))
        name, op, args = c([("interval_meet", lambda: i.intersect(j), []), ("interval_copy", lambda: i.deep_copy(), []), ("interval_text", lambda: str(i) + str(i == j) + str(i.is_empty()), []),
            ("interval_contains", lambda: i.contains(x), []), ("affine_at", lambda: a.at(x), []), ("affine_copy", lambda: a.deep_copy(), []), ("affine_meet", lambda: a.intersection(b), []),
            ("affine_min", lambda: a.min_with(ls, dom), [ls]), ("affine_max", lambda: a.max_with(ls, None), [ls]), ("affine_equal", lambda: (a == b, a.function_equals(b)), []),
            ("pw_min", lambda: w.min_with(v), []), ("pw_at", lambda: w.at(xs[2][0]), []), ("pw_copy", lambda: copy.copy(w), []), ("pw_text", lambda: str(w), []),
            ("pw_scale", lambda: copy.copy(w).pieces[0].scale(0, F(2), []), []), ("pw_crop", lambda: copy.copy(w).crop(w.pieces[0].domain), []), ("pw_simplify", lambda: copy.copy(w).simplify(), []),
            ("pw_piece", lambda: str(w.pieces[0].intersection(v.pieces[0])), []),
            ("rf_add", lambda: f + g, []), ("rf_sub", lambda: f - g, []), ("rf_mul", lambda: f * g, []), ("rf_named", lambda: f.add(3), []), ("rf_equal", lambda: f == g, []), ("rf_at", lambda: value_of(f, x), []),
            ("rf_min", lambda: RF.min(fd, dom), [fd]), ("rf_max", lambda: RF.max(fd, dom), [fd]), ("rf_roots", lambda: sorted(map(str, f.roots(dom))), []),
            ("poly_add", lambda: n + k, []), ("poly_sub", lambda: n - k, []), ("poly_mul", lambda: n * k, []), ("poly_div", lambda: n.divide(k), []), ("poly_copy", lambda: copy.copy(n), []),
            ("poly_text", lambda: n.to_str("t"), []), ("poly_equal", lambda: n == k, [])])
        log.append(name)
        sn = [list(z) for z in args]
        try:
            o = op()
        except (ZeroDivisionError, ValueError, NotImplementedError, TypeError) as ex:
            m.count(f"refused {name}: {type(ex).__name__}")
            unchanged("unchanged")
            continue
        unchanged("unchanged")
        m.ok("arguments", all(len(z) == len(y) and all(u is t or u == t for u, t in zip(z, y)) for z, y in zip(args, sn)), D)
        fo = fp_fn(o, xs)
        o2 = op()
        m.ok("repeat", fp_fn(o2, xs) == fo, lambda: f"{name}: first {fo}, then {fp_fn(o2, xs)}; {D()}")
        ran += 1
        m.count(f"ran {name}")
        own = {id(z) for z in pool} | {id(p) for z in W for p in z.pieces}
        flat = o2 if isinstance(o2, list) else [o2]
        if name in ("rf_min", "rf_max"):      # the functions of the table are the given ones; its intervals are its own
            for piece in o2:
                if not any(piece[1] is z for z in I):
                    change_fn(piece[1])
            o2.append("changed")
            changed = True
        elif not any(id(z) in own for z in flat):
            changed |= change_fn(o2)
        if isinstance(o2, Affine) or name in ("affine_min", "affine_max"):
            for z in (o2 if isinstance(o2, list) else [o2]):
                if isinstance(z, Affine):
                    m.count("results sharing their domain with an operand", int(any(z.domain is t for t in I)))
                    if name == "affine_copy":
                        m.ok("copy_is_deep", not any(z.domain is t for t in I), D)
        log.append("change")
        unchanged("independent")
        m.ok("result_kept", fp_fn(o, xs) == fo, lambda: f"changing the second result of {name} changed the first; {D()}")
        if isinstance(o, (RF, Polynomial)) and r.random() < .3 and len(pool) < 20 and not any(o is z for z in pool):
            if isinstance(o, RF) and len(str(o)) > 150:
                continue
            pool.append(o)
            F0.append(fp_fn(o, xs))
            (Q if isinstance(o, RF) else N).append(o)
    if ran >= 4 and changed:
        m.nontrivial(D())
    m.sample(D())


# ---------------------------------------------------------------------------------------------- the literature collection
def lit(r, m):
    """the shipped derivations and queries use the literature collection without changing it"""
    with contextlib.redirect_stdout(io.StringIO()):
        import derived as dv
    S = L.literature
    fp = lambda: {id(h): (h.name, h.hypothesis_type, h.description, h.proof, id(h.data), id(h.reference), frozenset(map(id, h.dependencies))) for h in S}
    jobs = {
        "hardy": lambda: dv.prove_hardy_littlewood_mu_bound(),
        "vdc": lambda: dv.van_der_corput_pair(r.randint(2, 6)),
        "best none": lambda: dv.best_proof_of_exponent_pair(F(1, 6), F(2, 3), PM.DATE, r.random() < .5),
        "best date": lambda: dv.best_proof_of_exponent_pair(F(13, 31), F(16, 31), PM.DATE, r.random() < .5),
        "complexity": lambda: dv.best_proof_of_exponent_pair(*r.choice([(F(13, 84), F(55, 84)), (F(0), F(1))]), PM.COMPLEXITY, False),
        "hb": lambda: dv.prove_heathbrown_exponent_pairs(),
        "mu": lambda: (bm.best_mu_bound(F(r.randint(1, 9), 10), S), bm.best_mu_bound_piecewise(Interval(F(1, 2), F(1)), S)),
        "beta": lambda: bb.compute_best_beta_bounds(S),
        "zd": lambda: dv.prove_zero_density_ingham_1940(False),
        "lists": lambda: [S.list_hypotheses(t).clear() for t in ("Exponent pair", "Upper bound on mu", "Any")],
    }
    done = []
    for n in r.sample(sorted(jobs), 3):
        a = fp()
        with contextlib.redirect_stdout(io.StringIO()):
            jobs[n]()
        b = fp()
        done.append(n)
        m.ok("literature_unchanged", a == b, lambda: f"after {done}: added {[b[i][0] for i in b if i not in a]}, lost {[a[i][0] for i in a if i not in b]}, changed {[(a[i], b[i]) for i in a if i in b and a[i] != b[i]][:3]}")
    m.nontrivial((tuple(done), r.random()))


SUITES = [
    Suite("lit", lit, 24, 300, need=("literature_unchanged",), cpu=300),
    Suite("geo", geo, 500, 12000, need=("unchanged", "arguments", "repeat", "independent", "result_kept")),
    Suite("hyp", hyp, 500, 12000, need=("unchanged", "arguments", "repeat", "independent", "result_kept", "members", "only_adds")),
    Suite("fn", fn, 320, 12000, need=("unchanged", "arguments", "repeat", "independent", "result_kept")),
]
