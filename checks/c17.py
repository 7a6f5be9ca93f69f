"""C17: exponent pair proofs exist exactly for implied pairs; conversion of beta bounds to pairs."""
from fractions import Fraction as F
from vh import Suite
from vh.util import q, tiny
from checks.mupairs import *
from checks.hyp import *
from checks.c16 import rand_pairs, key
import exponent_pair as ep
from constants import Proof_Optimization_Method as M

PROPERTY = "C17"
RULE = "random collections of rational pairs, subsets of the transforms and convex-type families of exponential-sum bounds; targets on, just inside, just outside and far from the implied hull; non-trivial when a proof with at least two cited pairs was found"


def rand_beta(r, cover=True):
    """bounds covering [0,1/2], with values of the size true bounds have"""
    cuts = sorted({F(0), H} | {F(r.randint(1, 11), 24) for _ in range(r.randint(0, 3))})
    if r.random() < .12:
        cuts = sorted(set(cuts) | {c + tiny(r) for c in cuts[1:-1]})
    out = []
    for a, b in zip(cuts, cuts[1:]):
        k, l = rand_pair(r)
        out.append((l - k, k, a, b, True, True))
    for _ in range(r.randint(0, 2)):
        k, l = rand_pair(r)
        out.append((l - k, k, F(0), H, True, True))
    if r.random() < .12:     # hardly different from another one
        b = r.choice(out)
        k, l = mix((b[1], b[0] + b[1]), rand_pair(r), abs(tiny(r)))
        out.append((l - k, k) + b[2:])
    if not cover and len(out):
        out.pop(r.randrange(len(out)))
    return out


def admissible(p):
    return 0 <= p[0] <= H <= p[1] <= 1


def minval(bs, x, side=0):
    """least known bound at x; one sided limit for side = -1, 1"""
    vs = [b[0] * x + b[1] for b in bs if (b[2] <= x <= b[3] if side == 0 else (b[2] <= x < b[3] if side > 0 else b[2] < x <= b[3]))]
    return min(vs) if vs else None


def implied(bs):
    """exact: the pairs whose line touches the upper hull of the least bound along an edge"""
    xs = {F(0), H} | {e for b in bs for e in b[2:4] if 0 <= e <= H}
    for i in range(len(bs)):
        for j in range(i):
            if bs[i][0] != bs[j][0]:
                x = (bs[j][1] - bs[i][1]) / (bs[i][0] - bs[j][0])
                if 0 <= x <= H:
                    xs.add(x)
    pts = []
    for x in sorted(xs):
        for s in (-1, 1):
            if (x == 0 and s < 0) or (x == H and s > 0):
                continue
            v = minval(bs, x, s)
            if v is None:
                return None
            pts.append((x, -v))
    L = lower(pts)
    out = set()
    for a, b in zip(L, L[1:]):
        mm = -(b[1] - a[1]) / (b[0] - a[0])
        c = -a[1] - mm * a[0]
        out.add((c, mm + c))
    return out


def case_beta(r, m):
    cover = r.random() < .85
    bs = rand_beta(r, cover)
    ps = [rand_pair(r) for _ in range(r.randint(0, 2))]
    useB = r.random() < .5
    if r.random() < .5:
        # some of what the bounds imply (or its transform) may be known already
        w = sorted(implied(bs) or [])
        ps += [r.choice([p, p, tB(p)]) for p in r.sample(w, r.randint(0, min(2, len(w))))]
    hs = dress(r, [beta_h(r, b) for b in bs] + [pair_h(r, p) for p in ps]) + ([TRH["B"]] if useB else [])
    r.shuffle(hs)
    S = Hypothesis_Set(hs)
    out = ep.beta_bounds_to_exponent_pairs(S)
    got = {key(h) for h in out}
    want = implied(bs)
    D = lambda: f"bounds {[tuple(map(str, b[:4])) for b in bs]} pairs {ps} B {useB}: {sorted((str(a), str(b)) for a, b in got)}; want {want}"
    if want is None:
        m.ok("no_cover", not out, D)
        return
    B = {tB(p) for p in want}
    m.ok("beta_complete", want <= got | set(ps) and (not useB or B <= got | set(ps)), D)
    m.ok("beta_sound", got <= want | set(ps) | (B if useB else set()), D)
    seen = {}
    for h in out:
        try:
            check_proof(h, hs, seen)
        except Bad as e:
            m.fail("beta_proof", f"{e}; {D()}")
    m.ok("beta_proof", True)
    m.ok("unchanged", set(S) == set(hs), D)
    m.nontrivial(D())


def target(r, known):
    known = list(known)
    k = r.random()
    if known and k < .45:     # inside, or on an edge
        w = [F(r.randint(0, 3)) for _ in known[:4]]
        s = r.sample(known, min(4, len(known)))
        w = w[:len(s)]
        if sum(w) == 0:
            w[0] = F(1)
        p = tuple(sum(a * x[i] for a, x in zip(w, s)) / sum(w) for i in (0, 1))
        if r.random() < .3:   # just off
            p = (p[0] - F(1, r.choice([50, 1000])), p[1])
        return p
    if known and k < .55:
        return r.choice(known)
    return rand_pair(r)


def year(h):
    return h.reference.year()


def latest(h):
    """latest year among everything the proof rests on"""
    ys, st, seen = [], [h], set()
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        ds = list(x.dependencies)
        if not ds:
            ys.append(year(x))
        elif not x.reference.is_derived():
            ys.append(year(x))
        st += ds
    return max(ys)


def judge(m, p, h, members, at_least, at_most, D):
    if h is None:
        m.ok("complete", not (at_least and in_hull(p, at_least)), lambda: f"{p} is implied but no proof was found; {D()}")
        return
    m.ok("sound", key(h) == p and h.hypothesis_type == "Exponent pair", lambda: f"asked for {p}, got {h.data}; {D()}")
    m.ok("sound", at_most is None or in_hull(p, at_most), lambda: f"{p} proved although not implied; {D()}")
    try:
        check_proof(h, members)
    except Bad as e:
        m.fail("proof", f"{e}; {D()}")
    m.ok("proof", True)
    if len(h.dependencies) > 1:
        m.nontrivial((D(), p))


def case_construct(r, m):
    ps = rand_pairs(r, 0, 6)
    hs = dress(r, [pair_h(r, p) for p in ps])
    r.shuffle(hs)
    S = Hypothesis_Set(hs)
    H0 = hull(ps) if ps else set()
    D = lambda: f"pairs {[(str(a), str(b)) for a, b in ps]}"
    for _ in range(4):
        p = target(r, ps)
        for red in (True, False):
            for deep in (True, False):
                h = ep.construct_proof(p[0], p[1], S, reduce_dependencies=red, deep_search=deep)
                judge(m, p, h, hs, H0, H0, D)
                if h is not None and not any(h is x for x in hs):
                    m.ok("cites_known", all(any(d is x for x in hs) for d in h.dependencies), D)
                    if red and len({tuple(v) for v in H0}) > 2:
                        m.ok("small", len(h.dependencies) <= 3, lambda: f"{len(h.dependencies)} dependencies; {D()}")
    m.ok("unchanged", set(S) == set(hs) and len(S) == len(set(hs)), D)


def case_best(r, m):
    mode = r.choice([M.DATE, M.DATE, M.NONE, M.COMPLEXITY])
    ps = rand_pairs(r, 0, 4)
    trs = [t for t in "ABC" if r.random() < .5] if mode != M.COMPLEXITY else [t for t in "B" if r.random() < .6]
    if "C" in trs and len(trs) > 1 and r.random() < .9:
        trs.remove("C")     # hulls of hundreds of pairs, slow
    bs = rand_beta(r) if r.random() < .4 else []
    if bs and not all(admissible(p) and admissible(tB(p)) for p in implied(bs)):
        bs = []
    if mode == M.COMPLEXITY:
        ps, bs = ps[:3], (bs if not trs else [])
    ys = [r.choice([1919, 1920, 1921, 1950, 2004]) for _ in ps]
    yb = r.choice([1915, 1950, 2010])
    hs = [pair_h(r, p, y) for p, y in zip(ps, ys)] + [beta_h(r, b, yb) for b in bs] + [TRH[t] for t in trs]
    # all beta bounds of one date, so that each year has all or none of them
    r.shuffle(hs)
    S = Hypothesis_Set(hs)
    D = lambda: f"mode {mode} pairs {[(str(a), str(b)) for a, b in ps]} years {ys} transforms {trs} bounds {[tuple(map(str, b[:4])) for b in bs]}"

    def base(members):
        e = [key(h) for h in members if h.hypothesis_type == "Exponent pair"]
        b = [x for x in bs if any(h.hypothesis_type == "Upper bound on beta" and (h.data.bound.m, h.data.bound.c, h.data.bound.domain.x0, h.data.bound.domain.x1) == x[:4] for h in members)]
        w = implied(b) if b else None
        w = w or set()
        t = [n for n in TR if any(h is TRH[n] for h in members)]
        return e + list(w) + ([tB(x) for x in w] if "B" in t else []), t
    b0, t0 = base(hs)
    al = rounds(b0, t0, 5) if b0 else set()
    am = rounds(b0, t0, 5 * max(1, len(t0)) if mode != M.COMPLEXITY else 40) if b0 else set()
    for _ in range(2):
        p = target(r, al or [])
        h = ep.find_best_proof(p[0], p[1], S, mode)
        judge(m, p, h, hs, al, am, D)
        if mode == M.DATE and h is not None:
            got = latest(h)
            for y in sorted({year(x) for x in hs}):
                if y >= got:
                    break
                b1, t1 = base([x for x in hs if year(x) <= y])
                m.ok("date", not (b1 and in_hull(p, rounds(b1, t1, 5))), lambda: f"{p} is implied by what was known in {y}, but the proof rests on {got}; {D()}")
            m.ok("date_of_proof", h.proof_date() == got, lambda: f"{h.proof_date()} vs {got}; {D()}")
        if h is not None:
            m.count("found_" + str(mode))
    m.ok("unchanged", set(S) == set(hs) and len(S) == len(set(hs)), D)
    m.sample(D())


SUITES = [
    Suite("beta", case_beta, 500, 10000, need=["beta_complete", "beta_proof", "no_cover"]),
    Suite("construct", case_construct, 300, 6000, need=["complete", "sound", "proof", "small"]),
    Suite("best", case_best, 220, 5000, need=["complete", "sound", "proof", "date"]),
]
