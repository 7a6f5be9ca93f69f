"""C24: zero density estimates obtained from exponent pairs."""
from vh import Suite
from checks.zdt import *
from checks.c16 import rand_pairs, key
import exponent_pair as ep

PROPERTY = "C24"
RULE = "random sets of exponent pairs and parameters for Ivic's conversion, judged against the classical formula of the cited pair; Bourgain's conversion (a fixed table) at many abscissae against the formula and range of the cited pair, and as the least over the table's pairs; the combined conversion on random collections with proof validation; non-trivial when the cited pair decides the range"
LIT = [(F(h.data.k), F(h.data.l)) for h in L.literature.list_hypotheses("Exponent pair")]


def v_(m, k, l):
    return (3 * m * m * (1 + 2 * k + 2 * l) - (4 * k + 2 * l) * m + 2 * k + 2 * l) / (4 * m * m * (1 + 2 * k + 2 * l) - (6 * k + 4 * l) * m + 2 * k + 2 * l)


def start(m, p):
    a = F(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2)
    c = F(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2)
    return min(max(v_(m, *p), a), c)


def judge_ivic(m, h, mm, D):
    m.ok("ivic_type", h.hypothesis_type == "Zero density estimate" and len(h.dependencies) == 1, D)
    p = key(next(iter(h.dependencies)))
    s0 = start(mm, p)
    I = h.data.interval
    m.ok("ivic_range", I.x0 == s0 and I.x1 == 1, lambda: f"range {I}, the cited pair {p} gives [{s0}, 1); {D()}")
    for i in range(0, 12):
        x = s0 + (1 - s0) * F(i, 12)
        if not I.contains(x):
            m.ok("ivic_range", i == 0, D)
            continue
        g = h.data.at(x)
        m.ok("ivic_value", g == R_(F(3 * mm) / ((3 * mm - 2) * x + 2 - mm)), lambda: f"at {x}: {g}; {D()}")
    m.ok("ivic_off_range", not I.contains(s0 - F(1, 10**6)), D)
    return p


def case_ivic(r, m):
    ps = rand_pairs(r, 1, 6) if r.random() < .7 else r.sample(LIT, r.randint(1, 8))
    hs = dress(r, [pair_h(r, p) for p in ps])
    mm = r.choice([2, 2, 3, 4, 5, 7])
    h = zd.ivic_ep_to_zd(list(hs), m=mm) if mm != 2 or r.random() < .5 else zd.ivic_ep_to_zd(list(hs))
    D = lambda: f"pairs {[(str(a), str(b)) for a, b in ps]} m {mm}: {h.data} citing {[d.desc() for d in h.dependencies]}"
    judge_ivic(m, h, mm, D)
    m.ok("ivic_cites", all(any(d is x for x in hs) for d in h.dependencies), D)
    best = min(start(mm, p) for p in ps)
    m.ok("ivic_best", h.data.interval.x0 == best, lambda: f"the best range starts at {best}; {D()}")
    if len({start(mm, p) for p in ps}) > 1:
        m.nontrivial(D())
    m.sample(D())


def bourgain_ok(k, l):
    return 0 < k <= F(1, 5) and l >= F(3, 5) and 15 * l + 20 * k >= 13


def bourgain_start(k, l):
    s = max(H, (l + 1) / (2 * (k + 1)))
    return s if k <= F(11, 85) else max(s, (144 * k - 11 * l - 11) / (170 * k - 22))


_B = None


def implied_by_literature(k, l):
    """beta(a) <= (l-k) a + k on [0, 1/2] follows from the recorded bounds and the recorded pairs"""
    global _B
    if _B is None:
        bs = [(h.data.bound.m, h.data.bound.c, h.data.bound.domain.x0, h.data.bound.domain.x1) for h in L.literature.list_hypotheses("Upper bound on beta")]
        _B = [tuple(map(F, b)) for b in bs] + [(b - a, a, F(0), H) for a, b in rounds(LIT, ["A", "B"], 4)]
    m_, c_ = l - k, k
    xs = {F(0), H} | {x for b in _B for x in b[2:4] if 0 <= x <= H}
    for b in _B:
        if b[0] != m_:
            x = (c_ - b[1]) / (b[0] - m_)
            if 0 < x < H:
                xs.add(x)
    xs = sorted(xs)
    for u, v in zip(xs, xs[1:]):
        x = (u + v) / 2
        if not any(b[2] <= x <= b[3] and b[0] * x + b[1] <= m_ * x + c_ for b in _B):
            return False
    return True


def case_bourgain(r, m):
    out = zd.bourgain_ep_to_zd()
    D = lambda: f"{[(str(h.data), [d.desc() for d in h.dependencies]) for h in out]}"
    m.ok("b_some", len(out) > 0, D)
    ps = []
    for h in out:
        m.ok("b_cites", len(h.dependencies) == 1 and h.hypothesis_type == "Zero density estimate", D)
        d = next(iter(h.dependencies))
        m.ok("b_cites", d.hypothesis_type == "Exponent pair", D)
        ps.append(key(d))
    for (k, l) in ps:
        m.ok("b_hypotheses", bourgain_ok(k, l), lambda: f"the pair {k}, {l} does not satisfy the hypotheses of the theorem; {D()}")
        m.ok("b_known", implied_by_literature(k, l), lambda: f"{k}, {l} is not implied by the recorded pairs; {D()}")
    lo = min(h.data.interval.x0 for h in out)
    m.ok("b_cover", lo == min(bourgain_start(*p) for p in ps) and max(h.data.interval.x1 for h in out) == 1, D)
    for _ in range(12):
        x = lo + (1 - lo) * F(r.randint(1, 9972), 9973)
        if r.random() < .4:
            h = r.choice(out)
            x = h.data.interval.x0 + r.choice([F(0), F(1, 10**6), F(-1, 10**6)])
        hit = [(h, p) for h, p in zip(out, ps) if h.data.interval.contains(x)]
        if x <= lo:
            m.ok("b_start", not hit, lambda: f"at {x}; {D()}")
            continue
        m.ok("b_cover", len(hit) == 1, lambda: f"at {x}: {len(hit)} pieces; {D()}")
        h, (k, l) = hit[0]
        m.ok("b_range", x > bourgain_start(k, l), lambda: f"at {x} the bound of {k}, {l} is used; it starts at {bourgain_start(k, l)}; {D()}")
        want = 4 * k / (2 * (1 + k) * x - 1 - l)
        m.ok("b_value", h.data.at(x) == R_(want), lambda: f"at {x}: {h.data.at(x)}, want {want}; {D()}")
        best = min(4 * a / (2 * (1 + a) * x - 1 - b) for a, b in ps if x > bourgain_start(a, b))
        m.ok("b_best", want == best, lambda: f"at {x}: {want}, another pair of the table gives {best}; {D()}")
        m.nontrivial(("bourgain", x))


def case_all(r, m):
    ps = rand_pairs(r, 1, 4)
    trs = [t for t in "AB" if r.random() < .6]
    bs = []
    hs = dress(r, [pair_h(r, p) for p in ps]) + [TRH[t] for t in trs]
    r.shuffle(hs)
    S = Hypothesis_Set(hs)
    out = zd.ep_to_zd(S)
    D = lambda: f"pairs {[(str(a), str(b)) for a, b in ps]} transforms {trs}: {[str(h.data) for h in out]}"
    tab = {str(h.data) for h in zd.bourgain_ep_to_zd()}
    iv = [h for h in out if str(h.data) not in tab]
    m.ok("all_table", tab <= {str(h.data) for h in out}, D)
    m.ok("all_ivic", len(iv) == 1, D)
    judge_ivic(m, iv[0], 2, D)
    d = next(iter(iv[0].dependencies))
    try:
        check_proof(d, hs)
    except Bad as e:
        m.fail("all_proof", f"{e}; {D()}")
    m.ok("all_proof", True)
    m.ok("all_implied", in_hull(key(d), rounds(ps, trs, 6)) or beta_ok_pair(ps, trs, key(d)), D)
    m.ok("all_unchanged", set(S) == set(hs) and len(S) == len(set(hs)), D)
    m.nontrivial(D())


def beta_ok_pair(ps, trs, p):
    """implied by the exponential sum bounds of everything reachable"""
    from checks.c17 import minval
    bs = [(l - k, k, F(0), H) for k, l in rounds(ps, trs, 6)]
    xs = [F(i, 400) for i in range(201)]
    return all(minval(bs, x) <= (p[1] - p[0]) * x + p[0] for x in xs)


SUITES = [
    Suite("ivic", case_ivic, 400, 10000, need=["ivic_value", "ivic_best", "ivic_range"]),
    Suite("bourgain", case_bourgain, 60, 2000, need=["b_value", "b_best", "b_known"]),
    Suite("all", case_all, 40, 800, need=["all_proof", "all_unchanged"]),
]
