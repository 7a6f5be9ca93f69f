"""C14: best growth exponent bounds vs the exact convex envelope; proofs replayed."""
import io, contextlib
from fractions import Fraction as F
from vh import Suite
from vh.util import q, tiny
from vh.algebra import value
from checks.mupairs import *
from checks.hyp import *
import bound_mu as bm
from functions import Affine, Interval

PROPERTY = "C14"
RULE = "random collections of 0-7 rational bounds on mu (also outside the critical strip, useless, repeated and conjectural ones), 0-4 exponent pairs and any subset of the transforms A, B, C; judged at random and critical abscissae inside and outside the strip; non-trivial when the best bound beats the trivial one"


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def rand_set(r, trs=None):
    mus, pairs = [], []
    big = r.random() < .05   # now and then a large collection
    for _ in range(r.randint(10, 24) if big else r.choice([0, 1, 1, 2, 3, 5])):
        d = r.choice([2, 3, 4, 6, 12, 15, 84])
        s = F(r.randint(0, d), d) if r.random() < .9 else q(r, -2, 3, (1, 2))
        t = H - s if s <= 0 else F(0) if s >= 1 else (1 - s) / 2
        v = t * r.choice([F(1, 2), F(2, 3), F(9, 10), 1, F(6, 5)]) if r.random() < .8 else t + q(r, 0, 2, (3, 7))
        mus.append((s, v))
    for _ in range(r.randint(6, 12) if big else r.choice([0, 0, 1, 2, 3, 4])):
        pairs.append(rand_pair(r))
    if mus and r.random() < .12:     # hardly different from another one
        s, v = r.choice(mus)
        mus.append((s, v + tiny(r)) if r.random() < .7 else (s + tiny(r), v))
    if pairs and r.random() < .06:
        pairs.append(mix(r.choice(pairs), rand_pair(r), abs(tiny(r))))
    if r.random() < .2:
        pairs.append((F(0), F(1)))
    trs = trs if trs is not None else [t for t in "ABC" if r.random() < .25]
    hs = dress(r, [mu_h(r, *x) for x in mus] + [pair_h(r, p) for p in pairs], .2) + [TRH[t] for t in trs]
    if r.random() < .08:
        hs.append(bm.Lindelof_hypothesis)
        mus.append((H, F(0)))
    if r.random() < .05:
        import exponent_pair as ep
        hs.append(ep.exponent_pair_conjecture)
        pairs.append((F(0), F(0)))
    r.shuffle(hs)
    return hs, mus, pairs, trs


def points(mus, pairs):
    pts = [(F(1), F(0)), (F(0), H)] + list(mus) + [(l - k, k) for k, l in pairs]
    return pts + [(1 - s, v + s - H) for s, v in pts]


def bracket(mus, pairs, trs):
    """(points implied at least, points implied at most); equal when no transform can be applied"""
    if not trs or not pairs:
        P = lower(points(mus, pairs))
        return P, P
    return lower(points(mus, rounds(pairs, trs, 5))), lower(points(mus, rounds(pairs, trs, 5 * len(trs))))


def probes(r, P, n=6):
    xs = [F(r.randint(1, 96), 97) for _ in range(n)] + [H, F(1, 100), F(99, 100)]
    c = [x for x, _ in lower(P) if 0 < x < 1]
    r.shuffle(c)
    return xs + c[:6]


def case_best(r, m):
    hs, mus, pairs, trs = rand_set(r)
    S = Hypothesis_Set(set(hs))
    lo, hi = bracket(mus, pairs, trs)
    D = lambda: f"bounds {[(str(a), str(b)) for a, b in mus]} pairs {[(str(a), str(b)) for a, b in pairs]} transforms {trs}"
    better = False
    for x in probes(r, lo):
        b = bm.best_mu_bound(x, S)
        e1, e2 = envelope(lo, x), envelope(hi, x)
        m.ok("value", b.data.sigma == x and e2 <= b.data.mu <= e1, lambda: f"mu({x}) <= {b.data.mu}, envelope {e1} (extended {e2}); {D()}")
        better |= b.data.mu < (1 - x) / 2
        try:
            check_proof(b, hs)
        except Bad as e:
            m.fail("proof", f"{e}; {D()}")
        m.ok("proof", True)
    for x in (F(-1), F(0), F(1), F(3, 2), -q(r, 0, 5), 1 + q(r, 0, 5)):
        b = bm.best_mu_bound(x, S)
        m.ok("outside", b.data.sigma == x and b.data.mu == (H - x if x <= 0 else F(0)), lambda: f"{b.data}")
        m.eq("trivial", bm.trivial_mu_bound(x), H - x if x <= 0 else F(0))
    x = F(r.randint(0, 50), 50)
    m.eq("trivial", bm.trivial_mu_bound(x), (1 - x) / 2)
    m.ok("unchanged", sorted(id(h) for h in S) == sorted(id(h) for h in hs), D)
    if better:
        m.nontrivial(D())
    m.sample(D())


def piece_at(p, x):
    """value of one returned piece at x, or None"""
    if isinstance(p, Affine):
        return p.m * x + p.c if p.domain.contains(x) else None
    t, a, b = p
    return value(t, {"x": x}) if a <= x < b else None


def case_piecewise(r, m):
    hs, mus, pairs, trs = rand_set(r, [] if r.random() < .6 else None)
    S = Hypothesis_Set(set(hs))
    lo, hi = bracket(mus, pairs, trs)
    k = r.random()
    a, b = (F(0), F(1)) if k < .2 else (F(r.randint(0, 10), 10), F(r.randint(0, 10), 10)) if k < .7 else (q(r, -2, 3, (2, 3)), q(r, -2, 3, (2, 3)))
    if a == b:
        b += 1
    a, b = min(a, b), max(a, b)
    first = r.random() < .5
    if not first:
        bm.best_mu_bound(F(1, 3), S)
    ps = bm.best_mu_bound_piecewise(Interval(a, b, True, r.random() < .5), S)
    D = lambda: f"[{a},{b}] {ps}; bounds {mus} pairs {pairs} transforms {trs}"
    xs = [a + (b - a) * F(i, 23) for i in range(23)] + [a + (b - a) / 10**5, b - (b - a) / 10**5]
    xs += [x for x, _ in lower(lo) if a < x < b]
    for x in xs:
        vs = [v for v in (piece_at(p, x) for p in ps) if v is not None]
        m.ok("pw_defined", len(vs) == 1, lambda: f"{len(vs)} pieces at {x}; {D()}")
        if x <= 0 or x >= 1:
            want = H - x if x <= 0 else 0
            e = envelope(hi, x) if x in (0, 1) else want  # the ends of the strip may use a stated bound
            m.ok("pw_value", e <= vs[0] <= want, lambda: f"at {x}: {vs[0]}, want {want}; {D()}")
        else:
            m.ok("pw_value", envelope(hi, x) <= vs[0] <= envelope(lo, x), lambda: f"at {x}: {vs[0]}, want {envelope(lo, x)}; {D()}")
            if x == xs[7]:
                m.ok("pw_agrees", bm.best_mu_bound(x, S).data.mu == vs[0], lambda: f"at {x}; {D()}")
    for x in (a - F(1, 1000), b + F(1, 1000)):
        m.ok("pw_inside", not any(piece_at(p, x) is not None for p in ps), lambda: f"defined at {x}; {D()}")
    m.nontrivial(D())


def case_prove(r, m):
    hs, mus, pairs, trs = rand_set(r, [])
    S = Hypothesis_Set(set(hs))
    P = points(mus, pairs)
    D = lambda: f"bounds {mus} pairs {pairs}"
    n = len(S)
    for _ in range(3):
        x = F(r.randint(1, 59), 60)
        e = envelope(P, x)
        v = e + r.choice([F(0), F(-1, 1000), F(-1, 10**9), F(1, 50), F(1, 10**9)])
        b = quiet(lambda: bm.prove_mu_bound(x, v, S))
        if v < e:
            m.ok("not_proved", not b and len(S) == n, lambda: f"mu({x}) <= {v} proved although the envelope is {e}; {D()}")
        else:
            m.ok("proved", bool(b) and b.data.sigma == x and e == b.data.mu, lambda: f"mu({x}) <= {v} gave {b and b.data}, envelope {e}; {D()}")
            m.ok("proved", any(h is b for h in S) and len(S) == n + 1, D)
            n += 1
            try:
                check_proof(b, hs)
            except Bad as ex:
                m.fail("proof", f"{ex}; {D()}")
        y = F(r.randint(1, 59), 60)
        m.eq("after_proving", bm.best_mu_bound(y, S).data.mu, envelope(P, y), D)
    # single steps
    b1, b2 = mu_h(r, F(r.randint(0, 9), 9), q(r, 0, 3, (6, 7))), mu_h(r, F(r.randint(0, 9), 10), q(r, 0, 3, (6, 7)))
    f = bm.apply_functional_equation(b1)
    m.ok("functional_equation", (f.data.sigma, f.data.mu) == (1 - b1.data.sigma, b1.data.mu + b1.data.sigma - H) and f.dependencies == {b1}, lambda: f"{f.data} from {b1.data}")
    g = bm.apply_functional_equation(f)
    m.ok("functional_equation", g.data == b1.data, lambda: f"twice {g.data} from {b1.data}")
    t = F(r.randint(0, 8), 8)
    c = bm.apply_mu_convexity(b1, b2, t)
    m.ok("convexity", c.data.sigma == (1 - t) * b1.data.sigma + t * b2.data.sigma and c.data.mu == (1 - t) * b1.data.mu + t * b2.data.mu and c.dependencies == {b1, b2}, lambda: f"{c.data}")
    p = pair_h(r, rand_pair(r))
    o = bm.obtain_mu_bound_from_exponent_pair(p)
    m.ok("from_pair", (o.data.sigma, o.data.mu) == (p.data.l - p.data.k, p.data.k) and o.dependencies == {p}, lambda: f"{o.data} from {p.data}")
    m.nontrivial(D())


SUITES = [
    Suite("best", case_best, 500, 12000, need=["value", "proof", "outside"]),
    Suite("piecewise", case_piecewise, 350, 9000, need=["pw_value", "pw_agrees", "pw_defined"]),
    Suite("prove", case_prove, 600, 12000, need=["proved", "not_proved", "functional_equation", "after_proving"]),
]
