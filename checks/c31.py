"""C31: the recorded derivations reproduce the published theorems.
The scripts are run as shipped; their results (returned, or printed) are compared with the transcribed theorems at exact
points of the range; every operation they perform is observed online (checks/online.py)."""
import ast, contextlib, io, math, os, re, sys, types, warnings
from fractions import Fraction as F
os.environ.setdefault("MPLBACKEND", "Agg")
from vh import Suite, SRC, Violation
from vh.algebra import value, Unreadable
from checks.online import Watch
import literature as L

PROPERTY = "C31"
RULE = "every shipped derivation (one open finding excepted), run end to end in shuffled sequences within one process; the result is compared with the transcribed theorem at the ends and at random rational points of its range; a seeded sample of every polyhedral, region and piecewise operation performed meanwhile is judged by exact arithmetic; non-trivial when the theorem was compared at some point"
ASSUMPTIONS = ["the theorems transcribed here from the blueprint and the publications",
               "derived.py is loaded without its module-level call of one of the derivations, which is run on its own",
               "prove_prime_gap2 (about five minutes) runs in the thorough tier only"]
warnings.simplefilter("ignore")
sq = math.sqrt
_D = None


def D():
    """derived.py as a module, without executing its top-level calls"""
    global _D
    if _D is None:
        with open(os.path.join(SRC, "derived.py")) as f:
            t = ast.parse(f.read())
        t.body = [n for n in t.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call))]
        _D = types.ModuleType("derived_under_test")
        exec(compile(t, "derived.py", "exec"), _D.__dict__)
    return _D


def closure(h):
    seen, todo = {}, [h]
    while todo:
        x = todo.pop()
        if id(x) not in seen:
            seen[id(x)] = x
            todo += list(x.dependencies)
    return list(seen.values())


def year(h):
    y = h.reference.year()
    return y if isinstance(y, int) else -1


def flat(r):
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in flat(x)]
    return [] if r is None else [r]


# ---- theorems: (function name, formula of A, from, to); None as formula: only covered
def zd_(num, den):
    return lambda x: num(x) / den(x)


ING = [(lambda x: 3 / (2 - x), F(1, 2), F(3, 4))]
HUX = [(lambda x: 3 / (3 * x - 1), F(3, 4), F(1))]
JUT = [(lambda x: F(2), F(11, 14), F(1))]
HBA = [(lambda x: 9 / (7 * x - 1), F(11, 14), F(1))]
HBB = [(lambda x: 3 / (10 * x - 7), F(20, 23), F(25, 28)), (lambda x: 4 / (4 * x - 1), F(25, 28), F(1))]
GM = [(lambda x: 15 / (5 * x + 3), F(7, 10), F(9, 10))]
EXT = [(lambda x: 3 / (10 * x - 7), F(20, 23), F(1))]
E_ = lambda f: (lambda x: f(x) / (1 - x))
HB_E = [(E_(lambda x: (10 - 11 * x) / (2 - x)), F(1, 2), F(2, 3)), (E_(lambda x: (18 - 19 * x) / (4 - 2 * x)), F(2, 3), F(3, 4)),
        (lambda x: 12 / (4 * x - 1), F(5, 6), F(25, 28))]
IHB = lambda x: max((18 - 19 * x) / (2 * (3 * x - 1)), 4 * (10 - 9 * x) / (5 * (4 * x - 1)))
IMP = [(E_(IHB), F(3, 4), F(4, 5))]
EN2 = [(E_(lambda x: max(5 * (18 - 19 * x) / (2 * (5 * x + 3)), 2 * (45 - 44 * x) / (2 * x + 15))), F(7, 10), F(3, 4))]
EN3 = [(E_(lambda x: max((197 - 220 * x) / (8 * (5 * x - 1)), 3 * (29 - 30 * x) / (5 * (5 * x - 1)), 4 * (10 - 9 * x) / (5 * (4 * x - 1)))), F(3, 4), F(4, 5))]
EN4 = [(E_(lambda x: max((72 - 91 * x) / (7 * (11 * x - 8)), 5 * (18 - 19 * x) / (2 * (5 * x + 3)))), F(284, 375), F(31, 40))]
EN5 = [(E_(lambda x: max((18 - 19 * x) / (6 * (15 * x - 11)), 3 * (18 - 19 * x) / (4 * (4 * x - 1)))), F(42, 55), F(79, 103))]
EN6 = [(E_(lambda x: max((18 - 19 * x) / (2 * (37 * x - 27)), 5 * (18 - 19 * x) / (2 * (13 * x - 3)))), F(79, 103), F(84, 109))]
EN7 = [(E_(lambda x: max((18 - 19 * x) / (9 * (3 * x - 2)), 4 * (10 - 9 * x) / (5 * (4 * x - 1)))), F(84, 109), F(5, 6))]
EN8 = [(E_(lambda x: max((173 - 270 * x) / (16 * (93 - 125 * x)), (653 - 890 * x) / (10 * (93 - 125 * x)), (1151 - 1190 * x) / (20 * (15 * x - 2)))), F(37, 49), F(443, 586))]
EN9 = [(E_(lambda x: max((593 - 810 * x) / (5 * (171 - 230 * x)), 4 * (266 - 275 * x) / (5 * (55 * x - 7)))), F(443, 586), F(373, 493))]
EN10 = [(E_(lambda x: max((533 - 730 * x) / (30 * (26 - 35 * x)), 3 * (26 - 33 * x) / (85 * x - 62), (174 - 185 * x) / (31 * x + 2))), F(75666, 100000), F(103, 136))]
# the theorem is weaker than the derivation near the start of the range
WEAK = {"prove_zero_density_energy_10": [(EN10[0][0], F(373, 493), F(75666, 100000))],
        "prove_zero_density_energy_4": [(E_(lambda x: (72 - 91 * x) / (7 * (11 * x - 8))), F(664, 877), F(284, 375))],
        "prove_heath_brown_energy_estimate": [(E_(lambda x: 12 * (1 - x) / (4 * x - 1)), F(3, 4), F(5, 6))]}
HL, HX, JU, H8, H9, GMl, H2a, H2b = ("Hardy--Littlewood", 1923, "Upper bound on mu"), ("Huxley", 1972, "Large value estimate"), ("Jutila", 1977, "Large value estimate"), \
    ("Heath-Brown", 1978, "Zeta large value estimate"), ("Heath-Brown", 1979, "Large value estimate"), ("Guth--Maynard", 2024, "Large value estimate"), \
    ("Heath-Brown", 1979, "Large value energy region"), ("Heath-Brown", 1979, "Large value energy region")
PAIR = (None, None, "Exponent pair")
JK = lambda k: ("Jutila", 1977, "Large value estimate", f"k = {k}")
T = {"prove_zero_density_ingham_1940": (ING, 1940, []), "prove_zero_density_ingham_1940_v2": (ING, 1940, []),
     "prove_zero_density_huxley_1972": (HUX, 1972, [HL, HX]), "prove_zero_density_huxley_1972_v2": (HUX, 1972, [HL, HX]),
     "prove_zero_density_jutila_1977": (JUT, 1977, [JU]), "prove_zero_density_jutila_1977_v2": (JUT, 1977, [JU]),
     "prove_zero_density_heathbrown_1979a": (HBA, 1979, [H8, JU]), "prove_zero_density_heathbrown_1979a_v2": (HBA, 1979, [H8, JU]),
     "prove_zero_density_heathbrown_1979b": (HBB, 1979, [H8, H9]), "prove_zero_density_heathbrown_1979b_v2": (HBB, 1979, [H8, H9]),
     "prove_zero_density_guth_maynard_2024": (GM, 2024, [GMl]), "prove_zero_density_guth_maynard_2024_v2": (GM, 2024, [GMl]),
     "prove_zero_density_heathbrown_extended": (EXT, 1979, [H9, PAIR]), "prove_zero_density_heathbrown_extended_v2": (EXT, 1979, [H9, PAIR]),
     "prove_heath_brown_energy_estimate": (HB_E, 1979, [H2a]), "prove_improved_heath_brown_energy_estimate": (IMP, 1979, [H2a, HX]),
     "prove_zero_density_energy_2": (EN2, 2024, [GMl, H2a]), "prove_zero_density_energy_3": (EN3, 2024, [GMl, H2a, HX]),
     "prove_zero_density_energy_4": (EN4, 2024, [GMl, H2a, JK(10)]), "prove_zero_density_energy_5": (EN5, 1979, [H2a, JK(6)]),
     "prove_zero_density_energy_6": (EN6, 1979, [H2a, JK(5)]), "prove_zero_density_energy_7": (EN7, 2024, [H2a, JK(5), ("Bourgain", 2000, "Large value estimate"), H8]),
     "prove_zero_density_energy_8": (EN8, 2024, [GMl, H2a, JK(13)]), "prove_zero_density_energy_9": (EN9, 2024, [GMl, H2a, JK(12)]),
     "prove_zero_density_energy_10": (EN10, 2024, [GMl, H2a, JK(11)])}


def rests_on(h, want):
    for x in closure(h):
        if x is h or x.hypothesis_type != want[2]:
            continue
        if want[0] is not None and (str(x.reference.author()) != want[0] or year(x) != want[1]):
            continue
        if len(want) > 3 and not str(x.name).endswith(want[3]):
            continue
        return True
    return False


def close(g, w):
    if isinstance(w, F):
        try:
            return F(str(g)) == w
        except ValueError:
            pass
    return abs(float(g) - float(w)) <= 1e-9 * (1 + abs(float(w)))


def picks(r, a, b, n):
    w = b - a
    return [a] + [a + w * F(r.randint(1, 10**6 - 1), 10**6) for _ in range(n)] + [b - w / 10**7]


def exact_(i):
    f = lambda v: F(v) if isinstance(v, (int, F)) else F(str(v)) if getattr(v, "is_Rational", False) else F(float(v))
    return f(i.x0), f(i.x1)


def table(m, r, name, hs, thm, exact=True, n=6):
    """the best of hs is the theorem's bound on its whole range"""
    for f, a, b in thm:
        own = [exact_(h.data.interval) for h in hs]
        own = [x for u, v in own for x in (u, (u + v) / 2) if a <= x < b]
        for x in picks(r, a, b, n) + own:
            hit = [h for h in hs if h.data.interval.contains(x)]
            m.ok("covered", bool(hit), lambda: f"{name}: nothing at {x} among {[h.data for h in hs]}")
            g, w = min((h.data.at(x) for h in hit), key=float), f(x)
            m.ok("theorem" if exact else "theorem_at_least", close(g, w) or (not exact and float(g) <= float(w)),
                 lambda: f"{name} at {x}: got {g}, the theorem is {w}; {[h.data for h in hs]}")
            m.nontrivial((name, x))


LIT = []        # what each derivation did to the collection of literature results


def lit_unchanged(m):
    while LIT:
        name, new, n = LIT.pop()
        m.ok("literature_unchanged", not new and n == 0, lambda: f"{name} changed the literature collection: added {new}, size {n:+d}")


def run(name, *a, **k):
    buf = io.StringIO()
    before = {id(h) for h in L.literature}
    with contextlib.redirect_stdout(buf):
        res = getattr(D(), name)(*a, **k)
    LIT.append((name, [h.name for h in L.literature if id(h) not in before], len(L.literature) - len(before)))
    import matplotlib.pyplot as plt
    plt.close("all")
    return res, buf.getvalue()


def density(m, r, name):
    thm, last, rest = T[name]
    quiet = r.random() < .5 and "energy" not in name
    res, out = run(name, False) if quiet else run(name)
    hs = flat(res)
    kind = "Zero density energy estimate" if "energy" in name else "Zero density estimate"
    m.ok("result", hs and all(h.hypothesis_type == kind for h in hs), lambda: f"{name} gave {hs}")
    table(m, r, name, hs, thm)
    table(m, r, name, hs, WEAK.get(name, []), exact=False)
    for h in hs:
        years = [year(x) for x in closure(h)]
        m.ok("not_later", max(years) <= last, lambda: f"{name}: {h.data} depends on {[(x.name, year(x)) for x in closure(h) if year(x) > last]}")
        m.ok("not_later", year(h) <= last, lambda: f"{name}: dated {year(h)}")
        for x in closure(h):
            m.ok("leaf", bool(x.dependencies) or any(x is y for y in SRCS()) or x.hypothesis_type == "Exponent pair", lambda: f"{name}: rests on {x.name}, which is neither recorded nor derived")
    for w in rest:
        m.ok("rests_on", any(rests_on(h, w) for h in hs), lambda: f"{name}: {w} is not among the dependencies {[x.name for h in hs for x in closure(h)]}")
    if not quiet and "energy" not in name:
        m.ok("printed", out.strip() != "", lambda: f"{name} printed nothing")


_S = None


def SRCS():
    global _S
    if _S is None:
        import large_values, exponent_pair
        _S = list(L.literature.hypotheses) + [large_values.large_value_estimate_L2, exponent_pair.trivial_exp_pair]
    return _S


# ---- the quick derivations
def hardy(m, r):
    h, out = run("prove_hardy_littlewood_mu_bound")
    m.ok("theorem", h.hypothesis_type == "Upper bound on mu" and F(h.data.sigma) == F(1, 2) and F(h.data.mu) == F(1, 6), lambda: f"{h.data}")
    m.ok("not_later", max(map(year, closure(h))) <= 1923, "Hardy-Littlewood")
    for w in (("van der Corput", 1920, "Exponent pair transform"), ("Weyl--van der Corput", 1920, "Exponent pair transform"), PAIR):
        m.ok("rests_on", rests_on(h, w), lambda: f"{w}: {[x.name for x in closure(h)]}")
    m.nontrivial(("hardy", r.random()))


def vdc(m, r):
    k = r.randint(2, 14)
    h, out = run("van_der_corput_pair", k)
    q = 2**k - 2
    m.ok("theorem", (F(h.data.k), F(h.data.l)) == (F(1, q), 1 - F(k - 1, q)), lambda: f"k = {k}: {h.data}")
    m.ok("not_later", max(map(year, closure(h))) <= 1920, "van der Corput")
    m.ok("chain", sum(x.hypothesis_type == "Exponent pair" for x in closure(h)) == k, lambda: f"k = {k}: {[str(x.data) for x in closure(h)]}")
    for j in (1, 0, -3):
        m.raises("too_small", ValueError, lambda: run("van_der_corput_pair", j))
    m.nontrivial(("vdc", k))


def implied(p, pairs):
    """is some convex combination of two of the pairs at least as good in both coordinates"""
    k, l = p
    for a, b in pairs:
        for c, d in pairs:
            ts = [F(0), F(1)] + ([(k - c) / (a - c)] if a != c else [])
            if any(0 <= t <= 1 and t * a + (1 - t) * c <= k and t * b + (1 - t) * d <= l for t in ts):
                return True
    return False


def hb_pairs(m, r):
    res, out = run("prove_heathbrown_exponent_pairs")
    want = [(F(2, (k - 1)**2 * (k + 2)), 1 - F(3 * k - 2, k * (k - 1) * (k + 2))) for k in range(3, 8)]
    got = [(F(a), F(b)) for a, b in re.findall(r"\(([\d/]+), ([\d/]+)\)", out)]
    m.ok("result", len(got) > 0, lambda: out)
    for k, l in want:
        m.ok("theorem", implied((k, l), got + [(F(0), F(1)), (F(1, 2), F(1, 2))]), lambda: f"Heath-Brown's pair ({k}, {l}) does not follow from those shown: {sorted(got)}")
    known = [(F(2, (k - 1)**2 * (k + 2)), 1 - F(3 * k - 2, k * (k - 1) * (k + 2))) for k in range(3, 80)] + [(F(0), F(1)), (F(1, 6), F(2, 3)), (F(1, 2), F(1, 2))]
    for p in got:
        m.ok("theorem", implied(p, known), lambda: f"the pair {p} shown is better than Heath-Brown's theorem")
    m.nontrivial(("hb_pairs", r.random()))


BEST = [(F(1, 6), F(2, 3), 1920), (F(13, 31), F(16, 31), 1920), (F(4, 11), F(6, 11), 1920), (F(2, 7), F(4, 7), 1920), (F(5, 24), F(15, 24), 1920), (F(4, 18), F(11, 18), 1920), (F(3, 40), F(31, 40), 1989)]


def best_pair(m, r):
    k, l, last = r.choice(BEST)
    h, out = run("best_proof_of_exponent_pair", k, l)
    m.ok("result", h is not None, lambda: f"no proof of ({k}, {l})")
    m.ok("theorem", (F(h.data.k), F(h.data.l)) == (k, l), lambda: f"({k}, {l}): {h.data}")
    m.ok("not_later", max(map(year, closure(h))) == last, lambda: f"({k}, {l}): proved from {[(x.name, year(x)) for x in closure(h)]}")
    for x in closure(h):
        m.ok("leaf", bool(x.dependencies) or any(x is y for y in SRCS()), lambda: f"({k}, {l}) rests on {x.name}")
    m.nontrivial(("best", k, l))


def gm_lv(m, r):
    res, out = run("prove_guth_maynard_large_values_theorem")
    rows = re.findall(r"'([^']*>=[^']*)'", out)
    m.ok("result", len(rows) > 0, lambda: out)
    # the theorem: rho <= 18/5 - 4 sigma at tau = 6/5, for 7/10 <= sigma <= 4/5
    from vh.algebra import relation
    for _ in range(60):
        s, rho = F(r.randint(650, 850), 1000), F(r.randint(-100, 1000), 1000)
        want = F(7, 10) <= s <= F(4, 5) and 0 <= rho <= F(18, 5) - 4 * s
        if s in (F(7, 10), F(4, 5)) or rho in (0, F(18, 5) - 4 * s):
            continue
        names = {"σ": s, "τ": rho, "ρ": rho}
        got = all(relation(x, names) for x in rows)
        m.ok("theorem", got == want, lambda: f"at sigma {s}, rho {rho}: {rows}")
    m.nontrivial(("gm_lv", r.random()))


FOUR = [(F(89, 1282), F(997, 1282)), (F(652397, 9713986), F(7599781, 9713986)), (F(10769, 351096), F(609317, 702192)), (F(89, 3478), F(15327, 17390))]


def four(m, r, i):
    k, l = FOUR[i]
    h, out = run("prove_exponent_pair", k, l)
    m.ok("result", h is not None, lambda: f"no proof of ({k}, {l})")
    m.ok("theorem", (F(h.data.k), F(h.data.l)) == (k, l), lambda: f"({k}, {l}): {h.data}")
    m.ok("not_later", max(map(year, closure(h))) <= 2023, lambda: f"({k}, {l})")
    for x in closure(h):
        m.ok("leaf", bool(x.dependencies) or any(x is y for y in SRCS()), lambda: f"({k}, {l}) rests on {x.name}")
    m.ok("rests_on", rests_on(h, ("Bourgain", 2017, "Upper bound on beta")) and rests_on(h, ("Sargos", 2003, "Exponent pair transform")), lambda: f"({k}, {l})")
    m.nontrivial(("four", i))


def ivic(m, r):
    res, out = run("prove_zero_density_ivic_1984")
    rows = shown(out)
    m.eq("result", len(rows), 18, lambda: out[:800])
    first = {2: F(3831, 4791), 3: F(41, 53), 4: F(13, 17)}
    for k in range(2, 20):
        lo = first.get(k, F(9 * k * k - 4 * k + 2, 12 * k * k - 6 * k + 2))
        f, a, b = rows[k - 2]
        m.ok("covered", a <= lo and b == 1, lambda: f"k = {k}: range from {a}, the theorem's from {lo}")
        for x in picks(r, lo, F(1), 4):
            m.ok("theorem", close(f(x), F(3 * k) / ((3 * k - 2) * x + 2 - k)), lambda: f"k = {k} at {x}: {f(x)}")
    m.nontrivial(("ivic", r.random()))


def shown(out):
    """(function, from, to) for every bound shown as 'A(x) <= ... on [a,b)'"""
    rows = []
    for t, a, b in re.findall(r"A\*?\(x\) \\leq (.*?) on [\[(]([^,]*),([^)\]]*)[\])]", out):
        rows.append((lambda x, t=t: value(t, {"x": x}), num(a), num(b)))
    return rows


def num(t):
    return value(t.strip(), {})


def improved(m, r):
    res, out = run("prove_zero_density_bourgain_improved", r.random() < .5)
    hs = flat(res)
    end = F(23, 28) - F(math.isqrt(9 * 57 * 10**40), 532 * 10**20)
    table(m, r, "bourgain_improved", hs, [(lambda x: 9 / (8 * (2 * x - 1)), end + F(1, 10**9), F(4, 5))])
    d = lambda x: (1 - 2 * x) / ((x - 1) * (26 * x - 19))
    claim = lambda x: max(2 / (9 * x - 6), 9 / (8 * (2 * x - 1)))
    for x in picks(r, F(17, 22), end - F(1, 10**9), 6):
        hit = [h for h in hs if h.data.interval.contains(x)]
        g = min((h.data.at(x) for h in hit), key=float)
        m.ok("theorem_or_known", float(g) <= float(d(x)) + 1e-9, lambda: f"at {x}: {g}, neither the theorem {claim(x)} nor the known weaker result {d(x)}")
        m.ok("not_too_strong", float(g) >= float(claim(x)) - 1e-9, lambda: f"at {x}: {g} is below the theorem's {claim(x)}")
        if float(g) > float(claim(x)) + 1e-9:
            m.known_finding("bourgain-improved-below-23/28", f"at {x} the derivation gives {g}, the theorem claims {claim(x)}")
    for h in hs:
        m.ok("not_later", max(map(year, closure(h))) <= 2024, "bourgain_improved")
    for w in (("Bourgain", 2000, "Large value estimate"), JU, H8):
        m.ok("rests_on", any(rests_on(h, w) for h in hs), lambda: f"{w}")


def bourgain_lv(m, r):
    try:
        run("prove_bourgain_large_values_theorem")
    except Exception as e:
        m.count("bourgain_lv_raises")
        m.known_finding("prove_bourgain_large_values_theorem", f"raises {type(e).__name__}: {e}")


BEST_ZD = [((0, 3, -1, 2), "1/2", "7/10"), ((0, 15, 5, 3), "7/10", "19/25"), ((0, 9, 8, -2), "19/25", "127/167"), ((0, 15, 13, -3), "127/167", "13/17"),
           ((0, 6, 5, -1), "13/17", "17/22"), ((0, 2, 9, -6), "17/22", "41/53"), ((0, 9, 7, -1), "41/53", "7/9"), ((0, 9, 16, -8), "7/9", "1867/2347"),
           ((0, 3, 2, 0), "1867/2347", "7/8"), ((0, 3, 10, -7), "7/8", "279/314"), ((0, 24, 30, -11), "279/314", "9/10"), ((0, 3, 10, -7), "9/10", "31/34"),
           ((0, 11, 48, -36), "31/34", "14/15"), ((0, 391, 2493, -2014), "14/15", "2841/3016"), ((0, 22232, 163248, -134765), "2841/3016", "859/908"),
           ((0, 4406612, 33911310, -28181831), "859/908", "23/24"), ((0, 3, 24, -20), "23/24", "60725033/62460603"), ((0, 2351558, 39632665, -35918731), "60725033/62460603", "39/40"),
           ((0, 2, 15, -12), "39/40", "41/42"), ((0, 3, 40, -35), "41/42", "59/60")]


def best_zd(m, r):
    res, out = run("compute_best_zero_density")
    rows = shown(out)
    m.ok("result", len(rows) >= 20, lambda: out[:800])
    thm = [(lambda x, c=c: F(c[1]) / (c[2] * x + c[3]), F(a), F(b)) for c, a, b in BEST_ZD]
    thm += [(lambda x, n=n: F(3) / (n * (1 - 2 * (n - 1) * (1 - x))), 1 - F(1, 2 * n * (n - 1)), 1 - F(1, 2 * n * (n + 1))) for n in range(6, 22)]
    for f, a, b in thm:
        for x in picks(r, a, b, 2):
            hit = [g for g, u, v in rows if u <= x < v]
            m.ok("covered", len(hit) == 1, lambda: f"{len(hit)} bounds shown at {x}")
            m.ok("theorem", close(hit[0](x), f(x)), lambda: f"at {x}: shown {hit[0](x)}, the table has {f(x)}")
    m.nontrivial(("best_zd", r.random()))


def gap2_shown(m, r):
    """the suprema printed; those above 31/34 are known to exceed the theorem's 19/15"""
    res, out = run("prove_prime_gap2")
    rows = [(num(a), float(v)) for a, v in re.findall(r"^[\[(]([^,\]]*),[^\])]*[\])] (\S+)", out, re.M) if re.fullmatch(r"[\d.e+-]+", v)]
    m.ok("result", len(rows) > 10, lambda: out[-2000:])
    low = [v for a, v in rows if a < F(31, 34)]
    m.ok("theorem", low and abs(max(low) - 19 / 15) < 1e-9, lambda: f"the supremum shown below 31/34 is {max(low or [0])}, the theorem is 19/15; {out[-2000:]}")
    if any(v > 19 / 15 + 1e-9 for a, v in rows if a >= F(31, 34)):
        m.known_finding("prove_prime_gap2", f"{max(rows, key=lambda w: w[1])}")


def gap2(m, r):
    """the collection the derivation evaluates: at every abscissa the defining expressions are at most 19/15"""
    import prime_gap
    got, raw = [], prime_gap.compute_gap2
    prime_gap.compute_gap2 = lambda hs, debug=False: got.append(hs)
    try:
        run("prove_prime_gap2")
    finally:
        prime_gap.compute_gap2 = raw
    m.ok("result", len(got) == 1, lambda: f"{len(got)} collections were evaluated")
    zs = [h for h in got[0] if h.hypothesis_type == "Zero density estimate"]
    es = [h for h in got[0] if h.hypothesis_type == "Zero density energy estimate"]

    def least(hs, x):
        return min(float(h.data.at(x)) for h in hs if float(h.data.interval.x0) < x < float(h.data.interval.x1))

    def value(x):
        A, B = least(zs, x), least(es, x)
        q = B * (1 - x) - 1
        return 4 * x - 2 + max(2 * q / (B - A), q / A)
    for x in [F(7, 8) - F(1, 10**7), F(7, 8) + F(1, 10**7)]:
        m.ok("theorem", abs(value(x) - 19 / 15) < 1e-5, lambda: f"at {x}: {value(x)}, the theorem is attained at 7/8")
    for x in picks(r, F(5001, 10000), F(31, 34), 25)[1:] + [F(3, 4) - F(1, 999), F(3, 4) + F(1, 999), F(5, 6) - F(1, 999), F(5, 6) + F(1, 999)]:
        m.ok("theorem", value(x) <= 19 / 15 + 1e-9, lambda: f"at {x}: {value(x)} exceeds 19/15")
    for x in picks(r, F(31, 34), F(999, 1000), 6):
        if value(x) > 19 / 15 + 1e-9:
            m.known_finding("prove_prime_gap2", f"at {x}: {value(x)}")
    m.nontrivial(("gap2", r.random()))


FAST = [hardy, vdc, hb_pairs, best_pair, gm_lv] + [lambda m, r, n=n: density(m, r, n) for n in T if "energy" not in n]
SLOW = ["best_zd", "prove_zero_density_energy_7", "improved", "prove_zero_density_energy_3", "prove_heath_brown_energy_estimate", "ivic", "prove_zero_density_energy_8",
        "prove_zero_density_energy_2", "prove_zero_density_energy_4", "four0", "prove_zero_density_energy_10", "prove_zero_density_energy_9", "four1", "prove_zero_density_energy_5",
        "prove_improved_heath_brown_energy_estimate", "four2", "prove_zero_density_energy_6", "four3", "bourgain_lv", "gap2"]


def case_fast(r, m):
    """a few quick derivations, one after the other in one process"""
    with Watch(m, r):
        for f in [r.choice(FAST) for _ in range(r.randint(1, 3))]:
            f(m, r)
            if r.random() < .25:
                f(m, r)
    lit_unchanged(m)


def case_slow(r, m):
    n = SLOW[r.index % len(SLOW)] if r.index < 2 * len(SLOW) else "gap2_shown"
    with Watch(m, r, rate=400, cap=6):
        if n.startswith("four"):
            four(m, r, int(n[4:]))
        elif n in T:
            density(m, r, n)
        else:
            globals()[n](m, r)
    lit_unchanged(m)


SUITES = [
    Suite("slow", case_slow, len(SLOW), 2 * len(SLOW) + 1, need=("theorem", "covered", "not_later", "rests_on"), cpu=1500),
    Suite("fast", case_fast, 60, 600, need=("theorem", "covered", "not_later", "rests_on", "leaf", "op:intersect", "op:is_empty", "op:as_disjoint_union", "op:rf_best"), cpu=300),
]
if os.environ.get("VERIF_TIER") == "thorough":
    SUITES.append(Suite("gap2", lambda r, m: gap2(m, r), 1, 1, need=("theorem",), cpu=2400))
