"""C29: stated estimates evaluate to what their text says, on their range only.
Oracle: an exact reader of Python arithmetic (for the expressions given) and of printed algebra (for the text shown)."""
import ast, copy, re, math, warnings
from vh import Suite
from vh.algebra import value, Unreadable
from checks.zdt import *
import bound_beta as bb
import bound_mu as bm
import exponent_pair as ep
import literature as L
from functions import Affine

PROPERTY = "C29"
RULE = "random expressions (nested sums, products, quotients, powers, decimals) and intervals with all end flags, built through every constructor in every evaluation order; every recorded estimate; non-trivial when a point of the range where the expression is defined was judged"
ASSUMPTIONS = ["points where a sub-expression of the given text is a division by zero are not judged"]
warnings.simplefilter("ignore")


class Undefined(Exception):
    pass


def pyval(t, x):
    """exact value of Python arithmetic in x; a float where a root is taken"""
    if isinstance(t, str):
        t = ast.parse(t.strip(), mode="eval").body
    if isinstance(t, ast.Constant):
        return F(str(t.value))
    if isinstance(t, ast.Name):
        assert t.id == "x", t.id
        return x
    if isinstance(t, ast.UnaryOp):
        v = pyval(t.operand, x)
        return -v if isinstance(t.op, ast.USub) else v
    if isinstance(t, ast.Call):
        assert t.func.id == "sqrt" and len(t.args) == 1
        return math.sqrt(pyval(t.args[0], x))
    a, b = pyval(t.left, x), pyval(t.right, x)
    if isinstance(t.op, ast.Add):
        return a + b
    if isinstance(t.op, ast.Sub):
        return a - b
    if isinstance(t.op, ast.Mult):
        return a * b
    if isinstance(t.op, ast.Div):
        if b == 0:
            raise Undefined
        return a / b
    if isinstance(t.op, ast.Pow):
        if isinstance(b, F) and b.denominator == 1:
            if b < 0 and a == 0:
                raise Undefined
            return a ** int(b)
        return float(a) ** float(b)
    raise Unreadable(ast.dump(t))


def rnum(r):
    k = r.random()
    if k < .7:
        return str(r.choice([1, 1, 2, 3, 3, 4, 5, 7, 9, 10, 12, 15, 24, 48, r.randint(1, 4000)]))
    if k < .9:
        return f"{r.randint(1, 40)}/{r.randint(2, 30)}"
    return f"({r.randint(1, 40)}/{r.randint(2, 30)})"


def rexpr(r, d=0):
    """random text of an arithmetic expression in x"""
    k = r.random()
    sp = r.choice(["", " ", " "])
    if d > 3 or k < .12 + .12 * d:
        return "x" if r.random() < .5 else rnum(r)
    if k < .45:
        a, b = rexpr(r, d + 1), rexpr(r, d + 1)
        return f"({a}{sp}{r.choice('+-')}{sp}{b})" if d or r.random() < .5 else f"{a}{sp}{r.choice('+-')}{sp}{b}"
    if k < .6:
        return f"{rnum(r)}{sp}*{sp}x{sp}{r.choice('+-')}{sp}{rnum(r)}" if d == 0 else f"({rnum(r)}{sp}*{sp}x{sp}{r.choice('+-')}{sp}{rnum(r)})"
    if k < .7:
        return f"({rexpr(r, d + 1)})**{r.choice([2, 2, 3])}"
    if k < .75:
        return f"-({rexpr(r, d + 1)})" if d == 0 else f"(-{rexpr(r, 4)})"
    return f"({rexpr(r, d + 1)}){sp}{r.choice('*//')}{sp}({rexpr(r, d + 1)})"


def num(v):
    """exact value of what the library returned"""
    if isinstance(v, F):
        return v
    if isinstance(v, int):
        return F(v)
    if isinstance(v, float):
        return v
    v = sympy.sympify(v)
    if v.is_Rational:
        return F(int(v.p), int(v.q))
    if not v.is_number or not v.is_finite:
        raise Unreadable(f"{v} is not a number")
    return float(v)


def agree(a, b):
    if isinstance(a, F) and isinstance(b, F):
        return a == b
    return abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b)))


def pts(r, I):
    a, b = I[0], I[1]
    out = [a + (b - a) * F(r.randint(1, 996), 997), a + (b - a) * F(r.randint(1, 9), 10), (a + b) / 2, a + (b - a) / 10**9, b - (b - a) / 10**9]
    return out + [a, b]


def off(r, I):
    a, b = I[0], I[1]
    return [a - F(1, 10**9), b + F(1, 10**9), a - 1, b + F(r.randint(1, 50), 7), F(0), F(2)]


def form(x, r):
    return r.choice([x, R_(x)])


def shown(est, star):
    mt = re.fullmatch(r"A(\*?)\(x\)\s*\\leq\s*(.*) on ([\[(].*[\])])", str(est), re.S)
    if not mt or (mt.group(1) == "*") != star:
        raise Unreadable(str(est))
    return mt.group(2), mt.group(3)


def ends(text):
    a, b = text[1:-1].split(",")
    return F(a.strip()), F(b.strip()), text[0] == "[", text[-1] == "]"


def judge(m, r, est, star, I, want, D, read):
    """est denotes the function want (x -> exact value, or raises Undefined) on I; read evaluates its displayed text"""
    t0 = str(est)
    xs = pts(r, I)
    r.shuffle(xs)
    some = False
    ex, rg = shown(est, star)
    m.ok("text_range", ends(rg) == tuple(I), lambda: f"{est}: range, want {I}; {D()}")
    for x in xs + off(r, I):
        if not inside(I, x):
            m.raises("off_range", (ValueError,), lambda: est.at(form(x, r)), lambda: f"at {x}; {D()}")
            continue
        try:
            w = want(x)
        except Undefined:
            continue
        g = est.at(form(x, r))
        m.ok("value", agree(num(g), w), lambda: f"at {x}: {g}, want {w}; {D()}")
        s = read(ex, x)
        if s is not None:
            m.ok("text_value", agree(s, w), lambda: f"the text {ex} is {s} at {x}, want {w}; {D()}")
            some = True
    m.eq("text_stable", str(est), t0, D)
    if some:
        m.nontrivial(t0)


def read_py(ex, x):
    try:
        return pyval(ex, x)
    except Undefined:
        return None


def read_tex(ex, x):
    try:
        return value(ex, {"x": x})
    except ZeroDivisionError:
        return None


def wrap(r, kind, data_or_text, I, rfn):
    """a hypothesis (or bare estimate) holding the estimate, through one of the constructors"""
    Z = zd.Zero_Density_Estimate if kind == "zd" else ze.Zero_Density_Energy_Estimate
    k = r.random()
    if isinstance(data_or_text, str) and k < .45:
        tag = r.choice(["", " I", " with k = 3"])
        if kind == "zd":
            S = Hypothesis_Set()
            zd.add_zero_density(S, data_or_text, Interval(*I), rfn, **({"params": tag} if tag else {}))
            hs = list(S)
            assert len(hs) == 1
            return hs[0], tag
        return ze.literature_zero_density_energy_estimate(data_or_text, Interval(*I), rfn, **({"params": tag} if tag else {})), tag
    data = Z(data_or_text, Interval(*I)) if isinstance(data_or_text, str) else Z.from_rational_func(data_or_text, Interval(*I))
    if k < .75:
        return data, None
    deps = {pair_h(r, rand_pair(r)) for _ in range(r.randint(0, 3))}
    return (zd.derived_zero_density_estimate if kind == "zd" else ze.derived_zero_density_energy_estimate)(data, "by hand", deps), deps


def est(r, m):
    kind = r.choice(["zd", "ze"])
    I = ival(r)
    rfn = ref(r)
    T = "Zero density estimate" if kind == "zd" else "Zero density energy estimate"
    text_ = None
    if r.random() < .6:
        text_ = rexpr(r)
        if r.random() < .08:
            text_ = text_.replace("3", "3.5", 1) if "**3" not in text_ and not re.search(r"\d*3\d*\.", text_) else text_
        want = lambda x: pyval(text_, x)
        arg, read = text_, read_py
        D = lambda: f"{kind} {text_!r} on {Interval(*I)}"
    else:
        f = rand_est(r, I)
        def want(x):
            v = at(f, x)
            if v is None:
                raise Undefined
            return v
        rfo = rf(f)
        f0 = str(rfo)
        arg, read = rfo, read_tex
        D = lambda: f"{kind} {text(f)} (a function) on {Interval(*I)}"
    got, extra = wrap(r, kind, arg, I, rfn)
    e = got
    if isinstance(got, Hypothesis):
        e = got.data
        m.eq("constructor", got.hypothesis_type, T, D)
        m.ok("constructor", got.description == str(e) and str(e) in got.desc(), lambda: f"description {got.description}; {D()}")
        if isinstance(extra, set):
            m.ok("constructor", set(got.dependencies) == extra and got.proof == "by hand" and got.reference.is_derived()
                 and got.reference.year() == max([d.reference.year() for d in extra], default=-1), lambda: f"derived: {got.reference}, {got.dependencies}; {D()}")
        else:
            m.ok("constructor", got.reference is rfn and rfn.author() in got.name and str(rfn.year()) in got.name and got.name.endswith(extra)
                 and rfn.author() in got.proof and str(rfn.year()) in got.proof and not got.dependencies, lambda: f"{got.desc_with_proof()}; {D()}")
    m.ok("constructor", isinstance(e, zd.Zero_Density_Estimate if kind == "zd" else ze.Zero_Density_Energy_Estimate), D)
    # histories: copied before or after it was evaluated, evaluated in any order
    if r.random() < .3:
        c = r.choice([copy.copy, copy.deepcopy])(e)
        if r.random() < .5:
            e, c = c, e
        judge(m, r, c, kind == "ze", I, want, lambda: f"a copy of {D()}", read)
    judge(m, r, e, kind == "ze", I, want, D, read)
    if r.random() < .3:
        judge(m, r, e, kind == "ze", I, want, lambda: f"again {D()}", read)
    if text_ is None:
        m.eq("function_kept", str(rfo), f0, D)
        # the text of a function estimate builds an equal estimate when it is a plain quotient
    else:
        # the same estimate built from its function
        Z = type(e)
        try:
            fn = RF.parse(text_)
        except ZeroDivisionError:
            return
        if "." not in text_ and math.isfinite(1):
            try:
                pyval(text_, F(1, 3)), pyval(text_, F(2, 7))
            except Undefined:
                return
            e2 = Z.from_rational_func(fn, Interval(*I))
            for x in pts(r, I)[:3]:
                try:
                    w = want(x)
                except Undefined:
                    continue
                m.ok("same_from_function", agree(num(e2.at(x)), w), lambda: f"at {x}: {e2.at(x)}; {D()}")
    m.sample(D())


def spell(r):
    """expressions that look alike: brackets moved or dropped, marks dropped, digits split"""
    n = [r.choice(["x", "2", "3", "12", "1.5", "x", "7"]) for _ in range(r.choice([3, 3, 4]))]
    o = [r.choice(["+", "-", "*", "/", "/"]) for _ in n[1:]]
    if r.random() < .3:
        i = r.randrange(len(o))
        o[i], n[i], n[i + 1] = "**", "x", r.choice(["2", "3"])
    flat = lambda n, o: n[0] + "".join(a + b for a, b in zip(o, n[1:]))
    out = {flat(n, o)}
    for i in range(len(n)):
        for j in range(i + 1, len(n)):
            if (i, j) != (0, len(n) - 1):
                out.add(flat(n[:i] + ["(" + flat(n[i:j + 1], o[i:j]) + ")"] + n[j + 1:], o[:i] + o[j:]))
    for t in list(out):
        out |= {t.replace("**", "*"), t.replace(".", ""), t.replace("12", "1+2"), t.replace("-", "+"), t.replace("/", " / "), t.replace("+", " + ")}
    return sorted(out)


def alike(r, m):
    """many estimates in one process, in any order, whose expressions hardly differ"""
    ts = spell(r)
    ts = r.sample(ts, min(len(ts), r.choice([3, 5, 8])))
    I = (F(1, 2), F(1), True, True)
    es = []
    for t in ts:
        Z = r.choice([zd.Zero_Density_Estimate, ze.Zero_Density_Energy_Estimate])
        es.append((t, Z(t, Interval(*I))))
        if r.random() < .3:
            es.append((t, copy.copy(es[-1][1])))
    some = 0
    for _ in range(2):
        r.shuffle(es)
        for t, e in es:
            x = r.choice([F(3, 4), F(r.randint(51, 99), 100)])
            try:
                w = pyval(t, x)
            except (Undefined, OverflowError, ZeroDivisionError):
                continue
            if isinstance(w, complex) or abs(w) > 10 ** 12:
                continue
            g = e.at(form(x, r))
            m.ok("alike", agree(num(g), w), lambda: f"{t} at {x}: {g}, want {w}; evaluated together with {ts}")
            some += 1
    if some:
        m.nontrivial(tuple(ts))


BADX = ["3/(", "3/(2 - x))", "2x", "", "x +* 2", "import os", ")", "3 x", "x..y"]


def invalid(r, m):
    kind = r.choice(["zd", "ze"])
    Z = zd.Zero_Density_Estimate if kind == "zd" else ze.Zero_Density_Energy_Estimate
    I = ival(r)
    iv = Interval(*I)
    f = rand_est(r, I)
    bad = r.choice([3, F(3, 2), 2.5, None, ["3"], rf(f), Affine(1, 2, iv), sympy.Symbol("x"), b"3/(2-x)", lambda x: 3])
    m.raises("bad_expression_type", (ValueError, TypeError), lambda: Z(bad, iv), lambda: f"{kind} expression {bad!r}")
    badi = r.choice([None, (F(1, 2), F(1)), "[1/2, 1)", [F(1, 2), F(1)], F(3, 4), 1, {"x0": 0}])
    m.raises("bad_range_type", (ValueError, TypeError), lambda: Z(text(f), badi), lambda: f"{kind} range {badi!r}")
    m.raises("bad_range_type", (ValueError, TypeError), lambda: Z.from_rational_func(rf(f), badi), lambda: f"{kind} range {badi!r}")
    badf = r.choice([text(f), 3, None, F(1), Affine(1, 2, iv), Z(text(f), iv)])
    m.raises("bad_function_type", (ValueError, TypeError), lambda: Z.from_rational_func(badf, iv), lambda: f"{kind} function {badf!r}")
    bx = r.choice(BADX)

    def go():
        z = Z(bx, Interval(*I))
        return z.at((I[0] + I[1]) / 2)
    m.raises("bad_text", (Exception,), go, lambda: f"{kind} text {bx!r}")
    a, b = q(r), q(r)
    if a != b:
        a, b = max(a, b), min(a, b)
        m.raises("bad_range", (ValueError,), lambda: Interval(a, b, r.random() < .5, r.random() < .5), lambda: f"range {a}, {b}")
        m.raises("bad_range", (ValueError,), lambda: Interval(f"[{a}, {b})"), lambda: f"range {a}, {b}")
    # conveniences reject them too, and leave the collection alone
    S = Hypothesis_Set()
    try:
        if kind == "zd":
            zd.add_zero_density(S, bad, iv, ref(r))
        else:
            S.add_hypothesis(ze.literature_zero_density_energy_estimate(bad, iv, ref(r)))
        m.fail("bad_expression_type", lambda: f"{kind}: {bad!r} was accepted")
    except (ValueError, TypeError):
        pass
    m.ok("nothing_added", len(S) == 0, lambda: f"{kind}: {list(S)}")
    m.nontrivial((kind, repr(bad)[:30], repr(badi), bx, str(a), str(b)))


def beta(r, m):
    S = Hypothesis_Set()
    rfn = ref(r)
    ps, seen = [], set()
    for _ in range(r.randint(1, 4)):
        a, b = sorted([F(r.randint(0, 24), 24), F(r.randint(0, 24), 24)])
        I = (a, b, r.random() < .7, r.random() < .7)
        if a == b and not (I[2] and I[3]):
            continue
        ps.append((q(r, -2, 2, (1, 2, 84)), q(r, -2, 2, (1, 2, 570)), I))
    D = lambda: f"{[(str(p[0]), str(p[1]), str(Interval(*p[2]))) for p in ps]}"
    k = r.choice(["add", "derived", "classical", "bare"])
    afs = [Affine(u, v, Interval(*I)) for u, v, I in ps]
    deps = {pair_h(r, rand_pair(r)) for _ in range(r.randint(0, 2))}
    if k == "add":
        bb.add_beta_bound(S, afs, rfn)
        hs = list(S)
        m.eq("beta_count", len(hs), len(ps), D)
        hs = [next(h for h in hs if h.data.bound is f) for f in afs]
        for h, p in zip(hs, ps):
            m.ok("beta_constructor", h.reference is rfn and rfn.author() in h.proof and str(rfn.year()) in h.proof and rfn.author() in h.name and not h.dependencies, lambda: f"{h.desc_with_proof()}")
    elif k == "derived":
        hs = [bb.derived_bound_beta(f, "by hand", set(deps)) for f in afs]
        for h in hs:
            m.ok("beta_constructor", set(h.dependencies) == deps and h.proof == "by hand" and h.reference.is_derived(), lambda: h.desc_with_proof())
    elif k == "classical":
        hs = [bb.classical_bound_beta(f) for f in afs]
        for h in hs:
            m.ok("beta_constructor", h.reference.is_classical() and not h.dependencies, lambda: h.desc_with_proof())
    else:
        hs = [bb.Bound_beta(f) for f in afs]
    for h, (u, v, I) in zip(hs, ps):
        d = h
        if k != "bare":
            m.ok("beta_constructor", h.hypothesis_type == "Upper bound on beta" and h.description == str(h.data), lambda: h.desc_with_proof())
            d = h.data
        mt = re.fullmatch(r"\\beta\(x\)\s*\\leq\s*(.*) for x \\in ([\[(].*[\])])", str(d))
        m.ok("beta_text", mt is not None, lambda: str(d))
        m.ok("beta_text", ends(mt.group(2)) == I, lambda: f"{d}; {D()}")
        for x in pts(r, I) + off(r, I):
            g = d.bound.at(x)
            if inside(I, x):
                m.ok("beta_value", g == u * x + v, lambda: f"at {x}: {g}; {D()}")
                m.ok("beta_text", value(mt.group(1), {"x": x}) == g, lambda: f"{d} at {x}: {g}")
            else:
                m.ok("beta_off", g is None, lambda: f"at {x}: {g}; {D()}")
    m.nontrivial(D())


def mu(r, m):
    s, v = q(r, -1, 2, (1, 2, 6, 84, 205)), q(r, 0, 1, (2, 6, 84, 205))
    rfn = ref(r)
    deps = {pair_h(r, rand_pair(r)) for _ in range(r.randint(0, 2))}
    D = lambda: f"mu({s}) <= {v}"
    hs = {"literature": bm.literature_bound_mu(s, v, rfn), "classical": bm.classical_bound_mu(s, v), "conjecture": bm.conjecture_bound_mu(s, v, "A conjecture"),
          "derived": bm.derived_bound_mu(s, v, "by hand", set(deps)), "bare": bm.Bound_mu(s, v)}
    for k, h in hs.items():
        d = h
        if k != "bare":
            m.ok("mu_constructor", h.hypothesis_type == "Upper bound on mu" and h.description == str(h.data), D)
            d = h.data
        m.ok("mu_value", (d.sigma, d.mu) == (s, v), D)
        mt = re.fullmatch(r"\\mu\((.*)\)\s*\\leq\s*(.*)", str(d))
        m.ok("mu_text", mt is not None and (F(mt.group(1)), F(mt.group(2))) == (s, v), lambda: f"{d}; {D()}")
        m.ok("mu_equal", d == bm.Bound_mu(s, v) and d != bm.Bound_mu(s, v + F(1, 10**6)) and d != bm.Bound_mu(s - F(1, 10**6), v), D)
    m.ok("mu_constructor", hs["literature"].reference is rfn and rfn.author() in hs["literature"].proof and hs["classical"].reference.is_classical() and hs["conjecture"].reference.is_conjectured()
         and hs["conjecture"].name == "A conjecture" and hs["derived"].reference.is_derived() and set(hs["derived"].dependencies) == deps
         and hs["derived"].reference.year() == max([d.reference.year() for d in deps], default=-1), D)
    t = H - s if s <= 0 else F(0) if s >= 1 else (1 - s) / 2
    m.ok("mu_trivial", bm.trivial_mu_bound(s) == t and bm.apply_trivial_mu_bound(s).data == bm.Bound_mu(s, t), D)
    # pairs
    k, l = rand_pair(r)
    ps = {"literature": ep.literature_exp_pair(k, l, rfn), "derived": ep.derived_exp_pair(k, l, "by hand", set(deps)), "bare": ep.Exp_pair(k, l)}
    for kind, h in ps.items():
        d = h if kind == "bare" else h.data
        mt = re.search(r"\(([^()]*),([^()]*)\)", str(d))
        m.ok("pair_text", (d.k, d.l) == (k, l) and mt is not None and (F(mt.group(1).strip()), F(mt.group(2).strip())) == (k, l), lambda: f"{d}; pair {k}, {l}")
        m.ok("pair_equal", d == ep.Exp_pair(k, l) and d != ep.Exp_pair(k, l + 1) and d != ep.Exp_pair(k + 1, l), lambda: f"{d}")
        if kind != "bare":
            m.ok("pair_constructor", h.hypothesis_type == "Exponent pair" and h.description == str(d), lambda: h.desc())
    m.ok("pair_constructor", ps["literature"].reference is rfn and ps["derived"].reference.is_derived() and set(ps["derived"].dependencies) == deps and ps["derived"].proof == "by hand", D)
    m.nontrivial((str(s), str(v), str(k), str(l)))


def recorded(r, m):
    """every estimate of the literature, at random points"""
    n = 0
    recs = [h for h in L.literature if h.hypothesis_type in ("Zero density estimate", "Zero density energy estimate")]
    for h in r.sample(recs, 60):
        e = h.data
        ex, rg = shown(e, h.hypothesis_type != "Zero density estimate")
        try:
            I = ends(rg)
        except ValueError:
            continue
        x = I[0] + (I[1] - I[0]) * F(r.randint(1, 9972), 9973)
        try:
            w = pyval(ex, x)
        except (Undefined, AssertionError, SyntaxError):
            continue
        m.ok("recorded_value", agree(num(e.at(x)), w), lambda: f"{h.name}: {e} at {x} is {e.at(x)}, want {w}")
        for y in (I[0] - F(1, 10**6), I[1] + F(1, 10**6)):
            m.raises("recorded_off", (ValueError,), lambda: e.at(y), lambda: f"{h.name}: {e} at {y}")
        for y, inc in ((I[0], I[2]), (I[1], I[3])):
            if not inc:
                m.raises("recorded_off", (ValueError,), lambda: e.at(y), lambda: f"{h.name}: {e} at {y}")
        n += 1
    m.ok("recorded_some", n >= 20, f"only {n} recorded estimates could be read")
    for h in [h for h in L.literature if h.hypothesis_type == "Upper bound on beta"]:
        b = h.data.bound
        mt = re.fullmatch(r"\\beta\(x\)\s*\\leq\s*(.*) for x \\in ([\[(].*[\])])", str(h.data))
        m.ok("recorded_value", mt is not None, lambda: str(h.data))
        I = ends(mt.group(2))
        x = I[0] + (I[1] - I[0]) * F(r.randint(1, 996), 997)
        if inside(I, x):
            m.ok("recorded_value", b.at(x) == value(mt.group(1), {"x": x}), lambda: f"{h}: {h.data} at {x}: {b.at(x)}")
        m.ok("recorded_off", b.at(I[1] + F(1, 10**6)) is None and b.at(I[0] - F(1, 10**6)) is None, lambda: f"{h}")
    m.nontrivial(r.random())


SUITES = [
    Suite("est", est, 1500, 60000, need=("value", "off_range", "text_value", "text_range", "text_stable", "constructor", "function_kept", "same_from_function")),
    Suite("alike", alike, 300, 6000, need=("alike",)),
    Suite("invalid", invalid, 1200, 20000, need=("bad_expression_type", "bad_range_type", "bad_function_type", "bad_text", "bad_range", "nothing_added")),
    Suite("beta", beta, 1500, 40000, need=("beta_value", "beta_off", "beta_text", "beta_count", "beta_constructor")),
    Suite("mu", mu, 1500, 40000, need=("mu_value", "mu_text", "mu_equal", "mu_constructor", "mu_trivial", "pair_text", "pair_constructor")),
    Suite("recorded", recorded, 16, 200, need=("recorded_value", "recorded_off", "recorded_some")),
]
