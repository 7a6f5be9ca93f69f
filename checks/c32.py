"""C32: printed constraints, polytopes, functions, regions and estimates denote what they describe.
Oracle: an independent reader of ordinary algebra evaluates the text at exact points."""
from fractions import Fraction as F
import ast, re
from vh import Suite, exact as E
from vh.util import *
from vh.algebra import value, relation, Unreadable
from checks.rg import *
from polytope import Polytope, Hyperplane, Constraint
from functions import Affine, Affine2, Interval, Piecewise
from region import Region, Region_Type
from helpers.str_helper import Str_Helper
import large_values as lv, additive_energy as ae

PROPERTY = "C32"
RULE = "random coefficient vectors (zeros, units, negatives, fractions, constant only) in 1-7 variables and random region trees; each text is read back and evaluated at exact points, among them points on the boundary; non-trivial when a text was read back"


def vec(r, d):
    k = r.random()
    if k < .06:
        return [F(0)] * (d + 1)
    if k < .14:
        return [q(r, -4, 4)] + [F(0)] * d
    c = [r.choice([0, 0, 1, -1, 2, -3, F(1, 2), F(-4, 3)]) for _ in range(d + 1)]
    if k > .9:   # many digits
        c = [v if r.random() < .5 else r.choice([F(10**20 + 1), F(r.randint(-10**12, 10**12), r.randint(10**9, 10**13)), F(1, 10**15 + 37), -F(10**9 + 1, 10**9)]) for v in c]
    if r.random() < .3:
        c[0] = 0
    return [F(v) for v in c] if r.random() < .6 else c


def lin(a, x):
    return a[0] + sum(u * v for u, v in zip(a[1:], x))


def on(r, a, n=4):
    """points on and off the hyperplane a"""
    d = len(a) - 1
    for _ in range(n):
        x = [q(r, -4, 4) for _ in range(d)]
        yield x
        k = next((i for i in range(d) if a[i + 1]), None)
        if k is not None:
            x = list(x)
            x[k] = F(0)
            x[k] = -F(lin(a, x)) / a[k + 1]
            yield x
            yield [v + (F(1, 7) if i == k else 0) for i, v in enumerate(x)]


def names(d, lim, short):
    return list(short)[:d] if d <= lim else [f"x_{i}" for i in range(1, d + 1)]


def rd(m, f, s, env, what):
    try:
        return f(s, env)
    except (Unreadable, ZeroDivisionError, IndexError) as e:
        m.fail("print", f"{what}: printed {s!r} cannot be read: {e}")


def variables(s, d):
    """the naming used by the text: single letters or x_i"""
    return [f"x_{i}" for i in range(1, d + 1)] if re.search(r"x_\d", s) or d > 5 else list("xyzwu")[:d]


def case_lin(r, m):
    d = r.choice([1, 2, 2, 3, 4, 4, 5, 6, 7])
    a = vec(r, d)
    V = r.choice([["σ", "τ", "ρ", "ρ*", "s", "u", "v"], [f"t_{i}" for i in range(9)], list("abcdefgh")])
    s = Str_Helper.format(list(a), V)
    con = Constraint(list(a), r.choice([Constraint.GREATER_EQUALS, Constraint.GREATER, Constraint.EQUALS]))
    t = str(con)
    h = str(Hyperplane(list(a)))
    for x in on(r, a):
        env = dict(zip(V, x))
        m.ok("format", rd(m, value, s, env, a) == lin(a, x), lambda: f"{a} printed {s!r}, at {x}")
        if d != 5:
            env = dict(zip(variables(t, d), x))
            m.ok("constraint", rd(m, relation, t, env, a) == con.satisfies(x), lambda: f"{a} type {con.inequality_type} printed {t!r}, at {x}")
            m.ok("hyperplane", rd(m, relation, h, env, a) == (lin(a, x) == 0), lambda: f"{a} printed {h!r}, at {x}")
        elif "x_" in t:
            env = dict(zip(variables(t, d), x))
            m.ok("constraint", rd(m, relation, t, env, a) == con.satisfies(x), lambda: f"{a} printed {t!r}, at {x}")
    m.ok("unchanged", list(con.coefficients) == list(a), s)
    # univariate affine function
    f = Affine(a[1], a[0], Interval(F(0), F(1), r.random() < .5, r.random() < .5), r.choice([None, "lbl"]))
    t = f.to_str("α") if r.random() < .5 else str(f)
    v = "α" if "α" in t.split(" for ")[1] else "x"
    m.ok("affine", " for " in t and str(f.domain) in t and ("lbl" in t) == (f.label is not None), t)
    for x in on(r, a[:2], 2):
        m.ok("affine", rd(m, value, t.split(" for ")[0], {v: x[0]}, a[:2]) == lin(a[:2], x), lambda: f"{a[:2]} printed {t!r} at {x}")
    m.nontrivial((a, s))
    m.sample(f"{a} -> {s!r}, {t!r}")


def rand_poly(r, d):
    P = rand_any(r, d)
    if r.random() < .1:
        P = ([], [])
    return P


def holds_text(items, env, m, what):
    return all(rd(m, relation, c, env, what) for c in items)


def case_poly(r, m):
    d = r.choice([1, 2, 2, 3, 4, 6])
    P = rand_any(r, d)
    if not nonzero(P):
        return
    p = mk(Polytope, P, r)
    before = hrep(p)
    V = r.choice(["στρabcdef", ["σ", "τ", "ρ", "ρ*", "s", "u", "v"], None])
    s = str(p) if V is None else p.to_str(V)
    items = ast.literal_eval(s)
    for x in pts_for(r, [P], d, 6):
        env = dict(zip(variables(s, d) if V is None else list(V), x))
        m.ok("polytope", holds_text(items, env, m, before) == E.member(P, x), lambda: f"{before} printed {s}, at {x}")
    m.ok("unchanged", hrep(p) == before, s)
    m.raises("few_names", Exception, lambda: p.to_str(["σ"] * (d - 1)), s)
    a = vec(r, d)
    f = Affine2(list(a), p)
    if d != 5:
        t = str(f)
        head, dom = t.split(" on ", 1)
        env0 = variables(t, d)
        for x in on(r, a, 2):
            m.ok("affine2", rd(m, value, head, dict(zip(env0, x)), a) == lin(a, x), lambda: f"{a} printed {t}, at {x}")
        m.ok("affine2", all(holds_text(ast.literal_eval(dom), dict(zip(env0, x)), m, t) == E.member(P, x) for x in pts_for(r, [P], d, 3)), t)
    m.nontrivial(s)
    m.sample(s)


KIND = {"Intersection": "I", "Union": "U", "Disjoint union": "D", "Complement": "C"}


def read_short(s):
    """nested short form -> tree with text leaves"""
    s = s.strip()
    if s.startswith("["):
        return ("P", ast.literal_eval(s))
    k, rest = s.split(" of {", 1)
    assert rest.endswith("}")
    rest, out, depth, cur, quote = rest[:-1], [], 0, "", False
    for ch in rest:
        if ch == "'":
            quote = not quote
        if not quote:
            depth += ch in "[{"
            depth -= ch in "]}"
        if ch == "," and depth == 0 and not quote:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return (KIND[k], [read_short(c) for c in out])


def read_long(s):
    lines = [l for l in s.split("\n") if l.strip()]
    def go(i, ind):
        l = lines[i]
        t = l.strip()
        if t.startswith("["):
            return ("P", ast.literal_eval(t)), i + 1
        kids, j = [], i + 1
        while j < len(lines) and len(lines[j]) - len(lines[j].lstrip("\t")) == ind + 1:
            k, j = go(j, ind + 1)
            kids.append(k)
        return (KIND[t], kids), j
    T, j = go(0, 0)
    assert j == len(lines), "stray lines"
    return T


def tholds(T, env, m):
    t, c = T
    if t == "P":
        return holds_text(c, env, m, c)
    if t == "C":
        assert len(c) == 1
        return not tholds(c[0], env, m)
    return all(tholds(k, env, m) for k in c) if t == "I" else any(tholds(k, env, m) for k in c)


def case_region(r, m):
    d = r.choice([2, 2, 3])
    T = rand_tree(r, d, r.choice([1, 2, 3]))
    R = build(T, r)
    V = r.choice(["στρ", None])
    for style in ("long", "short"):
        if style == "long":
            s = r.choice([str(R), R.to_str()]) if V is None else R.to_str(variables=V)
        else:
            s = R.to_str(use_indentation=False, variables=V) if V else R.to_str(use_indentation=False)
        try:
            U = (read_long if "\n" in s else read_short)(s)
        except (AssertionError, KeyError, ValueError, SyntaxError) as e:
            m.fail("region", f"{tstr(T)} printed {s!r}: {e!r}")
        names_ = list("xyzwu") if V is None else list(V)
        for x in pts_for(r, leaves(T), d, 5):
            m.ok("region", tholds(U, dict(zip(names_, x)), m) == holds(T, x), lambda: f"{tstr(T)} printed {s!r}, at {x}")
    if d == 3:
        e = lv.Large_Value_Estimate(R) if r.random() < .5 else ae.Additive_Energy_Estimate(R)
        s = str(e)
        head, body = s.split(" in ", 1)
        U = read_short(body)
        nm = head.strip("()").split(",")
        m.ok("estimate", len(nm) == 3, s)
        for x in pts_for(r, leaves(T), d, 4):
            m.ok("estimate", tholds(U, dict(zip(nm, x)), m) == holds(T, x), lambda: f"{tstr(T)} printed {s!r}, at {x}")
    m.nontrivial(tstr(T))


def case_lv(r, m):
    bs = [vec(r, 2) for _ in range(r.choice([1, 1, 2, 3]))]
    e = lv.convert_bounds([list(b) for b in bs])
    s = str(e)
    g = re.fullmatch(r"(.*?) ?(<=|\\leq) ?(?:max\((.*)\)|(.*))", s)
    m.ok("lv_text", bool(g), s)
    items = g.group(3).split(",") if g.group(3) is not None else [g.group(4)]
    for _ in range(5):
        x = [q(r, 0, 6), q(r, 0, 9)]
        got = max(rd(m, value, t, {"σ": x[0], "τ": x[1]}, bs) for t in items)
        m.ok("lv_text", got == max(lin(b, x) for b in bs), lambda: f"{bs} printed {s!r}, at {x}")
    m.nontrivial(s)
    m.sample(s)


SUITES = [
    Suite("linear", case_lin, 2500, 40000, need=["format", "constraint", "hyperplane", "affine"]),
    Suite("polytope", case_poly, 1200, 20000, need=["polytope", "affine2"]),
    Suite("region", case_region, 700, 12000, need=["region", "estimate"]),
    Suite("large_value", case_lv, 600, 10000, need=["lv_text"]),
]
