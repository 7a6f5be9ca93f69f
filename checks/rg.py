"""Region trees: own representation ('P', rows) | ('I'|'U'|'D', kids) | ('C', kid), with exact semantics."""
from fractions import Fraction as F
from vh import exact as E
from vh.util import *
from checks.geo import show
from polytope import Polytope
from region import Region, Region_Type


def holds(T, x):
    t, c = T
    if t == "P":
        return E.member(c, x)
    if t == "C":
        return not holds(c, x)
    if t == "I":
        return all(holds(k, x) for k in c)
    return any(holds(k, x) for k in c)


def leaves(T):
    t, c = T
    if t == "P":
        return [c]
    if t == "C":
        return leaves(c)
    return [l for k in c for l in leaves(k)]


def tree_has(T, k):
    t, c = T
    if t == k:
        return True
    if t == "P":
        return False
    return any(tree_has(x, k) for x in (c if isinstance(c, list) else [c]))


def tstr(T):
    t, c = T
    if t == "P":
        return "[" + "; ".join(",".join(str(v) for v in g) for g in c[0]) + (" | " + "; ".join(",".join(str(v) for v in g) for g in c[1]) if c[1] else "") + "]"
    if t == "C":
        return f"not {tstr(c)}"
    return t + "(" + ", ".join(tstr(k) for k in c) + ")"


def build(T, r=None):
    t, c = T
    if t == "P":
        return Region.from_polytope(mk(Polytope, c, r))
    if t == "C":
        return Region.complement(build(c, r))
    ks = [build(k, r) for k in c]
    return {"I": Region.intersect, "U": Region.union, "D": Region.disjoint_union}[t](ks)


def cells(T, d):
    """full-dimensional convex cells of a tree without complements (as rows)"""
    t, c = T
    if t == "P":
        return [c] if E.full_dim(c, d) else []
    if t in "UD":
        return [x for k in c for x in cells(k, d)]
    out = [([], [])]
    for k in c:
        ks = cells(k, d)
        new = []
        for a in out:
            for b in ks:
                x = (a[0] + b[0], a[1] + b[1])
                if E.full_dim(x, d):
                    new.append(x)
        out = new
    return out


def subdivide(r, P, d, n):
    cs = [P]
    for _ in range(n):
        c = cs.pop(r.randrange(len(cs)))
        g = cut(r, d)
        cs += [x for x in ((c[0] + [g], []), (c[0] + [[-v for v in g]], [])) if E.full_dim(x, d)]
        if not cs:
            return [P]
    return cs


def rand_leaf(r, d):
    return ("P", rand_bounded(r, d, cuts=r.choice([0, 1, 2]), full=r.random() < .9))


def rand_disjoint(r, d):
    P = rand_bounded(r, d, cuts=1)
    if r.random() < .4:
        P = (box_rows([(F(-2), F(2))] * d), [])
    cs = subdivide(r, P, d, r.choice([1, 2, 3]))
    k = r.random()
    if k < .6 and len(cs) > 1:
        cs.pop(r.randrange(len(cs)))
    r.shuffle(cs)
    return ("D", [("P", c) for c in cs])


def rand_tree(r, d, depth, comp=True, union=True, top=None, memo=None):
    memo = [] if memo is None else memo
    if memo and r.random() < .12 and top is None:
        return r.choice(memo)
    k = r.random()
    if depth <= 0 and top is None:
        T = rand_leaf(r, d) if k < .6 else rand_disjoint(r, d)
    elif top == "I" or k < .35:
        T = ("I", [rand_tree(r, d, depth - 1, comp, union, None, memo) for _ in range(r.choice([1, 2, 2, 3, 4] if top else [1, 2, 2, 3]))])
        rows = [g for t, c in T[1] if t == "P" for g in c[0] if any(g[1:])]
        if rows and r.random() < .25:   # the hyperplane of a facet of one of the others
            P = rand_bounded(r, d, cuts=r.choice([0, 1]), full=True) if r.random() < .3 else (box_rows([(F(-9), F(9))] * d), [])
            T[1].insert(r.randint(0, len(T[1])), ("P", (P[0], [list(r.choice(rows))])))
    elif k < .55 and union:
        T = ("U", [rand_tree(r, d, depth - 1, comp, union, None, memo) for _ in range(r.choice([1, 2, 3]))])
    elif k < .7 and comp:
        T = ("C", rand_tree(r, d, depth - 1, comp, union, None, memo))
    else:
        T = rand_disjoint(r, d)
    memo.append(T)
    return T


def proj_member(P, dims, y, d):
    eq = list(P[1])
    for k, i in enumerate(sorted(dims)):
        eq.append([-y[k]] + [1 if j == i else 0 for j in range(d)])
    return E.lp_max([0] * d, P[0], eq)[0] != E.INFEASIBLE
