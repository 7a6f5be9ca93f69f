"""helpers for the geometric checks (rows as strings, set judgement)"""
from vh import exact as E
from vh.util import *


def show(P):
    return f"ineqs {[[str(v) for v in g] for g in P[0]]} eqs {[[str(v) for v in g] for g in P[1]]}"


def inter(*Ps):
    return (sum((list(p[0]) for p in Ps), []), sum((list(p[1]) for p in Ps), []))


def judge_set(m, kind, p, P, d, r, desc):
    """the real polytope p denotes exactly P"""
    H = hrep(p)
    m.ok(kind + ":rows", same_set(H, P, d), lambda: f"{desc()}: got {show(H)}, want {show(P)}")
    for x in pts_for(r, [P], d, 3):
        m.ok(kind + ":contains", bool(p.contains(x)) == E.member(P, x), lambda: f"{desc()}: contains({x}) should be {E.member(P, x)}; {show(P)}")
