"""C12: Hypothesis_Set histories against an executable set model."""
import copy, io, contextlib
from fractions import Fraction as F
from vh import Suite
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference
from bound_mu import Bound_mu, best_mu_bound, prove_mu_bound
from exponent_pair import Exp_pair

PROPERTY = "C12"
RULE = "random histories (10-40 steps) of construct, add one, add many (list, set, tuple, generator, collection), copy, list, find, iterate (also nested and abandoned halfway), count, on 1-4 collections sharing hypotheses; every query compared with a model keyed by identity; non-trivial when a history contains a query after an addition to a copied collection"

TYPES = ["Upper bound on mu", "Exponent pair", "Zero density estimate", "Large value estimate"]
WORDS = ["Bourgain", "Huxley", "bound", "van der Corput", "A", "B", "(1/2)", "mean value"]


def rand_ref(r):
    k = r.random()
    if k < .5:
        return Reference.make(r.choice(["Weyl", "Bourgain", "Huxley--Watt"]), r.choice([1916, 1920, 1972, 1988, 2005, 2017, 2017]))
    if k < .6:
        return Reference.classical()
    if k < .7:
        return Reference.derived(r.choice([-1, 1950, 2020, "Unknown date"]))
    if k < .8:
        return Reference.conjectured()
    if k < .9:
        return Reference.trivial()
    return Reference("nolabel", "book", {"author": "Anon"} if r.random() < .5 else {})


def rand_hyp(r):
    d = r.choice([Bound_mu(F(1, 2), F(r.randint(1, 3), 6)), Exp_pair(F(1, 6), F(r.randint(2, 4), 6)), "text", 7])
    return Hypothesis(" ".join(r.sample(WORDS, r.randint(1, 4))), r.choice(TYPES), d, "proof", rand_ref(r))


def year_of(h):
    return h.reference.entries.get("year", None)


def match(h, t, y):
    """listed for type t and year y"""
    if t != "Any" and h.hypothesis_type != t:
        return False
    if y == "Any" or h.reference.label in ("Derived", "Classical"):
        return True
    if h.reference.label == "Conjectured":
        return False
    return year_of(h) is not None and year_of(h) <= y


def found(h, t, data, kw, y):
    if t != "Any" and h.hypothesis_type != t:
        return False
    if not (isinstance(data, str) and data == "Any") and not (h.data == data):
        return False
    if kw != "Any" and not all(k.strip() in h.name for k in kw.split(",")):
        return False
    return y == "Any" or (year_of(h) if year_of(h) is not None else "Unknown date") == y


def ids(hs):
    return sorted(id(h) for h in hs)


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def case(r, m):
    pool = [rand_hyp(r) for _ in range(r.randint(2, 12) if r.random() > .05 else r.randint(25, 60))]
    typed = r.random() < .5
    if typed:      # the members are what their types say, so that the package's computations apply
        for h in pool:
            if h.hypothesis_type == "Upper bound on mu":
                h.data = Bound_mu(F(r.randint(1, 5), 6), F(r.randint(1, 3), 6))
            elif h.hypothesis_type == "Exponent pair":
                h.data = Exp_pair(F(r.randint(0, 3), 6), F(r.randint(4, 6), 6))
    sets = [(Hypothesis_Set(), {})]
    log, added_after_copy, copied = [], False, False
    some = lambda: r.sample(pool, r.randint(0, min(len(pool), 5 if len(pool) < 20 else 40)))
    given = []     # the caller's own containers, used again and again
    D = lambda: f"history {log}; pool {[(h.name, h.hypothesis_type, h.reference.label, h.reference.year()) for h in pool]}"
    for step in range(r.randint(10, 40)):
        j = r.randrange(len(sets))
        S, M = sets[j]
        op = r.choice(["new", "add", "add", "many", "many", "copy", "list", "list", "find", "find", "iter", "nested", "len"])
        if op in ("new", "copy") and len(sets) >= 4:
            op = "list"
        if typed and r.random() < .12:
            # what computations remember about a collection must not show in later queries
            s, u = r.choice([F(1, 2), F(2, 3), F(3, 5)]), r.choice([F(0), F(1, 10), F(1, 4), F(1)])
            if r.random() < .5:
                quiet(lambda: best_mu_bound(s, S))
                log.append(("best mu", j))
            else:
                h = quiet(lambda: prove_mu_bound(s, u, S))
                if h:
                    M[id(h)] = h
                log.append(("prove mu", j, bool(h)))
        if op == "new":
            hs = some()
            k = r.randrange(4)
            if given and r.random() < .5:
                arg, hs = r.choice(given)
            else:
                arg = [hs, set(hs), tuple(hs), Hypothesis_Set(set(hs))][k]
                given.append((arg, list(hs)))
            sets.append((Hypothesis_Set(arg), {id(h): h for h in hs}))
            log.append(("new", ids(hs)))
        elif op == "add":
            h = r.choice(pool)
            k = r.random()
            S.add_hypothesis(h) if k < .5 else S.add_hypothesis(h, invalidate_data=False) if k < .7 else S.add_hypotheses(h)
            M[id(h)] = h
            log.append(("add", j, h.name))
            added_after_copy |= copied
        elif op == "many":
            hs = some() + (some()[:1])
            k = r.randrange(6)
            if k == 5:
                o, MO = r.choice(sets)
                S.add_hypotheses(o)
                M.update(MO)
                log.append(("merge", j))
            else:
                arg = [list(hs), set(hs), tuple(hs), (h for h in hs), frozenset(hs)][k]
                if given and r.random() < .3:
                    arg, hs = r.choice(given)
                elif k < 2:
                    given.append((arg, list(hs)))
                before = list(hs)
                S.add_hypotheses(arg)
                M.update({id(h): h for h in hs})
                m.ok("argument_unchanged", hs == before, D)
                log.append(("many", j, [h.name for h in hs]))
            added_after_copy |= copied
        elif op == "copy":
            sets.append((copy.copy(S), dict(M)))
            copied = True
            log.append(("copy", j))
        elif op == "list":
            t, y = r.choice(TYPES + ["Any", "Any", "Nothing"]), r.choice(["Any", 1916, 1920, 1971, 2000, 2017, 2030, -1])
            got = S.list_hypotheses(t, y) if r.random() < .5 else S.list_hypotheses(hypothesis_type=t, year=y)
            m.ok("list", isinstance(got, list) and ids(got) == ids(h for h in M.values() if match(h, t, y)), lambda: f"list {t} {y} gave {[h.name for h in got]}; {D()}")
            got.clear()
            if r.random() < .3 and M:
                h = r.choice(list(M.values()))
                m.ok("match", bool(h.is_match(t, y)) == match(h, t, y), D)
        elif op == "find":
            t = r.choice(TYPES + ["Any"] * 3)
            data = r.choice(["Any"] * 4 + [Bound_mu(F(1, 2), F(1, 6)), Exp_pair(F(1, 6), F(2, 3)), 7])
            kw = r.choice(["Any", "Any", "Bourgain", "Huxley, bound", "A ,B", "zzz"] + ([r.choice(list(M.values())).name] if M else []))
            y = r.choice(["Any", "Any", 1988, 2017, -1, "Unknown date"])
            got = quiet(lambda: S.find_hypothesis(hypothesis_type=t, data=data, keywords=kw, year=y))
            fits = [h for h in M.values() if found(h, t, data, kw, y)]
            m.ok("find", (got is None and not fits) or any(got is h for h in fits), lambda: f"find {t, data, kw, y} gave {got!r}, fitting {[h.name for h in fits]}; {D()}")
        elif op == "iter":
            if r.random() < .3:
                for h in S:
                    break
            m.ok("iterate", ids(h for h in S) == sorted(M), D)
        elif op == "nested":
            seen = [(id(a), id(b)) for a in S for b in S]
            m.ok("iterate", sorted(seen) == sorted((a, b) for a in M for b in M), D)
        for S, M in sets:
            m.ok("members", len(S) == len(M) and ids(S.to_list()) == sorted(M), D)
    for arg, hs in given:
        m.ok("containers_unchanged", ids(arg) == sorted({id(h) for h in hs}) if not isinstance(arg, (list, tuple)) else ids(arg) == ids(hs), D)
        if isinstance(arg, (list, set)):
            arg.clear()
    for S, M in sets:
        l = S.to_list()
        l.clear()
        m.ok("members", ids(S) == sorted(M), D)
        s = repr(S)
        m.ok("repr", all(h.name in s for h in M.values()) and str(len(M)) in s, D)
    if added_after_copy:
        m.nontrivial(log)
    m.sample(str([l[0] for l in log]))


SUITES = [Suite("history", case, 4000, 100000, need=["list", "find", "iterate", "members", "match", "containers_unchanged"])]
