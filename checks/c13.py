"""C13: proof bookkeeping on random dependency graphs. Oracle: own graph closure and recursion."""
import io, contextlib
from fractions import Fraction as F
from vh import Suite
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference
from bound_mu import Bound_mu, derived_bound_mu
from exponent_pair import Exp_pair, derived_exp_pair
from bound_beta import derived_bound_beta
from functions import Affine, Interval
import large_values as lv
from checks.c12 import rand_ref

PROPERTY = "C13"
RULE = "random acyclic graphs of 2-14 hypotheses with shared nodes, mixed literature, classical, trivial, conjectural, undated and derived references, derived nodes built by the public derived_* constructors; closure, complexity, date and listings compared with own recursion; non-trivial when some node is shared by two dependants"


def rand_graph(r):
    n = r.randint(2, 14) if r.random() > .05 else r.randint(20, 30)
    hs, deps = [], {}
    for i in range(n):
        k = 0 if i == 0 else min(i, r.choice([0, 0, 1, 1, 2, 3]))
        ds = r.sample(range(max(0, i - 5), i), min(k, i - max(0, i - 5)))
        dh = {hs[j] for j in ds}
        if not ds:
            h = Hypothesis(f"node-{i}-x", "Upper bound on mu", Bound_mu(F(1, 2), F(1, i + 2)), f"proof-{i}-x", rand_ref(r))
        else:
            c = r.choice(["plain", "mu", "pair", "beta"])
            if c == "plain":
                h = Hypothesis(f"node-{i}-x", "Exponent pair", Exp_pair(F(1, 6), F(2, 3)), f"proof-{i}-x", rand_ref(r))
                for d in dh:
                    h.add_dependency(d)
                    if r.random() < .3:
                        h.add_dependency(d)
            elif c == "mu":
                h = derived_bound_mu(F(1, i + 2), F(1, 3), f"proof-{i}-x", set(dh))
            elif c == "pair":
                h = derived_exp_pair(F(1, i + 7), F(2, 3), f"proof-{i}-x", set(dh))
            else:
                h = derived_bound_beta(Affine(F(1, i + 2), F(1, 3), Interval(F(0), F(1, 2))), f"proof-{i}-x", set(dh))
        hs.append(h)
        deps[i] = ds
    return hs, deps


def yr(h):
    y = h.reference.entries.get("year", None)
    return -1 if y is None or y == "Unknown date" else y


def case(r, m):
    hs, deps = rand_graph(r)
    reach, comp, date = {}, {}, {}
    for i in range(len(hs)):
        reach[i] = set(deps[i]).union(*[reach[j] for j in deps[i]]) if deps[i] else set()
        comp[i] = 1 + sum(comp[j] for j in deps[i])
        date[i] = max([yr(hs[i])] + [date[j] for j in deps[i]])
    D = lambda: f"graph {deps}, years {[h.reference.year() for h in hs]}"
    order = list(range(len(hs)))
    r.shuffle(order)
    for i in order:
        h = hs[i]
        got = h.recursive_dependencies()
        m.ok("closure", sorted(id(x) for x in got) == sorted(id(hs[j]) for j in reach[i]) and len(got) == len(reach[i]),
             lambda: f"node {i}: {[x.name for x in got]}, want {sorted(reach[i])}; {D()}")
        got.add_hypothesis(hs[r.randrange(len(hs))])          # the result is the caller's own
        m.eq("complexity", h.proof_complexity(), comp[i], D)
        m.eq("date", h.proof_date(), date[i], D)
        m.ok("direct_unchanged", sorted(id(x) for x in h.dependencies) == sorted(id(hs[j]) for j in deps[i]), D)
        if deps[i] and h.reference.label == "Derived" and h.name.startswith("Derived"):
            ys = [hs[j].reference.entries.get("year", "Unknown date") for j in deps[i]]
            want = "Unknown date" if "Unknown date" in ys else max(ys)
            m.ok("derived_year", h.reference.year() == want and h.reference.is_derived(), lambda: f"node {i}: year {h.reference.year()}, want {want}; {D()}")
    # links made after the first questions count as well
    for i in sorted(r.sample(range(1, len(hs)), r.choice([0, 1, 1, 2]) if len(hs) > 3 else 0)):
        j = r.randrange(i)
        if j not in deps[i]:
            hs[i].add_dependency(hs[j])
            deps[i] = deps[i] + [j]
    for i in range(len(hs)):
        reach[i] = set(deps[i]).union(*[reach[j] for j in deps[i]]) if deps[i] else set()
        comp[i] = 1 + sum(comp[j] for j in deps[i])
        date[i] = max([yr(hs[i])] + [date[j] for j in deps[i]])
    for i in order:
        m.eq("complexity", hs[i].proof_complexity(), comp[i], D)
        m.eq("date", hs[i].proof_date(), date[i], D)
        got = hs[i].recursive_dependencies()
        m.ok("closure", sorted(id(x) for x in got) == sorted(id(hs[j]) for j in reach[i]), D)
    i = r.randrange(len(hs))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        hs[i].recursively_list_proofs()
    lines = [l for l in buf.getvalue().split("\n") if l.strip()]
    want = {}

    def count(j):
        want[j] = want.get(j, 0) + 1
        for k in deps[j]:
            count(k)
    count(i)
    m.ok("listing", len(lines) == sum(want.values()) and all(sum(f"proof-{j}-x" in l for l in lines) == c for j, c in want.items()), lambda: f"listing of {i}: {lines}; {D()}")
    S = Hypothesis_Set(set(hs))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        S.list_proofs()
    t = buf.getvalue()
    m.ok("listing", all(f"proof-{j}-x" in t and hs[j].name in t for j in range(len(hs))), D)
    for j, h in enumerate(hs):
        m.ok("texts", h.name in h.desc() and str(h.data) in h.desc() and h.proof in h.desc_with_proof() and str(h) == h.name, D)
    if any(sum(j in d for d in deps.values()) > 1 for j in range(len(hs))):
        m.nontrivial(str(deps) + str([h.reference.year() for h in hs]))
    m.sample(D())


def case_refs(r, m):
    refs = [rand_ref(r) for _ in range(r.randint(0, 6))]
    ys = [x.entries.get("year", "Unknown date") for x in refs]
    want = -1 if not refs else "Unknown date" if "Unknown date" in ys else max(ys)
    got = Reference.max_year(tuple(refs) if r.random() < .5 else list(refs))
    m.ok("max_year", got == want, lambda: f"max_year of {ys} gave {got}, want {want}")
    for x in refs:
        k = {"Classical": x.is_classical(), "Derived": x.is_derived(), "Conjectured": x.is_conjectured(), "Trivial": x.is_trivial()}
        m.ok("kinds", all(v == (x.label == n) for n, v in k.items()), x.label)
        m.ok("kinds", x.is_literature() == (x.label not in ("Classical", "Derived", "Conjectured")) or x.label == "Trivial", x.label)
        m.ok("kinds", str(x.year()) in str(x) and x.author() in str(x), x.label)
    m.nontrivial(ys)


SUITES = [Suite("graph", case, 3000, 60000, need=["closure", "complexity", "date", "listing", "derived_year"]),
          Suite("refs", case_refs, 1500, 10000, need=["max_year"])]
