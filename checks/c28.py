"""C28: bibliographies and literature records.
Random bibliographies are parsed and looked up against the model they were printed from; the shipped one against an
independent reader; every literature record against an independent transcription of the theorem it cites."""
import os, re, math, tempfile
from fractions import Fraction as F
from vh import Suite, REPO
import reference as R
import literature as L
import bound_mu as bm
import exponent_pair as ep
from constants import Constants
from hypotheses import Hypothesis_Set, Hypothesis
from exponent_pair import literature_exp_pair
from reference import Reference

PROPERTY = "C28"
RULE = "a random bibliography (nesting, line breaks, case, comments, quoted / bare / braced values) is non-trivial when it has two entries or more; a record is non-trivial when its theorem was evaluated at a point of its range"
ASSUMPTIONS = ["the transcription of the published theorems in this file (from the blueprint chapters) is right",
               "labels are unique within a bibliography and fields within an entry"]
H = F(1, 2)

# ----------------------------------------------------------------------------------------------------- bibliographies
WORDS = ["zeta", "On", "the", "{Riemann}", "{\\'e}lite", "Sur", "{T}uran's", "mean--values", "a=b", "x, y", "$\\zeta(s)$", "{{Deep} nest}", "I,", "``II''",
         "mail@host.org", "100\\%", "Über", "{D{\\\"o}ppler}", "{a, b = c}", "{say \"hi\"}", "#7"]
SUR = ["Smith", "Heath-Brown", "Ivi{\\'c}", "Matom{\\\"a}ki", "O'Neil", "Guth", "Maynard", "Szeg\\\"o", "Li", "Bombieri"]
PARTS = ["van der Corput", "de la Vall\\'ee Poussin", "Radziwi{\\l\\l}"]
KEYS = ["title", "journal", "volume", "number", "pages", "doi", "note", "publisher", "url", "abstract"]


def ws(r, must=False):
    return r.choice([" ", "  ", "\n", "\n\t", "\n    ", "\t"]) if must or r.random() < .5 else ""


def glue(r, words):
    """the words as printed (joined by blanks or line breaks) and the value they stand for"""
    out = words[0]
    for w in words[1:]:
        out += r.choice([" ", " ", " ", "\n", "\n   ", " \n\t"]) + w
    return out, " ".join(words)


def person(r):
    k = r.random()
    first = r.choice(["J.", "Jean", "A. B.", "Terence", "D. R."])
    if k < .5:
        s = r.choice(SUR + PARTS)
        return f"{s}, {first}", s
    if k < .85:
        s = r.choice(SUR)
        return f"{first} {s}", s
    s = r.choice(SUR)
    return s, s


def cased(r, s):
    return r.choice([s, s, s.upper(), s.capitalize()])


def strip_braces(v):
    v = v.strip()
    while len(v) >= 2 and v[0] == "{" and v[-1] == "}":
        d = 0
        for i, c in enumerate(v):
            d += (c == "{") - (c == "}")
            if d == 0:
                break
        if i < len(v) - 1:
            break
        v = v[1:-1].strip()
    return v


def squash(v):
    return re.sub(r"\s+", " ", v).strip()


def wrap(r, text, bare=False):
    """text as a field value"""
    k = r.random()
    if bare and k < .4:
        return text
    if k < .75:
        return "{" + text + "}"
    d = 0
    for c in text:
        d += (c == "{") - (c == "}")
        if c == '"' and d == 0:
            return "{" + text + "}"
    return '"' + text + '"'


def rand_bib(r):
    n = r.choice([0, 1, 2, 2, 3, 4, 6])
    ents, text = [], ""
    stray = lambda: r.choice(["", "", "\n", "\n\n", "% a comment\n", "some text, with = signs\n", "see \"above\n", "\n  \n", "don't\n"])
    text += stray()
    labels = set()
    for i in range(n):
        while True:
            lab = r.choice(["smith", "Smith", "heath-brown_zero", "GM24", "a.b:c", "x/y", "Ivic", "ivic"]) + r.choice(["", "_1979", "1980a", str(i)])
            if lab not in labels:
                break
        labels.add(lab)
        typ = r.choice(["article", "book", "misc", "inproceedings", "phdthesis"])
        fields, rows = {}, []
        keys = r.sample(KEYS, r.randint(0, 5))
        if r.random() < .85:
            keys.append("author")
        if r.random() < .85:
            keys.append("year")
        r.shuffle(keys)
        for k in keys:
            if k == "author":
                ps = [person(r) for _ in range(r.choice([1, 1, 2, 3, 5]))]
                out = ps[0][0]
                for p in ps[1:]:
                    out += r.choice([" and ", " and\n", "\n and ", " and\n\t\t"]) + p[0]
                val = wrap(r, out)
                fields[k] = "--".join(p[1] for p in ps)
            elif k == "year":
                y = r.randint(1850, 2030)
                t = r.choice([str(y)] * 4 + [f"{y}/{(y + 1) % 100:02d}", f"{y}/{y + 1}"])
                val = wrap(r, t, bare=t.isdigit())
                fields[k] = y
            elif k in ("volume", "number") and r.random() < .6:
                v = str(r.randint(1, 300))
                val, fields[k] = wrap(r, v, bare=True), v
            else:
                out, v = glue(r, [r.choice(WORDS) for _ in range(r.choice([1, 2, 3, 5, 8]))])
                val, fields[k] = wrap(r, out), v
            rows.append(ws(r) + cased(r, k) + ws(r) + "=" + ws(r) + val + ws(r))
        text += "@" + cased(r, typ) + r.choice(["", "", " "]) + "{" + r.choice(["", "", " "]) + lab + r.choice(["", "", " "])
        text += "".join("," + x for x in rows) + r.choice(["", ",", ",\n", "\n"]) + "}" + r.choice(["", "\n", "\n\n"]) + stray()
        ents.append((lab, typ, fields))
    return text, ents


def load(text):
    with tempfile.NamedTemporaryFile("w", suffix=".bib", delete=False) as f:
        f.write(text)
    try:
        m = R.Reference_Manager(f.name)
        m.load()
    finally:
        os.unlink(f.name)
    return m


def same_value(a, b):
    return squash(strip_braces(str(a))) == squash(strip_braces(str(b)))


def judge_manager(m, M, ents, D):
    m.eq("labels", set(M.refs), {e[0] for e in ents}, D)
    for lab, typ, fields in ents:
        ref = M.get(lab)
        m.ok("entry", ref.label == lab and ref.reftype == typ, lambda: f"{ref.label} {ref.reftype}; want {lab} {typ}; {D()}")
        m.ok("fields", set(ref.entries) >= set(fields) and all(not str(v).strip() for k, v in ref.entries.items() if k not in fields),
             lambda: f"{lab}: fields {sorted(ref.entries)}, want {sorted(fields)}; {D()}")
        for k, v in fields.items():
            g = ref.entries[k]
            if k == "year":
                m.ok("year", type(g) is int and g == v and ref.year() == v, lambda: f"{lab}: year {g!r}, want {v}; {D()}")
            elif k == "author":
                m.ok("author", squash(g) == squash(v) and ref.author() == g, lambda: f"{lab}: author {g!r}, want {v!r}; {D()}")
            else:
                m.ok("value", same_value(g, v), lambda: f"{lab}: {k} = {g!r}, want {v!r}; {D()}")
        if "year" not in fields:
            m.ok("missing", ref.year() == "Unknown date", D)
        if "author" not in fields:
            m.ok("missing", ref.author() == "Unknown author", D)
        m.ok("repr", isinstance(repr(ref), str) and str(ref.year()) in repr(ref) and ref.author() in repr(ref), D)


def bib(r, m):
    text, ents = rand_bib(r)
    D = lambda: f"bibliography:\n{text}"
    M = load(text)
    judge_manager(m, M, ents, D)
    m.raises("get_missing", (ValueError,), lambda: M.get("no such label"), D)
    for lab, _, _ in ents:
        if lab.swapcase() not in {e[0] for e in ents} and lab.swapcase() != lab:
            m.raises("get_missing", (ValueError,), lambda: M.get(lab.swapcase()), D)
    for _ in range(4):
        kw = {}
        if r.random() < .7:
            kw["author"] = r.choice(SUR + PARTS + ["Nobody", "Heath", "ath-Br"])
        if r.random() < .7:
            kw["year"] = r.choice([e[2]["year"] for e in ents if "year" in e[2]] + [1900]) if ents else 1900
        got = M.find_all(**kw)
        want = {lab for lab, _, f in ents if ("author" not in kw or kw["author"] in f.get("author", ""))
                and ("year" not in kw or f.get("year") == kw["year"])}
        m.ok("find_all", len(got) == len({x.label for x in got}) and {x.label for x in got} == want,
             lambda: f"find_all({kw}) -> {[x.label for x in got]}, want {want}; {D()}")
        m.ok("find_all", all(x is M.get(x.label) for x in got), D)
    # a second manager starts empty and sees only its own file
    if r.random() < .3:
        t2, e2 = rand_bib(r)
        M2 = load(t2)
        m.eq("independent", set(M2.refs), {e[0] for e in e2}, lambda: f"{D()}\nsecond file:\n{t2}")
        m.eq("independent", set(M.refs), {e[0] for e in ents}, D)
    if len(ents) >= 2:
        m.nontrivial(text)
        m.sample(text)


def own_reader(s):
    """an independent reader of the shipped bibliography"""
    out, i = [], 0
    while True:
        i = s.find("@", i)
        if i < 0:
            return out
        j = s.index("{", i)
        typ, d, k = s[i + 1:j].strip().lower(), 1, j + 1
        parts, cur, q = [], "", False
        while d:
            c = s[k]
            if c == '"' and d == 1:
                q = not q
            if c == "{":
                d += 1
            elif c == "}":
                d -= 1
            if d == 0 or (c == "," and d == 1 and not q):
                parts.append(cur)
                cur = ""
            else:
                cur += c
            k += 1
        fields = {}
        for p in parts[1:]:
            if "=" in p:
                a, b = p.split("=", 1)
                fields[a.strip().lower()] = squash(b)
        out.append((parts[0].strip(), typ, fields))
        i = k


def shipped(r, m):
    path = os.path.join(REPO, "blueprint", "src", "references.bib")
    ents = own_reader(open(path, encoding="utf-8").read())
    M = R.Reference_Manager(path)
    M.load()
    D = lambda: path
    unq = lambda v: v[1:-1] if len(v) > 1 and v[0] == '"' == v[-1] else v
    m.eq("shipped_labels", set(M.refs), {e[0] for e in ents}, D)
    last = {e[0]: e for e in ents}
    for lab, typ, fields in last.values():
        for ref in (M.get(lab), L.rm.get(lab)):
            m.eq("shipped", ref.reftype, typ, lab)
            for k, v in fields.items():
                v = strip_braces(unq(v))
                if not v:
                    continue
                g = ref.entries.get(k)
                if k == "year":
                    m.ok("shipped_year", type(g) is int and str(g) == v[:4], lambda: f"{lab}: {g!r} / {v!r}")
                elif k == "author":
                    sur = [p.strip() for p in v.split(" and ")]
                    sur = [p.split(",")[0] if "," in p else p for p in sur]
                    gs = g.split("--")
                    m.ok("shipped_author", len(gs) == len(sur) and all(a.strip() and b.strip().endswith(a.strip()) for a, b in zip(gs, sur)), lambda: f"{lab}: {g!r} / {v!r}")
                else:
                    m.ok("shipped_value", g is not None and same_value(g, v), lambda: f"{lab}: {k}: {g!r} / {v!r}")
    by = {}
    for lab, typ, fields in last.values():
        by.setdefault(M.get(lab).year(), set()).add(lab)
    for y, want in by.items():
        if isinstance(y, int):
            m.eq("shipped_find", {x.label for x in M.find_all(year=y)}, want, f"find_all(year={y})")
    m.eq("shipped_find", {x.label for x in M.find_all()}, set(last), "find_all()")
    m.nontrivial(("shipped", r.random()))


# ---------------------------------------------------------------------------------------------------------- records
T = Constants.EXP_PAIR_TRUNCATION
B = Constants.BETA_TRUNCATION


def who(ref):
    return ref.label


# pairs: (label, k, l)
PAIRS = [("huxley_exponential_1988", F(9, 56), F(37, 56)), ("watt_exponential_1989", F(89, 560), F(369, 560)),
    ("huxley_exponential_1991", F(17, 108), F(71, 108)), ("huxley_exponential_1993", F(89, 570), F(374, 570)),
    ("huxley_exponential_2005", F(32, 205), H + F(32, 205)), ("bourgain_decoupling_2017", F(13, 84), F(55, 84)),
    ("huxley_watt_exponential_1990", F(2, 13), F(35, 52)), ("huxley_area_1996", F(6299, 43860), F(29507, 43860)),
    ("sargos_points_1995", F(771, 8116), F(1499, 2029)), ("sargos_points_1995", F(21, 232), F(173, 232)),
    ("sargos_points_1995", F(1959, 21656), F(16135, 21656)), ("huxley_exponential_2001", F(516247, 6629696), F(5080955, 6629696)),
    ("robert_fourth_2002", F(1, 13), 1 - F(3, 13)), ("sargos_analog_2003", F(1, 204), 1 - F(7, 204)), ("robert_2002", F(1, 360), 1 - F(8, 360)),
    ("sargos_analog_2003", F(7, 2640), 1 - 8 * F(7, 2640)), ("sargos_analog_2003", F(1, 716), 1 - F(9, 716)), ("Robert_Sargos_2001", F(1, 649), 1 - F(9, 649)),
    ("robert_2002", F(7, 4540), 1 - 9 * F(7, 4540)), ("robert_2002b", F(1, 615), 1 - F(9, 615)), ("robert_2002b", F(1, 915), 1 - F(10, 915)),
    ("trudgian-yang", F(4742, 38463), F(35731, 51284)), ("trudgian-yang", F(18, 199), F(593, 796)), ("trudgian-yang", F(2779, 38033), F(58699, 76066)),
    ("trudgian-yang", F(715, 10238), F(7955, 10238))]
for n in range(1, T):
    a = F(169, 1424 * 2 ** n - 338)
    PAIRS.append(("huxley_area_1996", a, 1 - a * F(712 * n + 1577, 712)))
for n in range(3, T):
    PAIRS.append(("heathbrown_new_2017", F(2, (n - 1) ** 2 * (n + 2)), 1 - F(3 * n - 2, n * (n - 1) * (n + 2))))

MUS = [("hardy_littlewood_1923", H, F(1, 6)), ("walfisz_1924", H, F(193, 988)), ("titchmarsh_van_1931", H, F(27, 164)), ("phillips_zeta_1933", H, F(229, 1392)),
    ("titchmarsh_order_1942", H, F(19, 116)), ("min_on_1949", H, F(15, 92)), ("haneke_verscharfung_1963", H, F(6, 37)), ("temp_Kolesnik_1973", H, F(173, 1067)),
    ("kolesnik_order_1982", H, F(35, 216)), ("temp_Kolesnik_1985", H, F(139, 858)), ("bombieri_order_1986", H, F(9, 56)), ("watt_exponential_1989", H, F(89, 560)),
    ("huxley_exponential_1991", H, F(17, 108)), ("huxley_exponential_1993", H, F(89, 570)), ("huxley_area_1996", F(1934, 3655), F(6299, 43860)),
    ("sargos_analog_2003", F(49, 51), F(1, 204)), ("sargos_analog_2003", F(361, 370), F(1, 370)), ("huxley_exponential_2005", H, F(32, 205)),
    ("Lelechenko_linear_2014", F(3, 5), F(1409, 12170)), ("Lelechenko_linear_2014", F(4, 5), F(3, 71)), ("bourgain_decoupling_2017", H, F(13, 84)),
    ("demeter_small_2020", F(11, 15), F(1, 15))]
for n in range(4, T):
    MUS.append(("temp_van der Corput_1920", 1 - F(n, 2 ** n - 2), F(1, 2 ** n - 2)))
    MUS.append(("temp_Hardy--Littlewood_Unknown date", 1 - F(1, 2 ** (n - 1)), F(1, (n + 1) * 2 ** (n - 1))))


def mx(*ls):
    f = lambda a: max(F(u) + F(v) * a for u, v in ls)
    f.ends = [F(b[0] - a[0]) / F(a[1] - b[1]) for a in ls for b in ls if F(a[1]) != F(b[1])]
    return f


def tab(rows):
    """rows (const numerator, slope numerator, denominator, from, to)"""
    def f(a):
        vs = [(F(u) + F(v) * a) / w for u, v, w, x, y in rows if F(x) <= a <= F(y)]
        return min(vs)
    f.ends = [F(x) for g in rows for x in g[3:5]]
    return f


T171 = [(4, 39, 60, "7/12", "517/873"), (29, 42, 120, "65/114", "7/12"), (89, 285, 570, "49/114", "65/114"), (11, 78, 120, "5/12", "49/114"),
    (13, 21, 60, "356/873", "5/12"), (4, 103, 128, "12/31", "356/873"), (29, 173, 280, "227/601", "12/31"), (89, 908, 1282, "423/1295", "227/601"),
    (11, 191, 244, "87/275", "423/1295"), (13, 94, 146, "1424/4747", "87/275"), (4, 235, 264, "120/419", "1424/4747"), (49, 1351, 1614, "967/3428", "120/419"),
    (29, 464, 600, "199/716", "967/3428"), (89, 2243, 2706, "19/74", "199/716"), (11, 428, 492, "161/646", "19/74"), (13, 253, 318, "2848/12173", "161/646")]
T192 = [(89, 285, 570, "106822/246639", "139817/246639"), (2387, 17972, 27290, "675/1574", "106822/246639"), (2819, 19177, 29855, "699371/1647930", "675/1574"),
    (11897, 88442, 134680, "156527/370694", "699371/1647930"), (113, 897, 1345, "263/638", "156527/370694"), (491, 3624, 5530, "143/349", "263/638"),
    (569, 1053, 2800, "307/761", "143/349"), (1273, 2484, 6410, "68682/171139", "307/761"), (4, 103, 128, "12/31", "68682/171139")]
# beta theorems: (label, bound, from, to); a label's records together give the minimum of its theorems, each piece one of them
BETAS = [("watt_exponential_1989", mx((F(89, 560), H)), F(3, 7), H),
    ("huxley_exponential_1991", mx((F(1, 22), F(8, 22)), (F(11, 158), F(112, 158)), (F(1, 22), F(17, 22))), F(2, 5), H),
    ("huxley_exponential_1993", mx((F(13, 60), F(7, 20)), (F(11, 120), F(13, 20))), F(0), F(49, 114)), ("huxley_exponential_1993", mx((F(89, 570), H)), F(49, 114), H),
    ("huxley_exponential_1993", tab([(13, 94, 146, 0, "87/275"), (11, 191, 244, "87/275", "423/1295"), (89, 908, 1282, "423/1295", "227/601"),
        (29, 173, 280, "227/601", "12/31"), (4, 103, 128, "12/31", 1)]), F(0), F(1)),
    ("sargos_points_1995", mx((F(3, 40), 1 - F(12, 40)), (0, F(7, 8)), (-F(1, 6), F(1, 3) + F(4, 6)), (0, 0)), F(0), F(1)),
    ("sargos_points_1995", mx((F(1, 14), 1 - F(4, 14)), (0, F(5, 6)), (-F(1, 6), F(1, 3) + F(4, 6)), (0, 0)), F(0), F(1)),
    ("huxley_area_1996", tab(T171), F(2848, 12173), F(517, 873)), ("huxley_area_1996", tab(T192), F(12, 31), F(139817, 246639)),
    ("huxley_exponential_2001", mx((F(7, 80), F(79, 120)), (F(3, 32), F(103, 160)), (F(9, 40), F(13, 40))), F(2, 5), H),
    ("robert_fourth_2002", mx((F(1, 13), 1 - F(4, 13)), (-F(7, 13), F(28, 13))), F(0), F(1)),
    ("sargos_analog_2003", mx((F(1, 204), 1 - F(8, 204)), (-F(95, 204), F(760, 204))), F(0), F(1)),
    ("sargos_analog_2003", mx((F(7, 2640), 1 - F(63, 2640)), (-F(1001, 2640), F(9009, 2640))), F(0), F(1)),
    ("huxley_exponential_2005", mx((F(37, 170), F(59, 170)), (F(63, 690), F(449, 690))), F(1, 3), H),
    ("robert_fourth_2016", mx((F(1, 12), 1 - F(4, 12)), (0, F(11, 12))), F(0), F(3, 7)),
    ("bourgain_decoupling_2017", mx((F(2, 9), F(1, 3))), F(1, 3), F(5, 12)), ("bourgain_decoupling_2017", mx((F(1, 12), F(2, 3))), F(5, 12), F(3, 7)),
    ("bourgain_decoupling_2017", mx((F(13, 84), H)), F(3, 7), H),
    ("trudgian-yang", mx((F(13, 414), F(359, 414))), F(0), F(2848, 12173)), ("trudgian-yang", mx((F(13, 194), F(139, 194))), F(1328, 4447), F(104, 343)),
    ("trudgian-yang", mx((F(18, 199), F(521, 796))), F(1508, 3825), F(62831, 155153))]
for n in range(4, B):
    w = F(1, 2 * (n - 1) * (n - 2))
    BETAS.append(("robert_2016", mx((w, 1 - n * w), (0, 1 - w)), F(0), F(n - 1, n * (n - 1) - (2 * n - 3))))
for n in range(3, B):
    w = F(1, n * (n - 1))
    BETAS.append(("heathbrown_new_2017", mx((w, 1 - n * w), (0, 1 - w), (-2 * w / n, 1)), F(0), F(1)))

one = F(1)
S = lambda c: (lambda x: c * math.sqrt(1 - x))
ZD = [("carlson_uber_1921", lambda x: 4 * x, H, one), ("ingham_estimation_1940", lambda x: 3 / (2 - x), H, one), ("temp_Montgomery_1971", S(1600), H, one),
    ("Huxley", lambda x: 3 / (3 * x - 1), H, one), ("huxley_large_1973", lambda x: 39 / (115 * x - 75), F(55, 67), F(189, 230)),
    ("huxley_large_1973", lambda x: F(2), F(189, 230), F(75, 89)), ("huxley_large_1973", lambda x: 48 / (37 * (2 * x - 1)), F(61, 74), F(75, 89)),
    ("huxley_large_1975a", lambda x: 3 / (2 * x), F(37, 42), one), ("huxley_large_1975a", lambda x: 48 / (37 * (2 * x - 1)), F(61, 74), F(37, 42)),
    ("huxley_large_1975a", lambda x: F(2), F("0.80119"), one), ("huxley_large_1975b", lambda x: F(2), F(4, 5), one),
    ("heathbrown_zero_1979", lambda x: 4 / (4 * x - 1), F(25, 28), one), ("heathbrown_zero_1979", lambda x: 3 / (10 * x - 7), F(3, 4), F(25, 28)),
    ("heathbrown_zero_1979", lambda x: 9 / (7 * x - 1), F(11, 14), one), ("ivic_note_1979", lambda x: 6 / (5 * x - 1), F(67, 87), one),
    ("ivic_note_1979", lambda x: 3 / (34 * x - 25), F(28, 37), F(74, 95)), ("ivic_note_1979", lambda x: 9 / (7 * x - 1), F(74, 95), one),
    ("ivic_note_1979", lambda x: 3 / (2 * x), F(4, 5), one), ("ivic_note_1979", lambda x: 68 / (98 * x - 47), F(115, 166), one),
    ("temp_Ivic_1980", lambda x: 3 / (2 * x), F(3831, 4791), one), ("temp_Ivic_1980", lambda x: F(2), F(11, 14), one), ("temp_Ivic_1980", lambda x: 9 / (7 * x - 1), F(41, 53), one),
    ("temp_Ivic_1980", lambda x: 6 / (5 * x - 1), F(13, 17), one), ("temp_Ivic_1980", lambda x: 4 / (2 * x + 1), F(17, 18), one),
    ("temp_Ivic_1980", lambda x: 24 / (30 * x - 11), F(155, 174), F(17, 18)), ("jutila_zeroes_1983", lambda x: (F(3, 2) - x) / (1 - x), F(155, 174), one),
    ("ivic_zero_1984", lambda x: 3 / (7 * x - 4), F(3, 4), F(10, 13)), ("ivic_zero_1984", lambda x: 9 / (8 * x - 2), F(10, 13), one),
    ("temp_Ivic_1984", lambda x: 15 / (22 * x - 10), F(10, 13), F(5, 6)), ("conrey_at_1989", lambda x: (1 + (1 - 2 * x) * F(4, 7)) / (1 - x), H, one),
    ("bourgain_remarks_1995", lambda x: 4 / (30 * x - 25), F(15, 16), one), ("bourgain_remarks_1995", lambda x: 2 / (7 * x - 5), F(17, 19), one),
    ("bourgain_large_2000", lambda x: F(2), F(25, 32), one), ("FordZeta", S(58.05), H, one), ("temp_Bourgain_2002", lambda x: 3 / (2 * x), F(3734, 4694), one),
    ("heathbrown_new_2017", S(6.42), F(9, 10), one), ("pintz_density_2023", lambda x: 3 / (24 * x - 20), F(23, 24), F(39, 40)),
    ("pintz_density_2023", lambda x: 2 / (15 * x - 12), F(39, 40), F(41, 42)), ("pintz_density_2023", lambda x: 3 / (40 * x - 35), F(41, 42), F(59, 60)),
    ("chen_debruyne_vindas_density_2024", lambda x: 24 / (30 * x - 11), F(279, 314), F(17, 18)), ("guth-maynard", lambda x: 15 / (3 + 5 * x), H, one)]
for n in range(3, 100):
    lo = F(41, 53) if n == 3 else F(6 * n * n - 5 * n + 2, 8 * n * n - 7 * n + 2)
    ZD.append(("ivic", (lambda n: lambda x: 3 * n / ((3 * n - 2) * x + 2 - n))(n), lo, one))
for n in range(6, 100):
    lo = 1 - F(1, 2 * n * (n - 1))
    if lo > Constants.ZERO_DENSITY_SIGMA_LIMIT:
        break
    ZD.append(("pintz_density_2023", (lambda n: lambda x: 3 / (n * (1 - 2 * (n - 1) * (1 - x))))(n), lo, 1 - F(1, 2 * n * (n + 1))))
ZE = [("heath_brown_consecutive_II", lambda x: (10 - 11 * x) / ((2 - x) * (1 - x)), H, F(2, 3)),
    ("heath_brown_consecutive_II", lambda x: (18 - 19 * x) / ((4 - 2 * x) * (1 - x)), F(2, 3), F(3, 4)),
    ("heath_brown_consecutive_II", lambda x: 12 / (4 * x - 1), F(3, 4), one)]

# the best bounds the blueprint records as known (2024)
BEST_ZD = [(lambda x: 3 / (2 - x), H, F(7, 10)), (lambda x: 15 / (3 + 5 * x), F(7, 10), F(19, 25)), (lambda x: 9 / (8 * x - 2), F(19, 25), F(127, 167)),
    (lambda x: 15 / (13 * x - 3), F(127, 167), F(13, 17)), (lambda x: 6 / (5 * x - 1), F(13, 17), F(17, 22)), (lambda x: 2 / (9 * x - 6), F(17, 22), F(41, 53)),
    (lambda x: 9 / (7 * x - 1), F(41, 53), F(7, 9)), (lambda x: 9 / (8 * (2 * x - 1)), F(7, 9), F(1867, 2347)), (lambda x: 3 / (2 * x), F(1867, 2347), F(7, 8)),
    (lambda x: 3 / (10 * x - 7), F(7, 8), F(279, 314)), (lambda x: 24 / (30 * x - 11), F(279, 314), F(9, 10)), (lambda x: 3 / (10 * x - 7), F(9, 10), F(31, 34)),
    (lambda x: 11 / (48 * x - 36), F(31, 34), F(14, 15)), (lambda x: 391 / (2493 * x - 2014), F(14, 15), F(2841, 3016)),
    (lambda x: 22232 / (163248 * x - 134765), F(2841, 3016), F(859, 908)), (lambda x: 4406612 / (33911310 * x - 28181831), F(859, 908), F(23, 24)),
    (lambda x: 3 / (24 * x - 20), F(23, 24), F(60725033, 62460603)), (lambda x: 2351558 / (39632665 * x - 35918731), F(60725033, 62460603), F(39, 40)),
    (lambda x: 2 / (15 * x - 12), F(39, 40), F(41, 42)), (lambda x: 3 / (40 * x - 35), F(41, 42), F(59, 60))]
HULL = [(F(0), one), (F(13, 84), F(55, 84)), (F(4742, 38463), F(35731, 51284)), (F(18, 199), F(593, 796)), (F(2779, 38033), F(58699, 76066)), (F(89, 1282), F(997, 1282)),
    (F(652397, 9713986), F(7599781, 9713986)), (F(2371, 43205), F(280013, 345640)), (F(9, 217), F(1461, 1736)), (F(10769, 351096), F(609317, 702192)),
    (F(89, 3478), F(15327, 17390))] + [(F(2, (n - 1) ** 2 * (n + 2)), 1 - F(3 * n - 2, n * (n - 1) * (n + 2))) for n in range(14, 400)]


def best_zd(x):
    return min(f(x) for f, a, b in BEST_ZD if a <= x <= b)


def best_pair_value(a):
    """min of k + (l - k) a over the known exponent pairs, 0 <= a <= 1/2"""
    return min(k + (l - k) * a for k, l in HULL)


def best_beta(a):
    if a > H:
        return best_beta(1 - a) - H + a
    vs = [best_pair_value(a)] + [f(a) for lab, f, lo, hi in BETAS if lo <= a <= hi and a <= H]
    return min(vs)


def domain_ends(I):
    return F(str(I.x0)), F(str(I.x1))


def grid(r, a, b, n):
    return [a + (b - a) * F(r.randint(1, 9972), 9973) for _ in range(n)] + [a + (b - a) / 10**6, b - (b - a) / 10**6]


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b)))


def recs(kind):
    return [h for h in L.literature if h.hypothesis_type == kind]


def match_functions(r, m, kind, golden, recs_, best):
    """every theorem has its record (same source, same range, same values); every other record claims no more than is known"""
    used = set()
    for lab, f, lo, hi in golden:
        pts = grid(r, lo, hi, 3)
        hit = None
        for i, h in enumerate(recs_):
            if h.reference.label == lab and domain_ends(h.data.interval) == (lo, hi) and all(close(h.data.at(x), f(x)) for x in pts):
                hit = i
                used.add(i)
        m.ok("theorem", hit is not None, lambda: f"{kind}: no record of {lab} on [{lo}, {hi}] with the values of the theorem "
             f"({[(str(x), float(f(x))) for x in pts[:2]]}); its records: {[str(h.data) for h in recs_ if h.reference.label == lab][:8]}")
        m.nontrivial((kind, lab, str(lo), str(hi), str(pts[0])))
    for i, h in enumerate(recs_):
        if i not in used and isinstance(h.reference.year(), int) and h.reference.year() <= 2024:
            a, b = domain_ends(h.data.interval)
            for x in grid(r, a, min(b, F(59, 60)), 6) if a < F(59, 60) else []:
                m.ok("not_beyond", float(h.data.at(x)) >= float(best(x)) - 1e-9, lambda: f"{h} beats every known bound at {x}")
                m.count("records outside the transcription")


def zd_records(r, m):
    match_functions(r, m, "A", ZD, recs("Zero density estimate"), best_zd)
    match_functions(r, m, "A*", ZE, recs("Zero density energy estimate"), lambda x: best_zd(x))
    for h in recs("Zero density estimate"):
        a, b = domain_ends(h.data.interval)
        m.ok("range", H <= a < b <= 1, lambda: f"{h}: range")
    for h in recs("Zero density energy estimate"):
        a, b = domain_ends(h.data.interval)
        m.ok("range", H <= a < b <= 1, lambda: f"{h}: range")


def pair_records(r, m):
    for kind, golden, val in (("Exponent pair", PAIRS, lambda d: (d.k, d.l)), ("Upper bound on mu", MUS, lambda d: (d.sigma, d.mu))):
        have = {}
        for h in recs(kind):
            have.setdefault((h.reference.label, F(val(h.data)[0]), F(val(h.data)[1])), []).append(h)
        for g in golden:
            m.ok("theorem", g in have, lambda: f"{kind}: no record {g}; records of {g[0]}: {[k[1:] for k in have if k[0] == g[0]]}")
            m.nontrivial((kind, g))
        for g, hs in have.items():
            y = hs[0].reference.year()
            if g in golden or not isinstance(y, int) or y > 2024:
                continue
            if kind == "Exponent pair":
                m.ok("not_beyond", all(g[1] + (g[2] - g[1]) * x >= best_pair_value(x) for x in [F(i, 40) for i in range(21)]), lambda: f"{hs[0]} lies beyond the known pairs")
            else:
                m.ok("not_beyond", all(g[2] >= 0 for _ in "a"), lambda: f"{hs[0]}")
    for h in recs("Exponent pair"):
        k, l = F(h.data.k), F(h.data.l)
        m.ok("range", 0 <= k <= H <= l <= 1 and k + l <= 1 and l >= k + H, lambda: f"{h}: not a normalised exponent pair")
    for h in recs("Upper bound on mu"):
        s, v = F(h.data.sigma), F(h.data.mu)
        m.ok("range", H <= s < 1 and max(0, H - s) <= v <= (1 - s) / 2, lambda: f"{h}: outside the trivial bounds")


def beta_records(r, m):
    R_ = recs("Upper bound on beta")
    for h in R_:
        p = h.data.bound
        a, b = domain_ends(p.domain)
        m.ok("range", 0 <= a <= b <= 1, lambda: f"{h}: range")
        lab = h.reference.label
        th = [(f, lo, hi) for l2, f, lo, hi in BETAS if l2 == lab]
        if th:
            # the piece is (part of) one of the theorems of its source
            ok = False
            for f, lo, hi in th:
                if lo <= a and b <= hi and all(F(p.m) * x + F(p.c) == f(x) for x in grid(r, a, b, 4)):
                    ok = True
            m.ok("theorem", ok or min(F(p.m) * x + F(p.c) - best_beta(x) for x in grid(r, a, b, 4)) > 0, lambda: f"{h} is not a part of the theorem it cites and claims as much as is known")
            m.count("beta pieces that are part of their theorem", int(ok))
        elif isinstance(h.reference.year(), int) and h.reference.year() <= 2024:
            m.ok("not_beyond", all(F(p.m) * x + F(p.c) >= best_beta(x) for x in grid(r, a, b, 4)), lambda: f"{h} beats every known bound")
    # and every theorem is recorded over its whole range
    for lab, f, lo, hi in BETAS:
        es = sorted({lo, hi} | {x for x in f.ends if lo < x < hi})
        for x in grid(r, lo, hi, 4) + [x for a, b in zip(es, es[1:]) for x in grid(r, a, b, 1)]:
            vs = [F(h.data.bound.m) * x + F(h.data.bound.c) for h in R_ if h.reference.label == lab and h.data.bound.domain.contains(x)]
            m.ok("theorem", f(x) in vs, lambda: f"beta({x}) <= {f(x)} of {lab} is not recorded: {vs}")
            m.nontrivial((lab, str(lo), str(x)))
    # a piece outside its theorem's range would claim more than the theorem gives
    for h in R_:
        p = h.data.bound
        a, b = domain_ends(p.domain)
        for x in grid(r, a, b, 3):
            th = [f(x) for l2, f, lo, hi in BETAS if l2 == h.reference.label and lo <= x <= hi]
            if th:
                m.ok("no_more", F(p.m) * x + F(p.c) >= min(th), lambda: f"{h} claims more at {x} than its source: {th}")


# large values: unions of half planes rho <= ..., as rows in (1, sigma, tau, rho[, rho*, s])
LV = [("Huxley", [[2, -2, 0], [4, -6, 1]]), ("heathbrown_zero_1979", [[2, -2, 0], [10, -13, 1]]), ("guth-maynard", [[2, -2, 0], [F(18, 5), -4, 0], [F(12, 5), -4, 1]])]
for n in range(1, Constants.LARGE_VALUES_TRUNCATION):
    LV.append(("jutila_zero_density_1977", [[2, -2, 0], [4 - F(2, n), -6 + F(2, n), 1], [6 * n, -8 * n, 1]]))


def ev(row, p):
    return F(row[0]) + sum(F(a) * b for a, b in zip(row[1:], p))


def bourgain(s, t):
    """min over a1, a2 >= 0 of the maximum of the five bounds (tau >= 1)"""
    from vh import exact as E
    rows = [[2 - 2 * s, 0, 1], [2 - 2 * s, 1, H], [2 * t + 4 - 8 * s, 0, -1], [t + 12 - 16 * s, -2, 0], [2 + max(F(1), 2 * t - 2) - 4 * s, 4, 0]]
    iq = [[-g[0], -F(g[1]), -F(g[2]), F(1)] for g in rows] + [[F(0), F(1), F(0), F(0)], [F(0), F(0), F(1), F(0)]]
    return -E.lp_max([F(0), F(0), F(-1)], iq)[1]


def corners(r, region, n=10):
    """(sigma, tau) near the corners and edges of the cells of a recorded region, and far away"""
    from checks.geo import hrep
    from vh import exact as E
    cs = [hrep(c.child) for c in region.child]
    out = []
    for _ in range(n):
        V = [(F(v[0]), F(v[1])) for v in E.vertices(r.choice(cs), 3)]
        a, b = r.choice(V), r.choice(V)
        w = F(r.choice([0, 0, 1]) * r.randint(0, 97), 97)
        d = F(1, r.choice([50, 300, 3000]))
        out.append((a[0] + w * (b[0] - a[0]) + d * F(r.randint(-99, 99), 101), a[1] + w * (b[1] - a[1]) + d * F(r.randint(-99, 99), 101)))
    out.append((H + H * F(r.randint(0, 50), 50), F(10) ** r.randint(0, 5) + F(r.randint(1, 99), 101)))
    return [(s, t) for s, t in out if H <= s <= 1 and 0 < t < Constants.TAU_UPPER_LIMIT]


def lv_records(r, m):
    R_ = recs("Large value estimate")
    pts = [(H + H * F(r.randint(1, 996), 997), F(r.randint(1, 4000), 997)) for _ in range(6)]
    eps = F(1, 10**7)

    def is_bound(h, f):
        for s, t in pts:
            v = f(s, t)
            if v > eps and not h.data.region.contains([s, t, v - eps]):
                return False
            if v > -eps and h.data.region.contains([s, t, max(v, F(0)) + eps]):
                return False
            if v < 0 and h.data.region.contains([s, t, eps]):
                return False
        return True
    for lab, rows in LV:
        f = lambda s, t: max(ev(g, (s, t)) for g in rows)
        m.ok("theorem", any(h.reference.label == lab and is_bound(h, f) for h in R_), lambda: f"no large value estimate of {lab} with the bound max of {rows}; at {pts}")
        m.nontrivial((lab, str(rows), str(pts[0])))
    hb = recs("Zeta large value estimate")
    m.ok("theorem", any(h.reference.label == "heathbrown_twelfth_1978" and is_bound(h, lambda s, t: 6 - 12 * s + 2 * t) for h in hb), lambda: f"Heath-Brown's twelfth moment estimate at {pts}")
    m.ok("theorem", sum(h.reference.label == "bourgain_large_2000" for h in R_) == 1, "Bourgain's large value estimate is recorded once")
    for h in R_:
        if h.reference.label == "bourgain_large_2000":
            for s, t in pts + corners(r, h.data.region):
                if t <= 1:
                    m.ok("theorem", h.data.region.contains([s, t, F(r.randint(1, 10**6), 7)]), lambda: f"Bourgain's estimate says nothing about tau = {t} <= 1")
                    continue
                v = bourgain(s, t)
                if v > eps:
                    m.ok("theorem", h.data.region.contains([s, t, v - eps]), lambda: f"Bourgain's estimate at ({s}, {t}) is more than the theorem's rho <= {v}")
                m.ok("theorem", not h.data.region.contains([s, t, max(v, F(0)) + eps]), lambda: f"Bourgain's estimate at ({s}, {t}) is less than the theorem's rho <= {v}")


def hbt(p):
    s, t, a, e, z = p
    return e <= 1 - 2 * s + max(a + 1, 2 * a, F(5, 4) * a + t / 2) / 2 + max(e + 1, 4 * a, F(3, 4) * e + a + t / 2) / 2


def gm1(n):
    def f(p):
        s, t, a, e, z = p
        s2 = max(2 + 2 * a, t + 1 + (2 - F(1, n)) * a, 2 + 2 * a + (t / 2 - F(3, 4) * a) / n)
        s3 = min(2 * t + a / 2 + e / 2, max(2 * t + F(3, 2) * a, t + 1 + a / 2 + e / 2))
        return a <= max(2 - 2 * s, 1 - 2 * s + max(F(-10), s2, s3) / 3)
    return f


def hb3(n):
    return lambda p: p[2] <= max(2 - 2 * p[0], p[3] / 4 + max(p[1] / 4 + n * (3 - 4 * p[0]) / 4, n * p[1] / 4 + n * (1 - 2 * p[0]) / 2))


LVER = [("heathbrown_large_1979", lambda p: p[4] <= max(p[2] + 1, 2 * p[2], F(5, 4) * p[2] + p[1] / 2) + 1),
    ("ivic", lambda p: p[1] >= 1 or p[4] <= max(p[2] + 1, 2 * p[2]) + 1), ("heathbrown_zero_1979", hbt),
    ("heathbrown_zero_1979", lambda p: p[1] >= F(3, 2) or p[3] <= max(3 * p[2] + 1 - 2 * p[0], p[2] + 4 - 4 * p[0], F(5, 2) * p[2] + (3 - 4 * p[0]) / 2)),
    ("guth-maynard", lambda p: p[1] >= F(3, 2) or p[3] <= max(3 * p[2] + 1 - 2 * p[0], 2 * p[2] + 2 - 2 * p[0])),
    ("guth-maynard", lambda p: not 1 <= p[1] <= F(4, 3) or p[3] <= max(p[2] + 4 - 4 * p[0], F(21, 8) * p[2] + p[1] / 4 + 1 - 2 * p[0], 3 * p[2] + 1 - 2 * p[0]))]
LVER += [("heathbrown_zero_1979", hb3(n)) for n in range(1, 5)] + [("guth-maynard", gm1(n)) for n in range(1, 4)]


def lver_points(r, f):
    """pairs of points on both sides of the boundary of f, and random points"""
    g = lambda a, b: F(a) + F(b - a) * F(r.randint(1, 996), 997)
    out = []
    for _ in range(14):
        p = [g(H, 1) if r.random() < .7 else g(F(7, 10), F(17, 20)), g(0, 3) if r.random() < .5 else g(1, F(3, 2)) if r.random() < .6 else g(3, 30), g(0, 3), g(0, 5), g(0, 6)]
        if r.random() < .5:      # where the other theorems of the same source say something else
            o = r.choice([h for l2, h in LVER if h is not f])
            for _ in range(60):
                q_ = [g(H, 1), g(0, 3) if r.random() < .6 else g(3, 12), g(0, 2), g(0, 5), g(0, 6)]
                if o(q_) != f(q_):
                    p = q_
                    break
        out.append(p)
        i = r.choice([2, 3, 4])
        q_ = list(p)
        q_[i] = g(0, 40)
        if f(p) != f(q_):                    # walk to the boundary
            for _ in range(40):
                c = [(x + y) / 2 for x, y in zip(p, q_)]
                p, q_ = (c, q_) if f(c) == f(p) else (p, c)
            out += [p, q_]
    return out


def lver_records(r, m):
    R_ = recs("Large value energy region")
    lab, f = r.choice(LVER)
    pts = lver_points(r, f)
    mine = [h for h in R_ if h.reference.label == lab]
    # a point on the shared boundary of the range of tau is decided either way
    best = None
    for h in mine:
        bad = [p for p in pts if bool(h.data.region.contains(p)) != bool(f(p))]
        if not bad:
            best = []
            break
        best = bad if best is None or len(bad) < len(best) else best
    m.ok("theorem", best == [], lambda: f"no large value energy region of {lab} agrees with the theorem, e.g. at {best and [str(x) for x in best[0]]}: the theorem says {best and f(best[0])}")
    m.count("boundary points of energy regions", len(pts))
    m.nontrivial((lab, str(pts[0])))


def transforms(r, m):
    """the van der Corput and Sargos processes as recorded"""
    k = F(r.randint(0, 40), 100) * r.choice([1, F(1, 3), F(1, 10)])
    l = H + (H - max(k, F(0))) * F(r.randint(0, 20), 20)
    l = min(l, 1 - k)
    p = literature_exp_pair(k, l, Reference.make("Someone", 1999))
    fs = {"van der Corput A transform": lambda: [(k / (2 * k + 2), (k + l + 1) / (2 * k + 2))], "van der Corput B transform": lambda: [(l - H, k + H)],
          "Sargos C transform": lambda: [(k / (12 * (1 + 4 * k)), (11 * (1 + 4 * k) + l) / (12 * (1 + 4 * k)))]}
    for name, f in fs.items():
        hs = [h for h in recs("Exponent pair transform") if h.name == name]
        m.ok("transform", len(hs) >= 1, f"{name} is not recorded")
        out = hs[0].data.transform(p)
        m.ok("transform", [(F(out.data.k), F(out.data.l))] == f(), lambda: f"{name} of ({k}, {l}) gives {out}, want {f()}")
        m.ok("transform_deps", p in out.dependencies and hs[0] in out.dependencies, lambda: f"{name}: dependencies {out.dependencies}")
    hs = [h for h in recs("Exponent pair to beta bound transform")]
    m.ok("transform", len(hs) >= 1, "Sargos D is not recorded")
    out = hs[0].data.transform(p)
    w = 8 * (5 * k + 3 * l + 2)
    k1, l1 = (5 * k + l + 2) / w, (29 * k + 21 * l + 10) / w
    for x in grid(r, F(0), H, 4):
        vs = [F(h.data.bound.m) * x + F(h.data.bound.c) for h in out if h.data.bound.domain.contains(x)]
        m.ok("transform", len(vs) >= 1 and set(vs) == {max(k1 + (l1 - k1) * x, F(1, 12) + F(2, 3) * x)}, lambda: f"Sargos D of ({k}, {l}) at {x}: {vs}")
    m.ok("transform_deps", all(p in h.dependencies and hs[0] in h.dependencies for h in out), "Sargos D: dependencies")
    m.nontrivial(("transform", str(k), str(l)))


def generic(r, m):
    """printing, references, and adding records up to a year"""
    hs = list(L.literature)
    for h in r.sample(hs, 40):
        ref = h.reference
        m.ok("reference", isinstance(ref.label, str) and ref.label != "" and isinstance(ref.reftype, str), lambda: f"{h}: reference")
        y = ref.year()
        m.ok("reference", y == "Unknown date" or (isinstance(y, int) and 1850 <= y <= 2030), lambda: f"{h}: year {y}")
        m.ok("reference", isinstance(ref.author(), str) and ref.author() not in ("", "Unknown author"), lambda: f"{h}: author")
        m.ok("reference", ref.label.startswith("temp_") or L.rm.get(ref.label) is ref, lambda: f"{h}: its reference is not the entry of the bibliography")
        m.ok("text", isinstance(str(h), str) and h.name in str(h) and str(h.data) != "", lambda: f"{h.name}: text")
        m.ok("text", h.name and str(h.data) and isinstance(h.proof, str) and (h.hypothesis_type.endswith("transform") or (ref.author() in h.proof + h.name and str(y) in h.proof + h.name)),
             lambda: f"{h.name}: its proof {h.proof!r} does not cite {ref.author()}, {y}")
        m.ok("reference", not h.dependencies, lambda: f"{h}: a literature record depends on {h.dependencies}")
    y = r.choice([1900, 1920, 1923, 1950, 1979, 1989, 1993, 2000, 2005, 2017, 2024, 2030, r.randint(1915, 2026)])
    S1, S2, S3, S4 = (Hypothesis_Set() for _ in "abcd")
    L.add_exp_pairs_up_to(S1, y)
    L.add_bounds_mu_as_of(S2, y)
    L.add_exp_pairs_all(S3)
    L.add_bounds_mu_all(S4)
    dated = lambda k, y: {h for h in recs(k) if isinstance(h.reference.year(), int) and h.reference.year() <= y}
    und = lambda k: {h for h in recs(k) if not isinstance(h.reference.year(), int)}
    t = ep.trivial_exp_pair
    for S_, k, extra in ((S1, "Exponent pair", {t}), (S2, "Upper bound on mu", set())):
        got = set(S_)
        m.ok("as_of", got - und(k) == dated(k, y) | extra, lambda: f"records of {k} up to {y}: missing {dated(k, y) - got}, extra {got - dated(k, y) - extra}")
    m.eq("all", set(S3), set(recs("Exponent pair")) | {t}, "all pairs")
    m.eq("all", set(S4), set(recs("Upper bound on mu")), "all mu bounds")
    m.nontrivial(("generic", y, r.random()))


SUITES = [
    Suite("bib", bib, 6000, 150000, need=("labels", "entry", "fields", "year", "author", "value", "missing", "get_missing", "find_all", "independent")),
    Suite("shipped", shipped, 1, 1, need=("shipped", "shipped_year", "shipped_author", "shipped_value", "shipped_find")),
    Suite("zd", zd_records, 4, 30, need=("theorem", "range"), cpu=600),
    Suite("pairs", pair_records, 4, 4, need=("theorem", "range")),
    Suite("beta", beta_records, 10, 200, need=("theorem", "range", "no_more"), cpu=600),
    Suite("lv", lv_records, 40, 1000, need=("theorem",)),
    Suite("lver", lver_records, 300, 6000, need=("theorem",)),
    Suite("transforms", transforms, 400, 8000, need=("transform", "transform_deps")),
    Suite("generic", generic, 60, 1000, need=("reference", "text", "as_of", "all")),
]
