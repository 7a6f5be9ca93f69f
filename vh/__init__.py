"""Harness: drives workload cases against /repo's real code, in parallel, with monitors judging each case.

A check module (checks/cNN.py) defines PROPERTY and SUITES.  A suite is a function
case(r, m): r is a seeded random.Random, m is the Monitor that records what was observed.
Verdicts: held (exit 0), violated (exit 1, VIOLATION line + replay file), inconclusive (exit 2).
"""
import os, sys, json, time, random, hashlib, signal, traceback, importlib, multiprocessing as mp

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "blueprint", "src", "python")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(HERE, "evidence"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Monitor:
    """Counts what the monitors evaluated, and raises Violation when an oracle is contradicted."""
    def __init__(self):
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.known = {}
        self.notes = {}
        self._case = None

    def ok(self, kind, cond, detail=""):
        self.counts[kind] = self.counts.get(kind, 0) + 1
        if not cond:
            self.fail(kind, detail)

    def fail(self, kind, detail=""):
        if callable(detail):
            detail = detail()
        raise Violation(kind, str(detail))

    def eq(self, kind, got, want, detail=""):
        self.counts[kind] = self.counts.get(kind, 0) + 1
        if not (got == want):
            d = detail() if callable(detail) else detail
            self.fail(kind, f"got {got!r}, want {want!r}; {d}")

    def count(self, kind, n=1):
        self.notes[kind] = self.notes.get(kind, 0) + n

    def nontrivial(self, key):
        """Mark this case as non-trivial, with `key` its identity (for distinctness)."""
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:600])

    def known_finding(self, key, detail=""):
        """The case hits a defect identified by mechanism `key`: listed -> KNOWN-FINDING, else a violation."""
        if key in KNOWN:
            self.known[key] = self.known.get(key, 0) + 1
        else:
            self.fail("finding:" + key, detail)

    def raises(self, kind, excs, fn, detail=""):
        """fn() must raise an Exception (of one of excs)"""
        self.counts[kind] = self.counts.get(kind, 0) + 1
        try:
            v = fn()
        except excs:
            return
        d = detail() if callable(detail) else detail
        self.fail(kind, f"no error raised, returned {v!r}; {d}")


KNOWN = {}


def load_known(prop):
    KNOWN.clear()
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            for e in json.load(f):
                if e.get("property") == prop and e.get("status") == "open":
                    KNOWN[e["key"]] = e["what"]
    except FileNotFoundError:
        pass


LINES = set()      # (file, line) of /repo's code executed in this process


def watch_lines():
    """records which lines of the code under test are executed (each line reports once, then costs nothing)"""
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    n = len(SRC) + 1

    def hit(code, line):
        f = code.co_filename
        if f.startswith(SRC) and code.co_flags & 1:      # function bodies, not import-time statements
            LINES.add((f[n:], line))
        return mon.DISABLE
    try:
        mon.use_tool_id(mon.COVERAGE_ID, "vh")
    except ValueError:
        return
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, hit)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


class Suite:
    def __init__(self, name, fn, quick, thorough=None, cpu=120, need=(), shards=None, warm=None):
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.cpu, self.need, self.warm = cpu, tuple(need), warm


def case_rng(seed, suite, i):
    r = random.Random(f"{seed}|{suite}|{i}")
    r.index = i         # suites over a fixed list enumerate it
    return r


def _alarm(sig, frm):
    raise CaseTimeout()


def run_case(suite, seed, i, m):
    """Returns None or (kind, detail)"""
    r = case_rng(seed, suite.name, i)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, suite.cpu)
    try:
        suite.fn(r, m)
        return None
    except Violation as v:
        return v.kind, v.detail
    except Inconclusive as e:
        m.count("inconclusive_case")
        return None
    except CaseTimeout:
        return "no-result", f"no result within {suite.cpu} s of CPU time (a case normally takes well under a second)" \
            + "\n" + traceback.format_exc()[-1500:]
    except Exception as e:
        if "is not a prime factor of" in str(e) and "/sympy/ntheory/" in traceback.extract_tb(e.__traceback__)[-1].filename:
            # sympy's own cache of factors refuses products of two close composite numbers: not the code under test
            m.count("inconclusive_case")
            return None
        tb = traceback.format_exc()
        return "unexpected-exception", tb[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(suites, jobs, widx, nw, conn, seed, stop, inflight, deadline):
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    import warnings
    warnings.simplefilter("ignore")
    m = Monitor()
    viol, done = [], {}
    for si, n in jobs:
        s = suites[si]
        for i in range(widx, n, nw):
            if stop.is_set() or time.time() > deadline:
                break
            inflight[widx * 2], inflight[widx * 2 + 1] = si, i
            v = run_case(s, seed, i, m)
            done[s.name] = done.get(s.name, 0) + 1
            if v:
                viol.append(dict(suite=s.name, index=i, kind=v[0], detail=v[1]))
                stop.set()
                break
    inflight[widx * 2] = -1
    conn.send(dict(counts=m.counts, distinct=m.distinct, samples=m.samples, known=m.known,
                   notes=m.notes, violations=viol, done=done, lines=LINES))
    conn.close()


def main(module_name, argv):
    os.chdir(os.path.join(REPO, "blueprint", "src"))
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    t0 = time.time()
    import warnings
    warnings.simplefilter("ignore")
    watch_lines()
    mod = importlib.import_module(module_name)
    prop = mod.PROPERTY
    load_known(prop)
    suites = mod.SUITES
    seed, tier = SEED, TIER
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rp = json.load(f)
        s = next(x for x in suites if x.name == rp["suite"])
        v = run_case(s, rp["seed"], rp["index"], Monitor())
        print(json.dumps(dict(replayed=rp["suite"], index=rp["index"], verdict=v), indent=1))
        if v:
            print("kind:", v[0]); print(v[1])
        return 1 if v else 0
    only = None
    if "--suite" in argv:
        only = argv[argv.index("--suite") + 1]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    jobs = []
    for si, s in enumerate(suites):
        if only and s.name != only:
            continue
        n = s.quick if tier == "quick" else s.thorough
        jobs.append((si, max(1, int(n * scale))))
    nw = int(os.environ.get("VERIF_WORKERS", "7"))
    nw = min(nw, max(n for _, n in jobs))
    wall_cap = float(os.environ.get("VERIF_WALL", "400" if tier == "quick" else "5400"))
    deadline = t0 + wall_cap
    ctx = mp.get_context("fork")
    if hasattr(mod, "warmup"):
        mod.warmup()
    stop = ctx.Event()
    inflight = ctx.Array("i", [-1] * (2 * nw), lock=False)
    procs = []
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(nw):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(suites, jobs, w, nw, b, seed, stop, inflight, deadline))
        p.start(); b.close()
        procs.append((p, a))
    agg = dict(counts={}, distinct=set(), samples=[], known={}, notes={}, violations=[], done={})
    incon = []
    for w, (p, a) in enumerate(procs):
        res = None
        try:
            if a.poll(max(1.0, deadline + 300 - time.time())):
                res = a.recv()
        except EOFError:
            res = None
        if res is None:
            if p.is_alive():
                p.kill(); p.join()
                incon.append(f"worker {w} did not report in time (suite {suites[inflight[2*w]].name} case {inflight[2*w+1]})")
            else:
                p.join()
                si, i = inflight[2 * w], inflight[2 * w + 1]
                if p.exitcode in (-11, -6, -8, -4) and si >= 0:
                    agg["violations"].append(dict(suite=suites[si].name, index=i, kind="crash",
                        detail=f"the interpreter died with signal {-p.exitcode}"))
                else:
                    incon.append(f"worker {w} exited with {p.exitcode}")
            continue
        p.join()
        for k in ("counts", "known", "notes", "done"):
            for kk, vv in res[k].items():
                agg[k][kk] = agg[k].get(kk, 0) + vv
        agg["distinct"] |= res["distinct"]
        LINES.update(res["lines"])
        agg["violations"] += res["violations"]
        for s in res["samples"]:
            if len(agg["samples"]) < 6:
                agg["samples"].append(s)
    cases = sum(agg["done"].values())
    for si, n in jobs:
        s = suites[si]
        if not agg["violations"]:
            if agg["done"].get(s.name, 0) == 0:
                incon.append(f"suite {s.name} ran no case")
            for k in s.need:
                if agg["counts"].get(k, 0) == 0:
                    incon.append(f"monitor {k} of suite {s.name} was never evaluated")
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=prop, tier="thorough" if tier == "thorough" else "quick", seed=seed, level="exploration",
        coverage=dict(evaluations=cases, distinct_nontrivial=len(agg["distinct"]),
            rule=getattr(mod, "RULE", "cases are generated from the seed; a case is non-trivial when its monitor reached the deciding comparison"),
            samples=agg["samples"] or ["(none)"], cases_per_suite=agg["done"], monitor_evaluations=agg["counts"],
            observed=agg["notes"], known_findings_hit=agg["known"],
            repo_lines_executed={f: sum(g == f for g, _ in LINES) for f in sorted({f for f, _ in LINES})}),
        assumptions=getattr(mod, "ASSUMPTIONS", ["the independent oracles in /verif are correct"]),
        wall_s=round(time.time() - t0, 2), violations=len(agg["violations"]))
    if os.environ.get("VERIF_LINES"):
        with open(os.environ["VERIF_LINES"], "w") as f:
            json.dump(sorted(LINES), f)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(KNOWN):
        print(f"KNOWN-FINDING: property={prop} {KNOWN[k]} [{k}; observed {agg['known'].get(k, 0)} times in this run]")
    print(f"{prop}: {cases} cases, {sum(agg['counts'].values())} monitor evaluations, "
          f"{len(agg['distinct'])} distinct non-trivial, {ev['wall_s']} s, tier {tier}, seed {seed}")
    if agg["violations"]:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        for j, v in enumerate(agg["violations"][:3]):
            path = os.path.join(rdir, f"{prop}_{j}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, **v), f, indent=1)
            print(f"[{v['suite']} #{v['index']}] {v['kind']}: {v['detail'][:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if incon:
        for x in incon:
            print("INCONCLUSIVE:", x)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2:]))
