"""Drivers recording the search itself: C01-C05, C10, C22."""
import json, subprocess, time
import vlib, corpus
from vlib import limited, wellformed, mat, vec, num, pmap, THOROUGH, SEED

STEP_CPU = 6.0          # CPU seconds allowed for one extension step before it is skipped


_names = []


def _answer_names():
    """The attributes in which an Answer holds its values and its bucket starts (found by their contents)."""
    if not _names:
        solver, srg = repo()
        import numpy as np
        a = srg.Answer(value=srg.array([1, -1, 2]), location=np.array([0, 3, 5]), len=9)
        holds = {k: x for k, x in vars(a).items() if isinstance(x, np.ndarray)} if hasattr(a, "__dict__") else {}
        for want, usual in (([1, -1, 2], "_v"), ([0, 3, 5], "_loc")):
            _names.append(next((k for k, x in holds.items() if x.tolist() == want), usual))
    return _names


def ans_v(a):
    return getattr(a, _answer_names()[0])


def ans_loc(a):
    return getattr(a, _answer_names()[1])


def repo():
    vlib.import_repo()
    from srg import solver, srg
    return solver, srg


def fresh(srg, m):
    if len(m) == 2:         # the two starting rows exactly as the package makes them
        from srg import solver
        p = corpus.tuple_of(m)
        if p:
            out, s = limited(10, lambda: solver._seed(*p))
            if out == "ok" and wellformed(mat, s)[1] == m:
                return srg.SRG(s)
    return srg.SRG(srg.array(m))


# ------------------------------------------------------------------ recording single steps

def do_advance(m, cpu=STEP_CPU):
    """-> (outcome, list of successor matrices as nested lists)"""
    solver, srg = repo()
    own = _made.pop(repr(m), None)      # the object the package itself made, when this matrix was found before

    def go():
        objs = list(solver.advance(fresh(srg, m) if own is None else own))
        return objs, [s.current_matrix for s in objs]
    out, res = limited(cpu, go)
    if out != "ok":
        return out, []
    st, ms = wellformed(lambda: [mat(x) for x in res[1]])
    if ms and len(_made) < 20000:
        _made.update(zip(map(repr, ms), res[0]))
    return (st, ms or [])


_made = {}


def advance_event(p, m, out, succ):
    heads, idx, pairs = [m], {repr(m): 1}, []
    for s in succ:
        h, row = s[:-1], s[-1]
        if repr(h) not in idx:
            heads.append(h)
            idx[repr(h)] = len(heads)
        pairs.append([idx[repr(h)], row])
    return {"op": "advance", "p": list(p), "heads": heads, "out": out, "succ": pairs}


def usable(m, s, v):
    return len(s) == len(m) + 1 and all(len(r) == v for r in s) and s[:-1] == m


def tree(job):
    """All extension steps of one tuple (breadth first), at most cap of them and cpu seconds."""
    p, cap, cpu, maxsucc = job
    _made.clear()
    t0 = time.process_time()
    ev, todo, lost = [], [corpus.seed(p)], 0
    while todo and len(ev) < cap and time.process_time() - t0 < cpu:
        m = todo.pop(0)
        out, succ = do_advance(m)
        if out == "timeout" or len(succ) > maxsucc:
            lost += 1
            continue
        ev.append(advance_event(p, m, out, succ))
        todo += [s for s in succ if len(s) < p[0] and usable(m, s, p[0])]
    return ev, lost


def dives(job):
    """Random descents through the tree of one tuple: steps at all depths, also of huge trees."""
    p, cap, cpu, maxsucc, key, start = job
    r = corpus.rng(SEED, "dive", p, key)
    _made.clear()
    t0 = time.process_time()
    ev, seen, lost = [], {}, 0
    known = {}
    while len(ev) < cap and time.process_time() - t0 < cpu:
        m = start or corpus.seed(p)
        new = False
        while len(m) < p[0]:
            key_ = repr(m)
            if key_ not in known:
                out, succ = do_advance(m, 1.5)
                if out == "timeout" or len(succ) > maxsucc:
                    lost += 1
                    known[key_] = []
                    break
                ev.append(advance_event(p, m, out, succ))
                known[key_] = [s for s in succ if usable(m, s, p[0])]
                new = True
            if not known[key_]:
                break
            m = r.choice(known[key_])
        if not new:
            seen["stale"] = seen.get("stale", 0) + 1
            if seen["stale"] > 20:
                break
    return ev, lost


# ------------------------------------------------------------------ recording whole enumerations

def do_solve(m, cpu, keep=None):
    solver, srg = repo()

    def go():
        r = []
        for x in solver.solve(fresh(srg, m)):
            r.append(x)
        return r
    out, res = limited(cpu, go)
    if out != "ok":
        return out, []
    st, ms = wellformed(lambda: [mat(x) for x in res])
    return st, ms or []


def solve_event(job):
    """job: tuple, start rows or None, cpu limit, twice, all, list of (graph name, order)"""
    p, start, cpu, twice, full, must = job
    m = start or corpus.seed(p)
    out, res = do_solve(m, cpu)
    again = []
    if twice and out == "ok":
        out2, again = do_solve(m, cpu)
        if out2 != "ok":
            out = out2
    return {"op": "solve", "p": list(p), "start": m, "out": out, "results": res, "twice": bool(twice), "again": again,
            "all": bool(full), "must": [[corpus.graph(n), [x + 1 for x in pi]] for n, pi in must]}


def step_events(job):
    """Follow one relabelled graph through the search."""
    name, key, rows, cpu = job
    _made.clear()
    g = corpus.graph(name)
    p = corpus.params(g)
    r = corpus.rng(SEED, "step", name, key)
    # a random labelling first: the algorithm must not depend on how the graph was given
    lab = list(range(len(g)))
    r.shuffle(lab)
    g = corpus.relabel(g, lab)
    pi = corpus.guided(g, r)
    h = corpus.relabel(g, pi)
    ev, lost = [], 0
    for R in (rows or range(2, len(g))):
        if R < 2 or R >= len(g):
            continue
        out, succ = do_advance(h[:R], cpu)
        if out == "timeout":
            lost += 1
            continue
        ev.append({"op": "step", "p": list(p), "m": h[:R], "g": g, "pi": [x + 1 for x in pi], "out": out,
                   "rows": [s[-1] for s in succ if usable(h[:R], s, len(g))]})
    return ev, lost


def guided_prefix(name, key, R):
    g = corpus.graph(name)
    r = corpus.rng(SEED, "prefix", name, key)
    pi = corpus.guided(g, r)
    return corpus.params(g), corpus.relabel(g, pi)[:R], pi


# ------------------------------------------------------------------ checks

CFG = """CONSTANT Want = {%s}
INIT TraceInit
NEXT TraceNext
INVARIANT Conforms
CHECK_DEADLOCK FALSE
"""


def cfg(*props):
    return CFG % ", ".join('"%s"' % x for x in props)


def model_tree(c, invs, props=(), lo=3, hi=None):
    hi = hi or (15 if THOROUGH else 10)
    text = "SPECIFICATION Spec\nCONSTANTS Lo=%d Hi=%d\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n" % (
        lo, hi, " ".join(invs), ("PROPERTIES %s\n" % " ".join(props)) if props else "")
    c.model("SRGSearch", text, "every partial matrix of every tuple with %d..%d vertices: %s" % (lo, hi, ", ".join(invs + list(props))))


def model_levels(c, invs, props=()):
    hi = 13 if THOROUGH else 9
    text = "SPECIFICATION Spec\nCONSTANTS Lo=3 Hi=%d\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n" % (
        hi, " ".join(invs), ("PROPERTIES %s\n" % " ".join(props)) if props else "")
    c.model("SRGLevels", text, "level by level enumeration of every tuple with 3..%d vertices: %s" % (hi, ", ".join(invs + list(props))))


def model_guided(c):
    c.model("GuidedMC", "SPECIFICATION Spec\nCONSTANTS Graphs <- %s\nINVARIANTS IsOrder StartsWithSeed RowsCanonical "
            "RowsConsistent LastRowFound EndsSRG\nCHECK_DEADLOCK FALSE\n" % ("Large" if THOROUGH else "Small"),
            "every way to relabel: canonical, and each next row is among the extensions")


def flat(c, res, name):
    ev, lost = [], 0
    for e, l in res:
        ev += e
        lost += l
    c.counts[name + "_skipped_too_expensive"] = lost
    return ev


# extension steps with hundreds or thousands of extensions: graph, rows
WIDE = [("tri-9", 6), ("latin-6", 6), ("coschlaefli", 8), ("tri-10", 6), ("cotri-10", 6), ("paley-37", 6), ("paley-37", 8), ("latin-6", 8)]


def wide_event(job):
    n, R = job
    p, m, _ = guided_prefix(n, 0, R)
    _made.clear()
    out, succ = do_advance(m, 120)
    return advance_event(p, m, out, succ)


def advance_corpus(c):
    """Recorded extension steps: complete trees of the cheap tuples, samples of the others."""
    jobs = []
    maxsucc = 1500
    for p in corpus.cheap(3, 15, 3.0):
        jobs.append((p, 2500, 25, maxsucc))
    if THOROUGH:
        for p in corpus.cheap(16, 24, 3.0):
            jobs.append((p, 4000, 60, maxsucc))
    big = corpus.cheap(16, 70, 0.3)
    r = corpus.rng(SEED, "cheap")
    for p in r.sample(big, 1500 if THOROUGH else 160):
        jobs.append((p, 40, 2.0, maxsucc))
    jobs.sort(key=lambda j: -corpus.costs()[j[0]][1])
    ev = flat(c, pmap(tree, jobs), "tree")
    hard = corpus.expensive(14, 45 if THOROUGH else 30, 0.3)
    r = corpus.rng(SEED, "hard")
    pick = r.sample(hard, min(len(hard), 300 if THOROUGH else 70))
    for p in [(16, 6, 2, 2), (17, 8, 3, 4), (21, 10, 5, 4), (25, 8, 3, 2)]:
        if p not in pick:
            pick.append(p)
    dj = [(p, 120 if THOROUGH else 25, 8.0 if THOROUGH else 0.7, 300, 0, None) for p in pick]
    ev += flat(c, pmap(dives, dj), "dive")
    # from inside known graphs
    names = corpus.MIDDLE + corpus.LARGE
    dj = []
    for n in names:
        for k in range(4 if THOROUGH else 1):
            N = len(corpus.graph(n))
            if not THOROUGH and N > 37:
                continue
            R = corpus.rng(SEED, "cut", n, k).randrange(N // 3, N - 1)
            p, m, _ = guided_prefix(n, k, R)
            dj.append((p, 25, 6.0 if THOROUGH else 0.6, 100, k, m))
    ev += flat(c, pmap(dives, dj), "inside")
    ev += pmap(wide_event, WIDE if THOROUGH else WIDE[:3])
    # partial matrices already seen may repeat across the sources
    seen, uniq = set(), []
    for e in ev:
        key = (tuple(e["p"]), repr(e["heads"][0]))
        if key not in seen:
            seen.add(key)
            uniq.append(e)
    return uniq


def large_events():
    """Extension steps beyond 63 and 127 vertices."""
    ev = []
    jobs = []
    fam = [(v, 1, 0, 0) for v in (66, 130, 132, 258)] + [(v, v - 2, v - 4, v - 2) for v in (66, 68, 130, 132)] + \
          [(v, v // 2, 0, v // 2) for v in (66, 70, 130, 134, 256)] + [(v, v // 2 - 1, v // 2 - 2, 0) for v in (66, 70, 130, 134)] + \
          [(3 * w, 2 * w, w, 2 * w) for w in (22, 23, 44, 45, 70)] + [(3 * w, w - 1, w - 2, 0) for w in (23, 44)]
    for p in fam:
        jobs.append(p)
    return jobs


def family_matrix(p):
    """A canonical matrix of the complete multipartite graph or union of cliques with parameters p."""
    v, k, l, u = p
    if u == 0:
        g = corpus.cliques(v // (k + 1), k + 1)
    else:
        g = corpus.multipartite(v // (v - k), v - k)
    r = corpus.rng(SEED, "family", p)
    return corpus.relabel(g, corpus.guided(g, r))


def family_steps(p):
    h = family_matrix(p)
    v = p[0]
    _made.clear()
    ev, lost = [], 0
    rows = {2, 3, v // 4, v // 3, v // 2, v // 2 + 1, 63, 64, 65, v - 3, v - 2, v - 1} if not THOROUGH else set(range(2, v))
    for R in sorted(x for x in rows if 2 <= x < v):
        out, succ = do_advance(h[:R])
        if out == "timeout":
            lost += 1
            continue
        ev.append(advance_event(p, h[:R], out, succ))
    return ev, lost


LARGE_SEEDS = [(161, 80, 39, 40), (281, 140, 69, 70), (415, 208, 104, 104)]


def large_seed_event(p):
    """The third row of a tuple with large blocks: a hundred ways."""
    solver, srg = repo()
    _made.clear()
    out, m = limited(20, lambda: mat(solver._seed(*p)))
    if out != "ok" or len(m) != 2:
        return None
    out, succ = do_advance(m, 120)
    return advance_event(p, m, out, succ)


def nontriv(ev):
    return sum(1 for e in ev if e["out"] == "ok" and e["succ"])


def check_rows(c, prop, with_family=True):
    ev = advance_corpus(c)
    if with_family:
        ev += flat(c, pmap(family_steps, large_events()), "family")
        ev += [e for e in pmap(large_seed_event, LARGE_SEEDS + ([(701, 350, 174, 175)] if THOROUGH else [])) if e]
    c.conform("TraceSearch", ev, "recorded extension steps of srg.solver.advance", nontrivial=nontriv(ev),
              rule="distinct (tuple, partial matrix); non-trivial: at least one extension", cfg=cfg(prop))
    return ev


def C03(c):
    model_tree(c, ["TypeOK", "Consistent", "Sound"], ["Grows"])
    check_rows(c, "C03")


def C04(c):
    model_tree(c, ["TypeOK", "DefinitionAgrees"], [], hi=9 if THOROUGH else 8)
    check_rows(c, "C04")


def solve_corpus(c, twice, full, must=()):
    jobs = []
    for p in corpus.cheap(3, 13, 3.0):
        jobs.append((p, None, 60, twice, full, []))
    r = corpus.rng(SEED, "solve")
    for p in corpus.cheap(14, 17, 6.0 if THOROUGH else 0.9):
        jobs.append((p, None, 90, twice, full and THOROUGH and corpus.costs()[p][1] < 2, []))
    big = corpus.cheap(18, 70, 3.0 if THOROUGH else 0.3)
    for p in (big if THOROUGH else r.sample(big, 250)):
        jobs.append((p, None, 90, twice, False, []))
    # from inside known graphs
    for n in corpus.MIDDLE + corpus.LARGE:
        N = len(corpus.graph(n))
        if N > (66 if THOROUGH else 41):
            continue
        for k in range(6 if THOROUGH else 2):
            R = corpus.rng(SEED, "solvecut", n, k).randrange(N * 2 // 3, N - 1)
            p, m, pi = guided_prefix(n, k, R)
            jobs.append((p, m, 2.0, twice, False, [(n, pi)]))
    return jobs


def run_solves(c, jobs, prop, what):
    """Unfinished enumerations are dropped, except for the property that claims termination."""
    ev = pmap(solve_event, sorted(jobs, key=lambda j: (j[0] not in BROAD, -corpus.costs().get(j[0], (0, 9))[1])))
    if prop != "C10":
        n = len(ev)
        ev = [e for e in ev if e["out"] != "timeout"]
        c.counts["unfinished_enumerations_dropped"] = n - len(ev)
    c.conform("TraceSearch", ev, what, nontrivial=sum(1 for e in ev if e["results"]),
              rule="distinct (tuple, starting rows); non-trivial: at least one result", cfg=cfg(prop))
    c.counts["matrices_judged"] = sum(len(e["results"]) for e in ev)
    return ev


def C01(c):
    model_tree(c, ["TypeOK", "Sound"], [])
    model_levels(c, ["ResultsAreSRG"])
    run_solves(c, solve_corpus(c, False, False) + wide_jobs(), "C01", "recorded results of srg.solver.solve")


def must_jobs():
    """Enumerations whose results have to contain given relabelled graphs."""
    jobs = {}
    for n in corpus.SMALL + corpus.MIDDLE:
        p = corpus.params(corpus.graph(n))
        nres, t = corpus.costs().get(p, (-1, 99))
        if nres < 0 or t > (6 if THOROUGH else 0.9):
            continue
        for k in range(12 if THOROUGH else 4):
            r = corpus.rng(SEED, "must", n, k)
            jobs.setdefault(p, []).append((n, corpus.guided(corpus.graph(n), r)))
    for p in [(25, 8, 3, 2)]:
        jobs.setdefault(p, []).append(("rook-5", corpus.guided(corpus.graph("rook-5"), corpus.rng(SEED, "must"))))
    return [(p, None, 90, False, p[0] <= 13, m) for p, m in jobs.items()]


# enumerations with 800 to 2000 partial matrices at the same time
BROAD = [(27, 10, 1, 5), (21, 10, 6, 3), (26, 10, 6, 2), (29, 8, 2, 2)] + ([(19, 10, 5, 5), (22, 9, 0, 6)] if THOROUGH else [])


def wide_jobs():
    """Enumerations that hold hundreds of partial matrices at the same time, from inside known graphs."""
    out = []
    for n, R, keys in [("coschlaefli", 8, 2), ("tri-9", 6, 3), ("coclebsch", 2, 3)]:
        for k in range(keys * (4 if THOROUGH else 1)):
            p, m, pi = guided_prefix(n, ("wide", k), R)
            out.append((p, m, 40, False, False, [(n, pi)]))
    g = corpus.graph("coschlaefli")
    pis = {repr(corpus.relabel(g, pi)): pi for pi in (corpus.guided(g, corpus.rng(SEED, "broad", k)) for k in range(60))}
    return out + [((27, 10, 1, 5), None, 200, False, False, [("coschlaefli", pi) for pi in pis.values()])]


def C02(c):
    model_guided(c)
    model_levels(c, ["Complete"])
    jobs = must_jobs() + wide_jobs()
    have = {j[0] for j in jobs}
    jobs += [j for j in solve_corpus(c, False, True) if j[1] is not None or j[0] not in have]
    if not THOROUGH:
        jobs = [j for j in jobs if j[5] or j[4] or j[0][0] <= 20]
    run_solves(c, jobs, "C02", "recorded results of srg.solver.solve: complete set by definition (small), known graphs relabelled")
    sj = []
    for n in corpus.MIDDLE + corpus.LARGE:
        N = len(corpus.graph(n))
        for k in range(6 if THOROUGH else 1):
            rows = None
            if not THOROUGH and N > 20:
                rows = corpus.rng(SEED, "rows", n, k).sample(range(2, N), 14)
            sj.append((n, k, rows, 10.0 if THOROUGH else 1.0))
    ev = flat(c, pmap(step_events, sj), "guided_step")
    c.conform("TraceSearch", ev, "known graphs, relabelled, followed row by row through srg.solver.advance",
              nontrivial=sum(1 for e in ev if len(e["rows"]) > 1),
              rule="graph, labelling, choices, row; non-trivial: more than one extension at that row", cfg=cfg("C02"))


ELSEWHERE = """
import sys, json
from srg import solver, srg
for p in json.load(sys.stdin):
    try:
        r = [x.tolist() for x in solver.solve(srg.SRG(solver._seed(*p)))]
    except Exception as e:
        r = "raise:" + type(e).__name__
    print("RESULT " + json.dumps([p, r]), flush=True)
"""


def elsewhere(job):
    """Enumerations run in another process, with another order of hashing and in another order."""
    ps, seed = job
    ps = list(ps)
    corpus.rng(SEED, "elsewhere", seed).shuffle(ps)
    env = dict(vlib.repo_env(), PYTHONHASHSEED=str(seed))
    try:
        p = subprocess.run([vlib.PYTHON, "-c", ELSEWHERE], input=json.dumps(ps).encode(), cwd="/", env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=300)
        text = p.stdout
    except subprocess.TimeoutExpired as e:
        text = e.stdout or b""
    res = {}
    for line in text.decode("utf-8", "replace").splitlines():
        if line.startswith("RESULT "):
            try:
                p, r = json.loads(line[7:])
            except ValueError:
                continue
            res[tuple(p)] = r
    return res


def elsewhere_events():
    """Every tuple in two processes."""
    ps = corpus.cheap(4, 17, 1.0) + [p for p in corpus.cheap(18, 40, .3) if corpus.costs()[p][0] > 0]
    ps = [p for p in ps if corpus.costs()[p][0] > 0]
    groups = [ps[j::4] for j in range(4)]
    seeds = [1, 987] if not THOROUGH else [1, 987, 5, 77]
    runs = pmap(elsewhere, [(g, s) for s in seeds for g in groups])
    pairs = [(a, b) for k in range(1, len(seeds)) for a, b in zip(runs[:4], runs[4 * k:4 * k + 4])]
    several = pmap(elsewhere, [([p for p in ps if corpus.costs()[p][0] > 1], s) for s in range(100, 300 if THOROUGH else 148)])
    pairs += list(zip(several, several[1:]))
    ev = []
    for a, b in pairs:
        for p in a:
            if p not in b:
                continue
            e = {"op": "solve", "p": list(p), "start": corpus.seed(p), "out": "ok", "results": [], "twice": True, "again": [], "all": False, "must": []}
            for name, r in (("results", a[p]), ("again", b[p])):
                if isinstance(r, str):
                    e["out"] = r
                else:
                    st, ms = wellformed(lambda: [[[num(x) for x in row] for row in m] for m in r])
                    e[name] = ms or []
                    if st != "ok":
                        e["out"] = st
            ev.append(e)
    return ev


def C05(c):
    model_tree(c, ["CanonicalRows"], [])
    model_levels(c, ["SameLength", "NoClash"])
    run_solves(c, solve_corpus(c, True, False) + [(BROAD[0], None, 100, True, False, [])], "C05", "recorded results of two runs of srg.solver.solve")
    c.conform("TraceSearch", elsewhere_events(), "recorded results of srg.solver.solve in two processes", rule="distinct tuple", cfg=cfg("C05"))
    ev = advance_corpus(c)
    if not THOROUGH:
        ev = [e for e in ev if len(e["succ"]) > 1]
    c.conform("TraceSearch", ev, "recorded extension steps of srg.solver.advance", nontrivial=nontriv(ev),
              rule="distinct (tuple, partial matrix); non-trivial: at least one extension", cfg=cfg("C05"))


def C10(c):
    model_tree(c, ["TypeOK"], ["Grows", "Ends"])
    model_levels(c, ["Bounded"], ["Terminates"])
    jobs = []
    allcheap = corpus.cheap(3, 70, 0.3)
    r = corpus.rng(SEED, "C10")
    for p in (allcheap if THOROUGH else corpus.cheap(3, 16, 0.9) + r.sample(corpus.cheap(17, 70, 0.3), 900)):
        jobs.append((p, None, 30 + 40 * corpus.costs()[p][1], False, False, []))
    big = [(v, 1, 0, 0) for v in (66, 100, 126, 128, 130, 132)] + [(v, v // 2, 0, v // 2) for v in (66, 100, 128, 130, 132)] + \
          [(v, v - 2, v - 4, v - 2) for v in (66, 68, 100)] + [(v, v // 2 - 1, v // 2 - 2, 0) for v in (66, 128, 130, 132)] + \
          [(3 * w, 2 * w, w, 2 * w) for w in (22, 34, 43)] + [(3 * w, w - 1, w - 2, 0) for w in (23, 43, 44)]
    if THOROUGH:
        big += [(v, 1, 0, 0) for v in (192, 256, 258)] + [(v, v // 2, 0, v // 2) for v in (256, 260)] + [(v, v - 2, v - 4, v - 2) for v in (130, 136)]
    jobs += [(p, None, 240, False, False, []) for p in big]
    jobs += [(p, None, 400, False, False, []) for p in BROAD]
    for n in corpus.MIDDLE + corpus.LARGE:
        N = len(corpus.graph(n))
        if N <= (66 if THOROUGH else 41):
            R = N - 6
            p, m, pi = guided_prefix(n, 7, R)
            jobs.append((p, m, 120, False, False, []))
    ev = pmap(solve_event, sorted(jobs, key=lambda j: (j[0] not in BROAD, -j[0][0])))
    for e in ev:
        if len(e["results"]) and e["p"][0] > 40:
            e["results"] = []      # only the outcome matters here
    c.conform("TraceSearch", ev, "outcome of srg.solver.solve", nontrivial=sum(1 for e in ev if e["out"] == "ok"),
              rule="distinct (tuple, starting rows); non-trivial: ended normally", cfg=cfg("C10"))
    ev = advance_corpus(c)
    c.conform("TraceSearch", [dict(e, succ=[]) for e in ev], "outcome of recorded extension steps", nontrivial=nontriv(ev),
              rule="distinct (tuple, partial matrix); non-trivial: at least one extension", cfg=cfg("C10"))


# ------------------------------------------------------------------ C22

def q_event(job):
    p, m, brute = job
    solver, srg = repo()
    NoSol = srg.NoSolution

    def go():
        try:
            return srg.Question.from_matrix(fresh(srg, m).current_matrix)
        except NoSol:
            return None
    out, q = limited(10, go)
    e = {"op": "question", "p": list(p), "m": m, "brute": brute, "out": out, "A": [], "b": [], "quota": 0, "bounds": [], "v": [], "loc": [], "len": 0}
    if out == "ok" and q is None:
        e["out"] = "refused"
    elif out == "ok":
        st, d = wellformed(lambda: dict(A=mat(q.A), b=vec(q.b), quota=num(q.quota), bounds=vec(q.bounds),
                                        v=vec(ans_v(q.answer)), loc=vec(ans_loc(q.answer)), len=num(len(q.answer))))
        if st == "ok":
            e.update(d)
        else:
            e["out"] = st
    return e


def vklu_event(job):
    p, m = job
    solver, srg = repo()
    out, t = limited(10, lambda: srg.vklu(fresh(srg, m).current_matrix))
    st, d = wellformed(lambda: vec(t)) if out == "ok" else (out, None)
    return {"op": "vklu", "p": list(p), "m": m if len(m) * len(m[0]) < 300 else [], "out": st, "tuple": d or []}


def tuples_event(job):
    """Starting rows made and read again, for a range of orders."""
    solver, srg = repo()
    rows = []

    def go():
        for p in job:
            rows.append(list(p) + [num(x) for x in srg.vklu(solver._seed(*p))])
    out, _ = limited(60, lambda: wellformed(go))
    return {"op": "tuples", "out": out, "rows": rows, "want": len(job)}


def seed_event(p):
    solver, srg = repo()
    out, s = limited(10, lambda: solver._seed(*p))
    st, d = wellformed(lambda: mat(s)) if out == "ok" else (out, None)
    return {"op": "seed", "p": list(p), "out": st, "rows": d or []}


def seedruns_event(p):
    """The starting rows of a large order, as runs, and the tuple read off them."""
    from d_question import runs_of
    solver, srg = repo()

    def go():
        s = solver._seed(*p)
        return s, srg.vklu(s)
    out, res = limited(10, go)
    e = {"op": "seedruns", "p": list(p), "runs": [], "tuple": []}
    if out == "ok":
        out, d = wellformed(lambda: dict(runs=[runs_of(vec(x)) for x in res[0]], tuple=vec(res[1])))
        e.update(d or {})
    e["out"] = out
    return e


def C22(c):
    model_tree(c, ["Recoverable", "Consistent"], [])
    tuples = list(corpus.feasible(3, 30 if THOROUGH else 20))
    r = corpus.rng(SEED, "C22")
    more = list(corpus.feasible(31, 70))
    tuples += r.sample(more, 600 if THOROUGH else 120)
    for v in (128, 129, 130, 132, 150, 200, 256, 258, 260, 300, 400):
        f = list(corpus.feasible(v, v))
        f = [p for p in f if max(p[2:]) > 127] + f          # the larger counts twice as likely
        tuples += list(dict.fromkeys(r.sample(f, min(len(f), 20 if THOROUGH else 5))))
    big = [(n, n - 2, n - 4, n - 2) for n in (66, 130, 132, 260, 400)] + [(2 * n, n - 1, n - 2, 0) for n in (66, 130, 260)]
    tuples += big
    ev = pmap(seed_event, tuples, chunksize=20)
    wide = []
    for v in sorted({100, 200, 255, 256, 257, 301, 324, 400, 512, 513, 729, 1000, 1025, 2049, 3000} | set(r.sample(range(90, 1000), 60 if THOROUGH else 15))):
        f = list(corpus.feasible(v, v))
        edge = [p for p in f if p[2] == 0 or p[3] == 0 or p[2] == p[1] - 1 or p[3] == p[1] or p[2] == p[3] or p[2] + 1 == p[3]]
        wide += r.sample(f, min(len(f), 20)) + r.sample(edge, min(len(edge), 30))
    ev += pmap(seedruns_event, list(dict.fromkeys(wide)), chunksize=20)
    many = list(corpus.feasible(3, 150 if THOROUGH else 90))
    extra = list(corpus.feasible(300, 300)) + list(corpus.feasible(421, 421))
    many += r.sample(extra, min(len(extra), 400))
    ev += pmap(tuples_event, [many[j:j + 400] for j in range(0, len(many), 400)], chunksize=2)
    adv = advance_corpus(c)
    fam = flat(c, pmap(family_steps, large_events()), "family")
    mats = []
    for e in adv + fam:
        m = e["heads"][0]
        mats.append((tuple(e["p"]), m))
        if e["succ"] and len(m) + 1 < e["p"][0] and len(e["succ"]) > 1:
            j = r.choice(e["succ"])
            if j[0] == 1:
                mats.append((tuple(e["p"]), m + [j[1]]))
    # dead ends matter: every recorded partial matrix is used, extendable or not; large ones are sampled
    for p in tuples[-50:]:
        mats.append((p, corpus.seed(p)))
    small = [x for x in mats if x[0][0] <= 30]
    large = [x for x in mats if x[0][0] > 30]
    r.shuffle(small)
    deep = [x for x in large if len(x[1]) > 126]
    mats = small[:12000 if THOROUGH else 3500] + large[:3000 if THOROUGH else 700] + deep[:200 if THOROUGH else 24] + [(p, corpus.seed(p)) for p in big]
    ev += pmap(vklu_event, mats, chunksize=50)
    ev += pmap(q_event, [(p, m, 10) for p, m in mats], chunksize=20)
    c.conform("TraceSearch", ev, "starting rows, tuples read off partial matrices, row questions",
              nontrivial=sum(1 for e in ev if e["op"] == "question"), cfg=cfg("C22"),
              rule="distinct (tuple, partial matrix); non-trivial: a row question was set up or refused")
