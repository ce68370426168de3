"""Drivers for row questions and the functions below them: C06, C07, C08, C11-C14, C23, C25."""
import itertools, time
from fractions import Fraction
import vlib, corpus, d_search
from vlib import limited, wellformed, mat, vec, num, pmap, THOROUGH, SEED

CPU = 20.0


def repo():
    vlib.import_repo()
    from srg import solver, srg
    return solver, srg


# ------------------------------------------------------------------ questions

def snap(q):
    """The question as a record of the specification (raises Malformed)."""
    A = q.A
    rows, cols = A.shape
    return {"A": mat(A), "b": vec(q.b), "quota": num(q.quota), "bounds": vec(q.bounds), "v": vec(d_search.ans_v(q.answer)),
            "loc": vec(d_search.ans_loc(q.answer)), "len": num(len(q.answer)), "rows": rows, "cols": cols}


def build(d):
    solver, srg = repo()
    import numpy as np
    key = (d["A"], d["b"], d["bounds"], d["v"])
    if d["len"] > 15000 or sum(d["b"]) + sum(d["bounds"]) > 15000:       # as the package would hold them
        one = srg.array
        return srg.Question(one(d["A"]).reshape(len(d["A"]), len(d["bounds"])), one(d["b"]), d["quota"], one(d["bounds"]),
                            srg.Answer(value=one(d["v"]), location=np.array(d["loc"], dtype=int), len=d["len"]))
    small = sum(d["b"]) + sum(d["bounds"]) + d["len"] < 60
    A = vlib.arr(d["A"], key, small, cols=len(d["bounds"]))
    ans = srg.Answer(value=vlib.arr(d["v"], (key, 1), small), location=np.array(d["loc"], dtype=int), len=d["len"])
    return srg.Question(A, vlib.arr(d["b"], (key, 2), small), d["quota"], vlib.arr(d["bounds"], (key, 3), small), ans)


def implied_total(A, b, C):
    """The total of all unknowns, if it is a rational combination of the equations; else None."""
    R = len(A)
    # solve y A = 1 by elimination on the transposed system
    M = [[Fraction(A[r][c]) for r in range(R)] + [Fraction(1)] for c in range(C)]
    piv, row = [], 0
    for col in range(R):
        p = next((i for i in range(row, C) if M[i][col] != 0), None)
        if p is None:
            continue
        M[row], M[p] = M[p], M[row]
        M[row] = [x / M[row][col] for x in M[row]]
        for i in range(C):
            if i != row and M[i][col] != 0:
                f = M[i][col]
                M[i] = [x - f * y for x, y in zip(M[i], M[row])]
        piv.append(col)
        row += 1
    if any(all(x == 0 for x in m[:-1]) and m[-1] != 0 for m in M):
        return None
    y = [Fraction(0)] * R
    for i, col in enumerate(piv):
        y[col] = M[i][-1]
    return sum(yi * bi for yi, bi in zip(y, b))


def gen_question(r, classes=None, rows=None, decided=True, sizes=4, width=3, tight=False, sumrow=None, solvable=None, wide=False, alone=False):
    """A random well-formed question; None if this draw is outside the domain."""
    K = classes or r.randint(1, 6)
    R = rows if rows is not None else r.randint(0, 5)
    cols = [[1 if r.random() < r.choice([.2, .5, .5, .8]) else 0 for _ in range(R)] for _ in range(K)]
    if len({tuple(c) for c in cols}) < K and not wide:
        cols = sorted({tuple(c) for c in cols})
        r.shuffle(cols)
    if wide:
        seen = []
        for c in cols:
            if tuple(c) not in seen:
                seen.append(tuple(c))
        cols = seen
    v, loc, pos, A_cols, bounds, truth = [], [], 0, [], [], []

    def bucket(size, col):
        nonlocal pos
        loc.append(pos)
        pos += size
        if col is None:
            v.append(r.randint(0, size))
        else:
            v.append(-1)
            A_cols.append(list(col))
            bounds.append(size)
    for col in cols:
        if decided and r.random() < .25:
            bucket(r.randint(1, sizes), None)
        for _ in range(1 if r.random() < .6 else r.randint(1, width)):
            bucket(r.randint(1, sizes), col)
    if decided and r.random() < .2:
        bucket(r.randint(1, sizes), None)
    C = len(bounds)
    A = [[A_cols[c][i] for c in range(C)] for i in range(R)]
    if sumrow is None:
        sumrow = r.random() < .8
    if sumrow:
        A.insert(r.randint(0, len(A)), [1] * C)
    full = list(bounds)
    if tight:
        bounds = [b if r.random() < .7 else r.randint(1, b) for b in bounds]
        # equal columns need not have equal capacities
    # at times the totals suit the bucket sizes rather than the capacities
    x = [r.choice([0, b, r.randint(0, b)]) for b in (full if tight and r.random() < .4 else bounds)]
    b = [sum(a * y for a, y in zip(row, x)) for row in A]
    if solvable is None:
        solvable = r.random() < .6
    if not solvable:
        for j in range(len(b)):
            if r.random() < .4:
                b[j] = max(0, b[j] + r.choice([-2, -1, -1, 1, 1, 2, 4]))
    if r.random() < .1 and A:      # a repeated equation, possibly contradicting
        j = r.randrange(len(A))
        A.append(list(A[j]))
        b.append(max(0, b[j] + (0 if solvable else r.choice([0, 1, -1]))))
    if alone:                      # unknowns that stand alone, at times above their capacity or their bucket
        size = [n - p for p, n, w in zip(loc, loc[1:] + [pos], v) if w == -1]
        for c in r.sample(range(C), r.randint(1, min(C, 3))):
            A.append([1 if j == c else 0 for j in range(C)])
            b.append(x[c] if r.random() < .6 else r.randint(0, size[c] + r.choice([0, 0, 0, 1])))
    if r.random() < .07:
        A.append([0] * C)
        b.append(0 if solvable else r.choice([0, 1, 3]))
    quota = implied_total(A, b, C)
    if quota is None or quota.denominator != 1 or quota < 0:
        return None
    return {"A": A, "b": b, "quota": int(quota), "bounds": bounds, "v": v, "loc": loc, "len": pos,
            "rows": len(A), "cols": C}


def _questions(job):
    n, key, kw = job
    r = corpus.rng(SEED, "questions", key)
    out, seen = [], set()
    while len(out) < n:
        q = gen_question(r, **kw)
        if q is None or not affordable(q):
            continue
        k = repr(q)
        if k not in seen:
            seen.add(k)
            out.append(q)
    return out


def questions(n, key, **kw):
    parts = pmap(_questions, [(max(1, n // 16), (key, j), kw) for j in range(16)])
    return [q for p in parts for q in p]


def effort(A, b, bounds, cap):
    """Number of nodes TLC visits when it enumerates the solutions (at most cap)."""
    R, C = len(A), len(bounds)
    caps = [[0] * R for _ in range(C + 1)]
    for c in reversed(range(C)):
        caps[c] = [caps[c + 1][r] + A[r][c] * bounds[c] for r in range(R)]
    n = 0
    todo = [(0, tuple(b))]
    while todo and n < cap:
        c, left = todo.pop()
        n += 1
        if c == C or any(x < 0 or x > y for x, y in zip(left, caps[c])):
            continue
        inside = [r for r in range(R) if A[r][c]] if bounds[c] >= 40 else []
        lo = max([0] + [left[r] - caps[c + 1][r] for r in inside])      # as Window of SRGCore
        hi = min([bounds[c]] + [left[r] for r in inside])
        for t in range(lo, hi + 1):
            todo.append((c + 1, tuple(x - t * A[r][c] for r, x in enumerate(left))))
            n += 1
            if n > cap:
                break
    return n


EFFORT = 4000 if THOROUGH else 1000


def affordable(q, cap=None):
    cap = cap or EFFORT
    return effort(q["A"], q["b"], q["bounds"], cap) < cap


def affordable_system(A, b, cap=None):
    cap = cap or EFFORT
    C = len(A[0])
    lim = [min([b[r] for r in range(len(A)) if A[r][c]] or [0]) for c in range(C)]
    return effort(A, b, lim, cap) < cap


def near_columns(r):
    """0/1 columns, next to each other, which agree but for two rows a word apart (31, 32, 53, 61, ... rows)."""
    d = r.choice([31, 32, 53, 61, 61, 62, 63, 64, 65])
    R = r.randint(d + 1, d + 12)
    pairs = r.randint(1, 3)
    cols = []
    for k in range(pairs):
        i = r.randrange(R - d)
        base = [0] * R if r.random() < .5 else [r.randint(0, 1) for _ in range(R)]
        one, two = list(base), list(base)
        one[i], one[i + d], two[i], two[i + d] = 1, 0, 0, 1
        cols += r.sample([one, two], 2)
    cols = [c for k, c in enumerate(cols) if c not in cols[:k]]
    return [[c[j] for c in cols] for j in range(R)], len(cols)


def wide_questions(n, key, kinds=(0, 1, 2, 3)):
    """Questions with more than 63 unknowns or more than 63 equations, with few solutions."""
    r = corpus.rng(SEED, "wide", key)
    out = []
    while len(out) < n:
        kind = r.choice(kinds)
        if kind == 0:       # many unknowns, a chain of overlapping equations with small totals
            C = r.randint(64, 100)
            step = r.randint(2, 4)
            A = [[1 if s <= c < s + step else 0 for c in range(C)] for s in range(0, C, step)]
            x = [0] * C
            for c in r.sample(range(C), 2):
                x[c] = 1
            if r.random() < .5:
                A.append([1 if c % 2 else 0 for c in range(C)])
            A.append([1] * C)
            bounds = [1] * C
        elif kind == 1:     # many equations, few unknowns
            C = r.randint(3, 7)
            A = [[r.randint(0, 1) for _ in range(C)] for _ in range(r.randint(64, 80))] + [[1] * C]
            bounds = [r.randint(1, 3) for _ in range(C)]
            x = [r.randint(0, b) for b in bounds]
        elif kind == 3:     # neighbouring columns that differ only in two equations far apart
            A, C = near_columns(r)
            A.append([1] * C)
            bounds = [r.randint(1, 2) for _ in range(C)]
            x = [r.randint(0, b) for b in bounds]
        else:               # two halves of many unknowns each
            C = r.randint(66, 90)
            h = C // 2
            A = [[1 if c < h else 0 for c in range(C)], [1] * C,
                 [1 if c in (0, h) else 0 for c in range(C)]]
            bounds = [1] * C
            x = [0] * C
            x[r.randrange(C)] = 1
        b = [sum(a * y for a, y in zip(row, x)) for row in A]
        if r.random() < .25:
            j = r.randrange(len(b) - 1)
            b[j] += 1
        cols = {}
        ok = True
        for c in range(C):
            k = tuple(row[c] for row in A)
            if k in cols and cols[k] != c - 1:
                ok = False
            cols[k] = c
        quota = implied_total(A, b, C)
        if not ok or quota is None or quota.denominator != 1 or quota < 0:
            continue
        loc = [sum(bounds[:c]) for c in range(C)]
        out.append({"A": A, "b": b, "quota": int(quota), "bounds": bounds, "v": [-1] * C, "loc": loc, "len": sum(bounds),
                    "rows": len(A), "cols": C})
    return out


def large_questions(sizes):
    """Questions with one unknown left to choose, in large buckets: as many answers as places."""
    out = []
    for n in sizes:
        for A, rest in (([[1, 1, 0, 0], [1, 0, 1, 0], [1, 1, 1, 1]], 0), ([[1, 1, 0, 0], [0, 1, 1, 0], [1, 1, 1, 1]], 3),
                        ([[1, 0, 1], [1, 1, 0], [1, 1, 1]], 2), ([[1, 1], [1, 1]], 1)):
            C = len(A[0])
            r = corpus.rng(SEED, "large", n, rest)
            x = [n // 2 + r.randint(0, 2) for _ in range(C)]
            b = [sum(a * y for a, y in zip(row, x)) for row in A]
            out.append({"A": A, "b": b, "quota": b[-1], "bounds": [n + r.randint(0, 2) for _ in range(C)], "v": [-1] * C,
                        "loc": [], "len": 0, "rows": len(A), "cols": C})
            q = out[-1]
            q["loc"], q["len"] = [sum(q["bounds"][:c]) for c in range(C)], sum(q["bounds"])
    return out


HUGE = [127, 128, 200, 255, 256, 300, 1000, 16384, 20000, 32767, 32768, 33000, 40000, 65536, 70000]


def huge_questions(n, key, total=400000):
    """Questions with huge capacities and few solutions: small right-hand sides, or almost full ones."""
    r = corpus.rng(SEED, "huge", key)
    out = []
    while len(out) < n:
        C = r.randint(2, 6)
        A = [[r.randint(0, 1) for _ in range(C)] for _ in range(r.randint(1, 4))]
        if r.random() < .4:
            A += [[int(j == c) for j in range(C)] for c in r.sample(range(C), r.randint(1, C))]
        A.append([1] * C)
        cols = [tuple(row[c] for row in A) for c in range(C)]
        if any(cols[a] == cols[b] and cols[a] != cols[a + 1] for a in range(C) for b in range(a + 2, C)):
            continue
        bounds = [r.choice(HUGE) for _ in range(C)]
        if sum(bounds) > total:
            continue
        full = r.random()
        x = [(bd - r.randint(0, 3) if full < .4 or full < .7 and j % 2 else r.randint(0, 3)) if r.random() < .8 else r.choice([0, bd, bd // 2])
             for j, bd in enumerate(bounds)]
        b = [sum(a * y for a, y in zip(row, x)) for row in A]
        if r.random() < .2:
            j = r.randrange(len(b))
            b[j] = max(0, b[j] + r.choice([-1, 1]))
        loc = [sum(bounds[:c]) for c in range(C)]
        q = {"A": A, "b": b, "quota": b[-1], "bounds": bounds, "v": [-1] * C, "loc": loc, "len": sum(bounds), "rows": len(A), "cols": C}
        if affordable(q, 400):
            out.append(q)
    return out


def many_buckets(k, key):
    """A small question whose answer has very many buckets, most of them decided."""
    r = corpus.rng(SEED, "buckets", key, k)
    while True:
        q = gen_question(r, decided=False, tight=k % 2 == 1)
        if q and affordable(q):
            break
    sizes = [b - a for a, b in zip(q["loc"], q["loc"][1:] + [q["len"]])]
    out, n = [], r.choice([70, 130, 150, 270, 300])
    cols = list(zip(*q["A"])) if q["A"] else [()] * len(sizes)
    first = [j for j in range(len(sizes)) if j == 0 or cols[j] != cols[j - 1]]       # no decided bucket between equal columns
    start = sorted(r.sample(range(0, n, 20), len(first))) if len(first) <= n // 20 and all(b - a <= 20 for a, b in zip(first, first[1:] + [len(sizes)])) else None
    if start is None:
        return many_buckets(k + 1000, key)
    new = {start[g] + j - f: sizes[j] for g, f in enumerate(first) for j in range(f, (first + [len(sizes)])[g + 1])}
    n += 20
    for j in range(n):
        s = r.randint(1, 4)
        out.append((new[j], -1) if j in new else (s, r.randint(0, s)))
    loc = [0]
    for s, _ in out:
        loc.append(loc[-1] + s)
    return dict(q, v=[v for _, v in out], loc=loc[:-1], len=loc[-1])


def few_values(q, most=40):
    """Whichever unknown is tried, it has few values."""
    t = sum(q["bounds"])
    return all(min(x, q["quota"]) - max(0, q["quota"] - (t - x)) < most for x in q["bounds"])


def exhaustive_questions(limit, key):
    """All tiny questions (2 unknowns of 1 or 2 equal-column buckets), thinned to the limit."""
    out = []
    for C in (1, 2, 3):
        for A in itertools.product(itertools.product((0, 1), repeat=C), repeat=2):
            M = [list(x) for x in A] + [[1] * C]
            cols = [tuple(row[c] for row in M) for c in range(C)]
            if C == 3 and cols[0] == cols[2] != cols[1]:
                continue
            for sizes in itertools.product((1, 2), repeat=C):
                for b in itertools.product(range(4), repeat=3):
                    loc = [sum(sizes[:c]) for c in range(C)]
                    out.append({"A": M, "b": list(b), "quota": b[2], "bounds": list(sizes), "v": [-1] * C, "loc": loc,
                                "len": sum(sizes), "rows": 3, "cols": C})
    r = corpus.rng(SEED, "exh", key)
    return out if len(out) <= limit else r.sample(out, limit)


# ------------------------------------------------------------------ C06

def solve_q(d):
    solver, srg = repo()

    def go():
        return list(solver.solve_question(build(d)))
    out, ys = limited(CPU, go)
    if out == "ok":
        out, ys = wellformed(lambda: mat(ys))
    return {"op": "solve", "q": d, "out": out, "ys": ys if out == "ok" else []}


def solve_runs(d):
    solver, srg = repo()
    out, ys = limited(CPU, lambda: list(solver.solve_question(build(d))))
    if out == "ok":
        out, ys = wellformed(lambda: [runs_of(vec(y)) for y in ys])
    return {"op": "solveruns", "q": d, "out": out, "ys": ys if out == "ok" else []}


def matrix_question(job):
    """The question of a recorded partial matrix, as the code sets it up."""
    p, m = job
    solver, srg = repo()

    def go():
        try:
            return snap(srg.Question.from_matrix(srg.array(m)))
        except srg.NoSolution:
            return None
    out, d = limited(5, go)
    return d if out == "ok" else None


def reached_matrices(n, key, lo=4, hi=17):
    """Partial matrices reached by the real search."""
    r = corpus.rng(SEED, "reached", key)
    jobs = [(p, 150, 4.0, 400) for p in corpus.cheap(lo, 14, 1.0)]
    ev = [e for es, _ in pmap(d_search.tree, jobs) for e in es]
    hard = [(p, 20, 1.0, 200, key, None) for p in corpus.expensive(14, 26, 0.3)]
    ev += [e for es, _ in pmap(d_search.dives, r.sample(hard, min(len(hard), 60 if THOROUGH else 16))) for e in es]
    ms = {(tuple(e["p"]), repr(e["heads"][0])): (tuple(e["p"]), e["heads"][0]) for e in ev}
    ms = list(ms.values())
    r.shuffle(ms)
    return ms[:n]


def rows_ok(d):
    return d is not None and affordable(d)


MODEL_ROW = ("SPECIFICATION Spec\nCONSTANTS Rows=%d Cols=%d MaxSize=%d MaxB=%d DropContradictions=FALSE\n"
             "INVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n")


def model_row(c, invs, props=()):
    confs = [(1, 2, 2, 2), (1, 3, 1, 2)] if not THOROUGH else [(1, 2, 2, 3), (1, 3, 2, 2), (2, 2, 2, 2), (2, 3, 1, 2)]
    for conf in confs:
        c.model("RowSolver", MODEL_ROW % (*conf, " ".join(invs), ("PROPERTIES %s\n" % " ".join(props)) if props else ""),
                "every order of deductions and splits on every question with %d equation(s) besides the total, up to %d unknowns "
                "in buckets of up to %d, right-hand sides up to %d" % conf)


def C06(c):
    model_row(c, ["WellFormed", "NothingLost", "EachOnce", "FillAgrees"], ["Ends"])
    qs = exhaustive_questions(60000 if THOROUGH else 4000, "C06") + questions(20000 if THOROUGH else 3000, "C06") \
        + questions(3000 if THOROUGH else 500, "C06b", sumrow=False) + wide_questions(300 if THOROUGH else 60, "C06") \
        + large_questions((70, 130, 270, 540, 1040) if THOROUGH else (70, 150, 280)) + large_questions((1040,))[-2:] \
        + questions(5000 if THOROUGH else 800, "C06t", tight=True, width=1) \
        + questions(5000 if THOROUGH else 600, "C06alone", tight=True, alone=True, width=1)
    qs += [d for d in pmap(matrix_question, reached_matrices(4000 if THOROUGH else 800, "C06"), chunksize=20) if rows_ok(d)]
    ev = pmap(solve_q, qs, chunksize=25)
    ev += pmap(solve_runs, huge_questions(400 if THOROUGH else 80, "C06", 120000), chunksize=5)
    c.conform("TraceRow", ev, "recorded answers of srg.solver.solve_question", nontrivial=sum(1 for e in ev if e["ys"]),
              rule="distinct question; non-trivial: at least one answer")


# ------------------------------------------------------------------ C07

STEPS = ["reduce_col", "eliminate", "zero_in_b", "only_1_element_in_row"]


def one_step(fn, q, d):
    """-> (outcome, snapshot after)"""
    solver, srg = repo()

    def go():
        try:
            fn(q)
            return "ok"
        except srg.NoSolution:
            return "nosolution"
    out, st = limited(CPU, go)
    if out != "ok":
        return out, d
    if st == "nosolution":
        return st, d
    st, r = wellformed(lambda: snap(q))
    return st, r or d


def step_walk(job):
    """A random sequence of deduction steps (any order), each judged on its own."""
    d, key, n, *first = job
    solver, srg = repo()
    r = corpus.rng(SEED, "walk", key)
    ev = []
    out, q = limited(CPU, lambda: build(d))
    if out != "ok":
        return [{"op": "step", "name": "create", "q": d, "out": out, "r": d}]
    last = None
    for j in range(n):
        name = first[j] if j < len(first) else r.choice([s for s in STEPS if s != last] or STEPS)
        last = name
        if not hasattr(solver, name):
            continue
        st, after = one_step(getattr(solver, name), q, d)
        ev.append({"op": "step", "name": name, "q": d, "out": st, "r": after})
        if st != "ok":
            break
        d = after
        if not affordable(d):
            break
    return ev


def wrapped_run(job):
    """Deduction steps and splits as they happen inside the real search of one partial matrix."""
    p, m, want = job
    solver, srg = repo()
    ev = []
    saved = {}

    def wrap_step(name, fn):
        def w(Q):
            before = wellformed(lambda: snap(Q))[1]
            try:
                res = fn(Q)
            except srg.NoSolution:
                if before:
                    ev.append({"op": "step", "name": name, "q": before, "out": "nosolution", "r": before})
                raise
            st, after = wellformed(lambda: snap(Q))
            if before:
                ev.append({"op": "step", "name": name, "q": before, "out": st, "r": after or before})
            return res
        return w

    def wrap_split(name, fn):
        def w(Q):
            before = wellformed(lambda: snap(Q))[1]
            try:
                res = list(fn(Q))
            except srg.NoSolution:
                if before:
                    ev.append({"op": "split", "q": before, "out": "nosolution", "parts": [], "late": [], "after": before})
                raise
            st, parts = wellformed(lambda: [snap(x) for x in res])
            if before:
                ev.append({"op": "split", "q": before, "out": st, "parts": parts or [], "late": [], "after": wellformed(lambda: snap(Q))[1] or {}})
            return iter(res)
        return w
    try:
        for name in STEPS + ["fork_enum"]:
            if hasattr(solver, name):
                saved[name] = getattr(solver, name)
                setattr(solver, name, (wrap_split if name == "fork_enum" else wrap_step)(name, saved[name]))
        limited(4, lambda: solver.advance(d_search.fresh(srg, m)))
    finally:
        for name, fn in saved.items():
            setattr(solver, name, fn)
    ev = [e for e in ev if (e["op"] == "split") == (want == "split")]
    r = corpus.rng(SEED, "wrapped", p, len(m))
    ev = ev if len(ev) <= 40 else r.sample(ev, 40)
    return [e for e in ev if affordable(e["q"])]


def distinct(ev):
    seen, out = set(), []
    for e in ev:
        k = (e["op"], e.get("name"), repr(e["q"]))
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def changed(e):
    return e["op"] != "step" or e["out"] != "ok" or e["q"] != e["r"]


def C07(c):
    model_row(c, ["WellFormed", "NothingLost"], ["StepLaw"])
    qs = exhaustive_questions(20000 if THOROUGH else 1500, "C07") + questions(9000 if THOROUGH else 1500, "C07") \
        + questions(9000 if THOROUGH else 1000, "C07t", tight=True) + wide_questions(200 if THOROUGH else 30, "C07") \
        + questions(2000 if THOROUGH else 300, "C07s", sumrow=False)
    ev = [e for es in pmap(step_walk, [(q, k, 7) for k, q in enumerate(qs)], chunksize=25) for e in es]
    alone = questions(6000 if THOROUGH else 1200, "C07alone", tight=True, alone=True, width=1)
    alone = [e for es in pmap(step_walk, [(q, k, 3, "only_1_element_in_row") for k, q in enumerate(alone)], chunksize=25) for e in es]
    merge = [q for q in questions(8000 if THOROUGH else 1500, "C07merge", tight=True, classes=2) if len({tuple(c) for c in zip(*q["A"])}) < q["cols"]]
    alone += [e for es in pmap(step_walk, [(q, k, 2, "reduce_col") for k, q in enumerate(merge)], chunksize=25) for e in es]
    qh = huge_questions(2000 if THOROUGH else 400, "C07") + [many_buckets(k, "C07") for k in range(60 if THOROUGH else 15)]
    alone += [e for es in pmap(step_walk, [(q, k, 6) for k, q in enumerate(qh)], chunksize=10) for e in es]
    near = wide_questions(400 if THOROUGH else 60, "C07near", kinds=(3,))
    near = [e for es in pmap(step_walk, [(q, k, 2, s) for q in near for k, s in enumerate(STEPS)], chunksize=10) for e in es]
    run = [e for es in pmap(wrapped_run, [(p, m, "step") for p, m in reached_matrices(2500 if THOROUGH else 300, "C07")], chunksize=5) for e in es]
    c.counts["steps_inside_real_searches"] = len(run)
    ev = distinct(ev + run)
    r = corpus.rng(SEED, "C07pick")
    unchanged = [e for e in ev if not changed(e)]
    ev = [e for e in ev if changed(e)] + r.sample(unchanged, min(len(unchanged), 400))
    if not THOROUGH and len(ev) > 9000:
        ev = r.sample(ev, 9000)
    ev += near + distinct(alone)
    c.conform("TraceRow", ev, "recorded deduction steps", nontrivial=sum(1 for e in ev if changed(e)),
              rule="distinct (step, question); non-trivial: the step changed the question or reported no solution")


# ------------------------------------------------------------------ C08

def split_q(d):
    solver, srg = repo()

    q = build(d)

    def go():
        try:
            return list(solver.fork_enum(q))
        except srg.NoSolution:
            return None
    out, res = limited(CPU, go)
    parts = []
    if out == "ok":
        if res is None:
            out = "nosolution"
        else:
            out, parts = wellformed(lambda: [snap(x) for x in res])
    late = []
    if out == "ok" and parts:
        late = [None] * len(res)
        order = list(range(len(res)))
        if len(repr(d)) % 2:            # the solver works on the last one first; other orders must not matter
            order.reverse()
        for j in order:                 # each part again, after the parts before it have been worked on
            st, late[j] = wellformed(lambda: snap(res[j]))
            late[j] = late[j] or {}
            for name in ("zero_in_b", "only_1_element_in_row", "reduce_col", "eliminate", "zero_in_b", "only_1_element_in_row"):
                if hasattr(solver, name) and limited(CPU, getattr(solver, name), res[j])[0] != "ok":
                    break
    st, after = wellformed(lambda: snap(q))
    return {"op": "split", "q": d, "out": out, "parts": parts or [], "late": late, "after": after or {}}


def values_event(job):
    quota, bounds, at = job
    solver, srg = repo()
    from srg import fork
    out, res = limited(CPU, lambda: list(fork.enum(quota, srg.array(bounds), at)))
    if out == "ok":
        out, res = wellformed(lambda: [vec(x) for x in res])
    return {"op": "values", "quota": quota, "bounds": bounds, "at": at, "out": out, "pairs": res if out == "ok" else []}


def C08(c):
    c.prove("ParamProofs", ["Params"], "the values a split tries are exactly those that can reach the quota, for all numbers")
    model_row(c, ["NothingLost", "EachOnce"])
    jobs = []
    for n in (1, 2, 3, 4):
        for bounds in itertools.product(range(4 if n < 4 else 3), repeat=n):
            for quota in range(sum(bounds) + 2):
                for at in range(n):
                    jobs.append((quota, list(bounds), at))
    r = corpus.rng(SEED, "C08")
    if not THOROUGH:
        jobs = r.sample(jobs, 1800)
    for _ in range(400):
        n = r.randint(3, 40)
        bounds = [r.randint(0, 150) for _ in range(n)]
        jobs.append((r.choice([0, sum(bounds), r.randint(0, sum(bounds)), r.randint(0, 60)]), bounds, r.randrange(n)))
    for _ in range(200):
        bounds = [r.choice(HUGE + [1, 2]) for _ in range(r.randint(2, 9))]
        jobs.append((r.choice([r.randint(0, 5), max(0, sum(bounds) + r.randint(-4, 2))]), bounds, r.randrange(len(bounds))))
    ev = pmap(values_event, jobs, chunksize=50)
    qs = exhaustive_questions(30000 if THOROUGH else 2500, "C08") + questions(9000 if THOROUGH else 1500, "C08") \
        + questions(5000 if THOROUGH else 700, "C08t", tight=True) + wide_questions(100 if THOROUGH else 12, "C08") \
        + questions(2000 if THOROUGH else 300, "C08s", sumrow=False) + large_questions((50, 70, 100, 130, 140)) \
        + [q for q in huge_questions(3000 if THOROUGH else 500, "C08") if few_values(q)]
    ev += pmap(split_q, qs, chunksize=25)
    ev += [e for es in pmap(wrapped_run, [(p, m, "split") for p, m in reached_matrices(2500 if THOROUGH else 400, "C08", lo=8)], chunksize=5) for e in es]
    c.conform("TraceRow", ev, "recorded splits and the values tried", nontrivial=sum(1 for e in ev if len(e.get("parts", e.get("pairs"))) > 1),
              rule="distinct question or (quota, capacities, unknown); non-trivial: at least two parts or values")


# ------------------------------------------------------------------ C11

def elim_event(job):
    A, b = job
    if not affordable_system(A, b, 4000 if len(A[0]) > 50 else None):
        return None
    solver, srg = repo()
    from srg import gauss_elim
    C = len(A[0])
    nA, nb = vlib.arr(A, job, cols=len(A[0])), vlib.arr(b, (job, 1), small=sum(b) < 100)

    def go():
        try:
            return gauss_elim.elim(nA, nb)
        except srg.NoSolution:
            return None
    out, res = limited(CPU, go)
    e = {"op": "elim", "A": A, "b": b, "cols": C, "out": out, "rA": [], "rb": [], "rcols": C}
    if out == "ok" and res is None:
        e["out"] = "nosolution"
    elif out == "ok":
        st, d = wellformed(lambda: dict(rA=mat(res[0]), rb=vec(res[1]), rcols=int(res[0].shape[1])))
        e["out"] = st
        e.update(d or {})
    st, d = wellformed(lambda: dict(argsA=mat(nA), argsb=vec(nb)))
    e.update(d or {"argsA": [], "argsb": []})
    return e


def sort_event(job):
    A, b = job
    solver, srg = repo()
    from srg import gauss_elim
    nA, nb = vlib.arr(A, job, cols=len(A[0])), vlib.arr(b, (job, 1), small=sum(b) < 100)
    out, _ = limited(CPU, lambda: gauss_elim.sort(nA, nb))
    e = {"op": "sortrows", "A": A, "b": b, "out": out, "rA": [], "rb": []}
    if out == "ok":
        st, d = wellformed(lambda: dict(rA=mat(nA), rb=vec(nb)))
        e["out"] = st
        e.update(d or {})
    return e


def systems(n, key):
    r = corpus.rng(SEED, "systems", key)
    out = []
    while len(out) < n:
        C, R = r.randint(1, 7), r.randint(1, 7)
        dens = r.choice([.2, .4, .6, .8])
        A = [[1 if r.random() < dens else 0 for _ in range(C)] for _ in range(R)]
        mode = r.randrange(4)
        if mode == 0:
            b = [r.randint(0, 4) for _ in range(R)]
        else:
            x = [r.randint(0, r.choice([1, 2, 3])) for _ in range(C)]
            b = [sum(p * q for p, q in zip(row, x)) for row in A]
            if mode == 3:
                j = r.randrange(R)
                b[j] = max(0, b[j] + r.choice([-1, 1]))
        if r.random() < .3 and R > 1:       # chains of contained rows, repeated rows
            j, k = r.sample(range(R), 2)
            A[k] = [max(p, q) for p, q in zip(A[k], A[j])]
            if mode in (1, 2):
                b = [sum(p * q for p, q in zip(row, x)) for row in A]
        out.append((A, b))
    return out


def wide_systems(n, key):
    r = corpus.rng(SEED, "widesys", key)
    out = []
    for k in range(n):
        C = r.choice([60, 62, 63, 64, 65, 66, 70, 80, 100, 127, 128, 130])
        A = []
        cut = sorted(r.sample(range(1, C), r.randint(1, 4)))
        parts = [0] + cut + [C]
        for a, z in zip(parts, parts[1:]):
            A.append([1 if a <= c < z else 0 for c in range(C)])
        x = [0] * C
        for c in r.sample(range(C), r.randint(1, 2)):
            x[c] = 1
        A.append([1] * C)
        if r.random() < .6:
            A.append([1 if c in (0, C - 1, C // 2) else 0 for c in range(C)])
        r.shuffle(A)
        b = [sum(p * q for p, q in zip(row, x)) for row in A]
        if r.random() < .3:
            b[r.randrange(len(b))] += 1
        out.append((A, b))
    return out


def elim_long(job):
    """Equation r sums the unknowns up to r (in a shuffled order of equations)."""
    n, key, negative = job
    solver, srg = repo()
    from srg import gauss_elim
    import numpy as np
    r = corpus.rng(SEED, "long", key)
    x = [r.choice([0, 1, 1, 2]) for _ in range(n)]
    if negative:
        x[r.randrange(1, n)] = -1
    x[0] = n if negative else x[0]        # keeps all right-hand sides non-negative
    order = list(range(n))
    r.shuffle(order)
    A = np.tril(np.ones((n, n), dtype=np.int64))[order]
    b = A @ np.array(x)

    def go():
        try:
            return gauss_elim.elim(srg.array(A), srg.array(b))
        except srg.NoSolution:
            return None
    out, res = limited(120, go)
    e = {"op": "elimlong", "x": x, "out": out, "rows": [], "rb": [], "rcols": n}
    if out == "ok" and res is None:
        e["out"] = "nosolution"
    elif out == "ok":
        st, d = wellformed(lambda: dict(rows=[[j + 1 for j, a in enumerate(row) if a] for row in mat(res[0])], rb=vec(res[1]), rcols=int(res[0].shape[1])))
        e["out"] = st
        e.update(d or {})
    return e


def C11(c):
    c.prove("ParamProofs", ["Params"], "taking an equation off one that contains it keeps the non-negative solutions, for all numbers")
    c.model("Elimination", "SPECIFICATION Spec\nCONSTANTS Rows=%d Cols=%d MaxB=2\nINVARIANTS SolutionsKept HonestReport NonNegative ZeroOne\n"
            "PROPERTIES Ends\nCHECK_DEADLOCK FALSE\n" % ((3, 3) if THOROUGH else (3, 2)), "every order of eliminations on every small system")
    sy = []
    for R in (1, 2, 3):
        for C in (1, 2, 3):
            for A in itertools.product(itertools.product((0, 1), repeat=C), repeat=R):
                for b in itertools.product(range(3), repeat=R):
                    sy.append(([list(x) for x in A], list(b)))
    r = corpus.rng(SEED, "C11")
    if not THOROUGH:
        sy = r.sample(sy, 2500)
    sy += systems(30000 if THOROUGH else 3500, "C11") + wide_systems(400 if THOROUGH else 80, "C11")
    rq = [d for d in pmap(matrix_question, reached_matrices(3000 if THOROUGH else 500, "C11"), chunksize=20) if rows_ok(d) and d["cols"]]
    sy += [(d["A"], d["b"]) for d in rq if sum(d["b"]) < 40]
    ev = [e for e in pmap(elim_event, sy, chunksize=50) if e]
    c.counts["systems_skipped_too_many_solutions"] = len(sy) - len(ev)
    so = systems(3000 if THOROUGH else 600, "C11s")
    for _ in range(200):
        R, C = r.randint(1, 60), r.randint(1, 5)
        so.append(([[r.randint(0, 1) for _ in range(C)] for _ in range(R)], [r.randint(0, 9) for _ in range(R)]))
    for _ in range(200):                            # right-hand sides of every size
        R, C = r.randint(1, 12), r.randint(1, 4)
        so.append(([[r.randint(0, 1) for _ in range(C)] for _ in range(R)], [r.choice([0, 1, 5, 100, 127, 128, 129, 200, 255, 256, 257, 32767, 32768, 40000, 65536, 70000, 10**9]) for _ in range(R)]))
    ev += pmap(sort_event, so, chunksize=50)
    ev += pmap(elim_long, [(n, k, neg) for k, (n, neg) in enumerate([(1100, False), (150, True), (130, False), (80, True), (300, False)] + ([(1500, False), (600, True)] if THOROUGH else []))])
    c.conform("TraceRow", ev, "recorded eliminations and row sorts",
              nontrivial=sum(1 for e in ev if e["op"] == "elim" and (e["out"] != "ok" or e["rA"] != e["A"])),
              rule="distinct system; non-trivial: elimination changed the system or reported a contradiction")


# ------------------------------------------------------------------ C12, C13, C14

def compress_event(A):
    solver, srg = repo()
    from srg import unique
    nA = vlib.arr(A)

    def go():
        K, m, s = unique.reduce(nA)
        return K, m, s, unique.expand(K, m)
    out, res = limited(CPU, go)
    e = {"op": "compress", "A": A, "out": out, "kept": [], "mult": [], "starts": [], "back": [], "args": []}
    if out == "ok":
        st, d = wellformed(lambda: dict(kept=mat(res[0]), mult=vec(res[1]), starts=vec(res[2]), back=mat(res[3]), args=mat(nA)))
        e["out"] = st
        e.update(d or {})
    return e


def C12(c):
    c.model("Runs", "SPECIFICATION Spec\nCONSTANTS MaxRows=%d MaxCols=%d\nINVARIANTS Matches Lossless Differ Positive\nCHECK_DEADLOCK FALSE\n"
            % ((3, 5) if THOROUGH else (2, 5)), "every small matrix read column by column")
    ms = []
    for R in (1, 2, 3):
        for C in range(1, 6 if R < 3 else 5):
            for A in itertools.product(itertools.product((0, 1), repeat=C), repeat=R):
                ms.append([list(x) for x in A])
    r = corpus.rng(SEED, "C12")
    if not THOROUGH and len(ms) > 2500:
        ms = r.sample(ms, 2500)
    for _ in range(6000 if THOROUGH else 1200):
        R = r.choice([1, 2, 3, 5, 8, 20, 31, 32, 33, 62, 63, 64, 65, 66, 70, 90, 127, 128, 130])
        ncol = r.randint(1, 6)
        cols = [[r.randint(0, 1) for _ in range(R)] for _ in range(ncol)]
        # near misses: columns that differ in exactly one (often the first or last) row
        for _ in range(r.randint(0, 4)):
            base = list(r.choice(cols))
            j = r.choice([0, R - 1, r.randrange(R), max(0, R - 64), min(R - 1, 63), 1 % R])
            base[j] ^= 1
            if R > 2 and r.random() < .3:           # or moved by a row
                base[(j + 1) % R] ^= 1
            cols.insert(r.randint(0, len(cols)), base)
        A = []
        for col in cols:
            for _ in range(r.choice([1, 1, 2, 3, 7])):
                A.append(col)
        ms.append([[A[cc][i] for cc in range(len(A))] for i in range(R)])
    for _ in range(600 if THOROUGH else 120):
        A, C = near_columns(r)
        times = [r.choice([1, 1, 2]) for _ in range(C)]
        ms.append([[row[j] for j in range(C) for _ in range(times[j])] for row in A])
    for R, C in [(61, 200), (66, 210), (100, 220), (130, 140), (65, 260), (130, 256)] + ([(r.randint(40, 140), r.randint(100, 300)) for _ in range(60)] if THOROUGH else []):
        cols = [[r.randint(0, 1) for _ in range(R)] for _ in range(4)]
        for j in (0, R // 2, R - 1, R - 1):
            base = list(r.choice(cols))
            base[j] ^= 1
            cols.append(base)
        r.shuffle(cols)
        for j in (R - 1, 0):                        # neighbours that differ in the last or first row only
            base = list(cols[-1])
            base[j] ^= 1
            cols.append(base)
        at = sorted(r.sample(range(1, C), len(cols) - 1))
        A = [col for col, a, b in zip(cols, [0] + at, at + [C]) for _ in range(b - a)]
        ms.append([[A[cc][i] for cc in range(C)] for i in range(R)])
    for _ in range(60):
        C = r.randint(100, 300)
        runs = [r.randint(0, 1) for _ in range(4)]
        ms.append([[runs[(j * 4) // C] for j in range(C)]])
    for R, C in [(300, 27), (1050, 18), (2100, 18)]:                  # very many rows
        cols = [[r.randint(0, 1) for _ in range(R)]]
        for j in (R - 1, 0, R // 2, r.randrange(R)):
            cols.append([x ^ (i == j) for i, x in enumerate(cols[-1])])
        for j in (0, 5, R - 2, r.randrange(R - 1)):                 # a one moved by a row
            cols[-1][j:j + 2] = [1, 0]
            cols.append(cols[-1][:j] + [0, 1] + cols[-1][j + 2:])
        A = sorted(range(C), key=lambda x: x * len(cols) // C)
        ms.append([[cols[x * len(cols) // C][i] for x in A] for i in range(R)])
    for C in (5000, 9000, 20000):            # very many runs
        ms.append([[x % 2 for x in range(C)]])
        ms.append([[r.randint(0, 1) for _ in range(C)]])
    for C in [300, 400, 513, 600, 1100, 2000, 34000, 66000] + ([r.randint(260, 3000) for _ in range(40)] if THOROUGH else []):     # runs that start far out
        R = r.randint(1, 2) if C > 3000 else r.randint(2, 4)
        at = sorted(r.sample(range(1, C), 4) + [C - 1, C - r.randint(2, 20)])
        col = [r.randint(0, 1) for _ in range(R)]
        A = []
        for a, b in zip([0] + at, at + [C]):
            A += [list(col)] * (b - a)
            col[r.randrange(R)] ^= 1
        ms.append([[A[cc][i] for cc in range(C)] for i in range(R)])
    ev = pmap(compress_event, ms, chunksize=50)
    c.conform("TraceRow", ev, "recorded compressions and expansions", nontrivial=sum(1 for e in ev if len(e["mult"]) > 1 and max(e["mult"]) > 1),
              rule="distinct matrix; non-trivial: several runs, at least one longer than one")


def place_event(job):
    s, bounds, form = job
    vlib.import_repo()
    from srg import partition
    import numpy as np
    arg = {"list": list, "tuple": tuple, "array": np.array}[form](bounds)
    out, res = limited(CPU, lambda: list(partition.enum(s, arg)))
    # the specification's numbers are small: of a huge total, the last place is told by how much more than all but 1000 it holds
    off = s - 1000 if s > 10 ** 6 else 0
    if out == "ok":
        out, res = wellformed(lambda: [vec(list(x[:-1]) + [x[-1] - off for _ in x[:1]]) for x in res])
    s -= off
    bounds = bounds[:-1] + [bounds[-1] - off]
    bounds = [min(b, s + 7) for b in bounds]    # more room than there is to place is all the same
    return {"op": "place", "s": s, "bounds": bounds, "out": out, "list": res if out == "ok" else []}


def C13(c):
    c.model("Placements", "SPECIFICATION Spec\nCONSTANTS MaxLen=%d MaxBound=2 MaxTotal=7\nINVARIANTS OnlyPlacements Ascending CompleteAtEnd ListAccepted PrefixRefused\n"
            "PROPERTIES Ends\nCHECK_DEADLOCK FALSE\n" % (5 if THOROUGH else 4), "every total and every small bound list, walked from least to last")
    jobs = []
    for n in (1, 2, 3, 4):
        for bounds in itertools.product(range(4), repeat=n):
            for s in range(sum(bounds) + 3):
                jobs.append((s, list(bounds), "list"))
    r = corpus.rng(SEED, "C13")
    if not THOROUGH:
        jobs = r.sample(jobs, 1800)
    while len(jobs) < (9000 if THOROUGH else 2600):
        n = r.randint(1, 9)
        bounds = [r.choice([0, 1, 1, 2, 3, 5, 9]) for _ in range(n)]
        s = r.choice([0, 1, 2, r.randint(0, sum(bounds) + 2), sum(bounds), max(0, sum(bounds) - 1), sum(bounds) + 1])
        e = 1
        for b in bounds:
            e *= b + 1
        if e <= 3000:
            jobs.append((s, bounds, r.choice(["list", "tuple", "array"])))
    for n in (30, 64, 100, 200):
        jobs.append((1, [1] * n, "list"))
        jobs.append((0, [2] * n, "tuple"))
        jobs.append((1, [0] * (n - 1) + [1], "list"))
    for _ in range(300):        # mostly places without room
        n = r.randint(8, 30)
        bounds = [0] * n
        for j in r.sample(range(n), r.randint(0, 4)):
            bounds[j] = r.choice([1, 1, 2, 4])
        jobs.append((max(0, r.choice([0, 1, sum(bounds), sum(bounds) // 2, sum(bounds) + 1])), bounds, r.choice(["list", "tuple", "array"])))
    for n in (5, 7, 8):
        jobs.append((2 * n, [2] * n, "list"))
        jobs.append((2 * n - 1, [2] * n, "array"))
    for b in (100, 127, 128, 255, 256, 300):
        jobs.append((b, [b, b], "array"))
        jobs.append((2 * b, [b, b], "list"))
    for e in (7, 9, 12, 15, 18, 25) if not THOROUGH else range(7, 60):      # totals and bounds beyond every machine number
        for d in (0, 1, -2):
            S = 10 ** e + d
            few = [r.choice([0, 1, 2, 3, 5]) for _ in range(r.randint(0, 4))]
            jobs.append((S, few + [S], "list"))
            jobs.append((S, few + [S - r.choice([0, 1, 2, sum(few), sum(few) + 1])], "tuple"))
            jobs.append((sum(few) + 2, few + [S] + few[:1], "list"))
            jobs.append((2, [S] * r.randint(1, 5), "tuple"))
    ev = pmap(place_event, jobs, chunksize=50)
    c.conform("TraceRow", ev, "recorded enumerations of placements", nontrivial=sum(1 for e in ev if len(e["list"]) > 1),
              rule="distinct (total, bounds, container); non-trivial: at least two placements")


def binarize_events(job):
    """An answer expanded, and expanded again after its values were changed in place (as the steps do)."""
    loc, n, v, later = job
    solver, srg = repo()
    import numpy as np

    def make():
        return srg.Answer(value=vlib.arr(v, job, small=False), location=np.array(loc, dtype=int), len=n)
    out, a = limited(CPU, make)
    if out != "ok":
        return [{"op": "binarize", "loc": loc, "len": n, "v": v, "sizes": [], "vec": [], "args": [v, loc], "out": out}]
    evs = []
    for k, w in enumerate([v] + later):
        if k:
            d_search.ans_v(a)[:] = w
        e = {"op": "binarize", "loc": loc, "len": n, "v": w, "sizes": [], "vec": [], "args": [w, loc]}
        out, s = limited(CPU, lambda: a.quota)
        st, d = wellformed(lambda: vec(s)) if out == "ok" else (out, None)
        e["sizes"] = d if d is not None else [-9]
        out, y = limited(CPU, lambda: a.binarize())
        if out == "ok":
            out, d = wellformed(lambda: vec(y))
            e["vec"] = d or []
            if k % 2 == 0 and isinstance(y, np.ndarray):
                y[:] = 7                            # what was handed out belongs to the caller
        e["out"] = out
        st, d = wellformed(lambda: [vec(d_search.ans_v(a)), vec(d_search.ans_loc(a))])
        e["args"] = d or []
        evs.append(e)
    return evs


def runs_of(y):
    """Maximal runs of equal entries: [value, how often]."""
    res = []
    for x in y:
        if res and res[-1][0] == x:
            res[-1][1] += 1
        else:
            res.append([x, 1])
    return res


def binarize_long(job):
    loc, n, v = job
    solver, srg = repo()
    import numpy as np
    out, y = limited(CPU, lambda: srg.Answer(value=srg.array(v), location=np.array(loc), len=n).binarize())
    if out == "ok":
        out, y = wellformed(lambda: runs_of(vec(y)))
    return {"op": "binruns", "loc": loc, "len": n, "v": v, "out": out, "runs": y if out == "ok" else []}


def C14(c):
    c.model("Buckets", "SPECIFICATION Spec\nCONSTANTS MaxLen=%d\nINVARIANTS Agrees Fits Ones2\nCHECK_DEADLOCK FALSE\n" % (5 if THOROUGH else 4),
            "every division of a short vector into buckets, every value of each bucket")
    jobs = []
    for n in range(1, 6):
        for k in range(n):
            for rest in itertools.combinations(range(1, n), k):
                loc = [0] + list(rest)
                sizes = [b - a for a, b in zip(loc, loc[1:] + [n])]
                for v in itertools.product(*[range(-1, s + 2) for s in sizes]):
                    jobs.append((loc, n, list(v), []))
    r = corpus.rng(SEED, "C14")
    if not THOROUGH:
        jobs = r.sample(jobs, 2500)
    for _ in range(4000 if THOROUGH else 1200):
        n = r.choice([r.randint(5, 40), r.randint(60, 140), r.randint(250, 300)])
        loc = [0] + sorted(r.sample(range(1, n), r.randint(0, min(n - 1, 12 if r.random() < .8 else 250))))
        sizes = [b - a for a, b in zip(loc, loc[1:] + [n])]
        v = [r.choice([0, s, r.randint(0, s)]) for s in sizes]
        if r.random() < .3:
            j = r.randrange(len(v)) if r.random() < .7 else len(v) - 1
            v[j] = r.choice([-1, sizes[j] + 1, sizes[j] + 2])
            if r.random() < .5 and len(v) > 1:      # compensated elsewhere
                k = r.randrange(len(v))
                if k != j and v[k] > 0:
                    v[k] -= 1
        later = []
        if r.random() < .4:
            for _ in range(2):
                w = [r.choice([0, s, r.randint(0, s)]) for s in sizes]
                if r.random() < .3:
                    w[r.randrange(len(w))] = -1
                later.append(w)
        jobs.append((loc, n, v, later))
    ev = [e for es in pmap(binarize_events, jobs, chunksize=50) for e in es]
    long = []
    for n in [200, 1000, 33000, 40000, 66000, 100000] * (10 if THOROUGH else 4):
        loc = [0] + sorted(r.sample(range(1, n), r.randint(1, 9)))
        sizes = [b - a for a, b in zip(loc, loc[1:] + [n])]
        v = [r.choice([0, s, s - 1, r.randint(0, s), min(s, r.randint(0, 3))]) for s in sizes]
        if r.random() < .2:
            j = r.randrange(len(v))
            v[j] = sizes[j] + 1
        long.append((loc, n, v))
    for n in [600, 1500] * (10 if THOROUGH else 2):      # very many buckets
        loc = [0] + sorted(r.sample(range(1, n), n // r.randint(2, 3)))
        sizes = [b - a for a, b in zip(loc, loc[1:] + [n])]
        v = [r.choice([0, s, r.randint(0, s)]) for s in sizes]
        if r.random() < .4:
            j = r.randrange(len(v) // 3, len(v))
            v[j] = r.choice([-1, sizes[j] + 1])
        long.append((loc, n, v))
    ev += pmap(binarize_long, long)
    c.conform("TraceRow", ev, "recorded expansions of answers", nontrivial=sum(1 for e in ev if e["out"] == "ok" and len(e["loc"]) > 1),
              rule="distinct answer; non-trivial: expanded, with at least two buckets")


# ------------------------------------------------------------------ C23

def bounds_event(job):
    A, b, bd = job
    solver, srg = repo()
    from srg import bounds
    nA, nb, nbd = vlib.arr(A, job, cols=len(bd)), vlib.arr(b, (job, 1)), vlib.arr(bd, (job, 2))

    def go():
        bounds.lower_upper_bound(nA, nb, nbd)
        return bounds.zero_bound_loc(nbd)
    out, z = limited(CPU, go)
    e = {"op": "bounds", "A": A, "b": b, "bounds": bd, "out": out, "tight": [], "zeros": [], "A2": [], "b2": []}
    if out == "ok":
        st, d = wellformed(lambda: dict(tight=vec(nbd), zeros=vec(z), A2=mat(nA), b2=vec(nb)))
        e["out"] = st
        e.update(d or {})
    return e


def alone_event(A):
    solver, srg = repo()
    from srg import bounds
    nA = vlib.arr(A)
    out, res = limited(CPU, lambda: list(bounds.one_element_row_locs(nA)))
    if out == "ok":
        out, res = wellformed(lambda: [vec(x) for x in res])
    return {"op": "alone", "A": A, "out": out, "pairs": res if out == "ok" else []}


def C23(c):
    c.prove("ParamProofs", ["Params"], "no unknown exceeds the right-hand side of an equation it occurs in, for all numbers")
    model_row(c, ["NothingLost", "WellFormed"])
    r = corpus.rng(SEED, "C23")
    jobs = []
    for j, (A, b) in enumerate(systems(9000 if THOROUGH else 2500, "C23") + wide_systems(60, "C23")):
        C = len(A[0])
        jobs.append((A, b, [r.choice([0, 1, 2, 3, 5, 130, 256, 512, 65536] if j % 3 else [0, 1, 2, 3]) for _ in range(C)]))
    for C in (1, 2):
        for A in itertools.product(itertools.product((0, 1), repeat=C), repeat=2):
            for b in itertools.product(range(3), repeat=2):
                for bd in itertools.product(range(3), repeat=C):
                    jobs.append(([list(x) for x in A], list(b), list(bd)))
    ev = pmap(bounds_event, jobs, chunksize=50)
    ms = [A for A, b in systems(9000 if THOROUGH else 2500, "C23a") + wide_systems(60, "C23a")]
    for _ in range(600):     # many rows with a single entry
        R, C = r.randint(1, 8), r.randint(1, 8)
        A = []
        for _ in range(R):
            k = r.choice([0, 1, 1, 1, 2, 3])
            s = set(r.sample(range(C), min(k, C)))
            A.append([1 if x in s else 0 for x in range(C)])
        ms.append(A)
    for R, C in ((260, 4), (400, 7), (300, 260), (5, 400), (70, 140)):
        for _ in range(4 if THOROUGH else 1):
            A = []
            for _ in range(R):
                s = set(r.sample(range(C), min(C, r.choice([1, 2, 2, 3]))))
                A.append([1 if x in s else 0 for x in range(C)])
            A[-1] = [1 if x == C - 1 else 0 for x in range(C)]
            ms.append(A)
            ev.append(bounds_event((A, [r.choice([0, 1, 2, 129, 300, 40000]) for _ in A], [r.choice([1, 2, 130, 260, 70000]) for _ in range(C)])))
            ms.append([list(x) for x in A[:-1]] + [[1] * C])
    ev += pmap(alone_event, ms, chunksize=50)
    c.conform("TraceRow", ev, "recorded bound tightenings and unknowns standing alone",
              nontrivial=sum(1 for e in ev if (e["op"] == "bounds" and e["tight"] != e["bounds"]) or (e["op"] == "alone" and e["pairs"])),
              rule="distinct system; non-trivial: a capacity was lowered, or an unknown stands alone")


# ------------------------------------------------------------------ C25

def mutators():
    """Steps as a debugging user might write them: correct ones, corrupting ones, raising ones."""
    solver, srg = repo()
    import numpy as np

    def m(name):
        def deco(f):
            f.__name__ = name
            return f
        return deco

    @m("nothing")
    def f0(Q):
        return 42

    @m("negative_b")
    def f1(Q):
        if Q.b.size:
            Q.b[-1] = -1
        return "neg"

    @m("negative_bounds")
    def f2(Q):
        if Q.bounds.size:
            Q.bounds[0] = -2

    @m("drop_row")
    def f3(Q):
        Q.A = Q.A[:-1]

    @m("drop_col")
    def f4(Q):
        Q.A = Q.A[:, 1:]

    @m("overfull")
    def f5(Q):
        a = Q.answer
        known = [j for j in range(len(d_search.ans_v(a))) if d_search.ans_v(a)[j] != a.UNKNOWN]
        if known:
            d_search.ans_v(a)[known[-1]] = a.quota[known[-1]] + 1

    @m("exactly_full")
    def f6(Q):
        a = Q.answer
        for j in range(len(d_search.ans_v(a))):
            if d_search.ans_v(a)[j] != a.UNKNOWN:
                d_search.ans_v(a)[j] = a.quota[j]

    @m("decide_without_column")
    def f7(Q):
        a = Q.answer
        if len(a.unknown_loc):
            d_search.ans_v(a)[a.unknown_loc[0]] = 0

    @m("all_decided")
    def f8(Q):
        a = Q.answer
        for j in a.unknown_loc:
            d_search.ans_v(a)[j] = 0
        Q.A = Q.A[:, :0]
        Q.bounds = Q.bounds[:0]

    @m("all_decided_and_satisfied")
    def f9(Q):
        f8(Q)
        Q.b = Q.b * 0
        return [1, 2]

    @m("no_solution_after_change")
    def f10(Q):
        if Q.b.size:
            Q.b = Q.b + 1
        raise srg.NoSolution("none")

    @m("corrupt_then_no_solution")
    def f11(Q):
        if Q.b.size:
            Q.b[0] = -5
        raise srg.NoSolution("none")

    @m("key_error")
    def f12(Q):
        raise KeyError("x")

    @m("drop_b")
    def f13(Q):
        Q.b = Q.b[1:]

    @m("drop_bound")
    def f14(Q):
        Q.bounds = Q.bounds[:-1]

    @m("zero_equations")
    def f15(Q):
        if Q.A.shape[0]:
            Q.A = Q.A[1:]
            Q.b = Q.b[1:]
        return None

    @m("last_b_wrong_without_columns")
    def f16(Q):
        f8(Q)
        Q.b = Q.b * 0
        if Q.b.size:
            Q.b[-1] = 1

    @m("refused_by_setter")
    def f17(Q):
        Q.quota = -1

    @m("zero_capacities")
    def h0(Q):
        Q.bounds = Q.bounds * 0
        return Q.bounds.size

    @m("zero_right_hand_sides")
    def h1(Q):
        Q.b[...] = 0

    @m("capacity_minus_one")
    def h2(Q):
        if Q.bounds.size:
            Q.bounds[-1] = -1

    @m("first_b_minus_one")
    def h3(Q):
        if Q.b.size:
            Q.b[0] = -1

    @m("column_gone_but_not_its_unknown")
    def h4(Q):
        if Q.A.shape[1]:
            Q.A, Q.bounds = Q.A[:, :-1], Q.bounds[:-1]

    @m("column_without_unknown")
    def h5(Q):
        Q.A = np.hstack([Q.A, Q.A[:, :1]])
        Q.bounds = np.hstack([Q.bounds, Q.bounds[:1]])

    @m("equation_more")
    def h6(Q):
        Q.A = np.vstack([Q.A, Q.A[:1]])

    @m("b_more")
    def h7(Q):
        Q.b = np.hstack([Q.b, [1]])

    @m("capacity_more")
    def h8(Q):
        Q.bounds = np.hstack([Q.bounds, [1]])

    @m("first_overfull")
    def h9(Q):
        a = Q.answer
        known = [j for j in range(len(d_search.ans_v(a))) if d_search.ans_v(a)[j] != a.UNKNOWN]
        if known:
            d_search.ans_v(a)[known[0]] = a.quota[known[0]] + 1

    @m("decided_properly")
    def h10(Q):
        a = Q.answer
        if len(a.unknown_loc):
            j = a.unknown_loc[0]
            d_search.ans_v(a)[j] = a.quota[j]
            Q.A, Q.bounds = Q.A[:, 1:], Q.bounds[1:]

    @m("first_b_wrong_without_columns")
    def h11(Q):
        f8(Q)
        Q.b = Q.b * 0
        if Q.b.size:
            Q.b[0] = 1

    @m("column_more")
    def h12(Q):
        R, C = Q.A.shape
        Q.A = np.hstack([Q.A, srg.ones((R, 2))])
        Q.bounds = np.append(Q.bounds, [1, 1])
        a = Q.answer
        Q.answer = srg.Answer(np.append(d_search.ans_v(a), [-1, -1]), np.append(d_search.ans_loc(a), [len(a), len(a) + 1]), len(a) + 2)

    @m("returns_iterator")
    def g0(Q):
        if Q.b.size:
            Q.b = Q.b * 1
        return iter([1, 2, 3])

    @m("returns_generator")
    def g1(Q):
        return (x for x in Q.bounds.tolist())

    @m("yields")
    def g2(Q):
        yield 1
        if Q.b.size:
            Q.b[-1] += 0
        yield 2

    @m("returns_zero")
    def g3(Q):
        return 0

    @m("returns_empty")
    def g4(Q):
        return []

    @m("returns_false")
    def g5(Q):
        return False

    @m("returns_pair")
    def g6(Q):
        return (Q.A.shape, None)

    @m("returns_array")
    def g7(Q):
        return Q.b

    @m("returns_question")
    def g8(Q):
        return Q

    @m("yields_then_raises")
    def g9(Q):
        yield 1
        raise srg.NoSolution("late")

    fs = [h0, h1, h2, h3, h4, h5, h6, h7, h8, h9, h10, h11, g0, g1, g2, g3, g4, g5, g6, g7, g8, g9, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17]
    return {f.__name__: f for f in fs}


def loose(q):
    """Snapshot of a possibly corrupted question."""
    A = q.A
    return {"A": mat(A), "b": vec(q.b), "quota": num(q.quota), "bounds": vec(q.bounds), "v": vec(d_search.ans_v(q.answer)),
            "loc": vec(d_search.ans_loc(q.answer)), "len": num(len(q.answer)), "rows": int(A.shape[0]), "cols": int(A.shape[1])}


def shown(ret, q):
    """What a caller sees of a returned value, an iterator by what it delivers."""
    if ret is q:
        return "the question itself"
    if ret is q.b:
        return "the question's right-hand sides"
    if hasattr(ret, "__next__"):
        got = []
        out, _ = limited(CPU, lambda: got.extend(itertools.islice(ret, 50)))
        return "iterator of %r, %s" % (got, out)
    return repr(ret)


def wrap_event(job):
    d, name, pre = job
    solver, srg = repo()
    from srg import utils
    fn = mutators()[name] if not hasattr(solver, name) else getattr(solver, name)

    def run(f):
        q = build(d)
        if pre:                 # the question is already broken when the step gets it
            limited(CPU, mutators()[pre], q)
        out, ret = limited(CPU, f, q)
        return {"out": out, "ret": shown(ret, q) if out == "ok" else "", "after": loose(q)}
    plain = run(fn)
    out, w = limited(CPU, lambda: utils.debug(fn))
    if out != "ok":
        return {"op": "wrap", "name": name, "q": d, "plain": plain, "wrapped": {"out": "wrapping " + out, "ret": "", "after": plain["after"]}}
    return {"op": "wrap", "name": name, "pre": pre or "", "q": d, "plain": plain, "wrapped": run(w)}


def C25(c):
    c.model("Wrapper", "SPECIFICATION Spec\nINVARIANTS Transparent ReportsExactly\nCHECK_DEADLOCK FALSE\n",
            "every outcome of a step on a small question, plain and wrapped")
    names = list(mutators()) + STEPS
    qs = questions(1200 if THOROUGH else 150, "C25") + questions(600 if THOROUGH else 60, "C25t", tight=True) \
        + exhaustive_questions(400 if THOROUGH else 40, "C25")
    # nothing left to decide
    qs.append({"A": [[], []], "b": [0, 0], "quota": 0, "bounds": [], "v": [1, 0], "loc": [0, 2], "len": 3, "rows": 2, "cols": 0})
    qs.append({"A": [], "b": [], "quota": 0, "bounds": [], "v": [1, 1], "loc": [0, 2], "len": 3, "rows": 0, "cols": 0})
    qs = [q for q in qs if q["A"]]
    big = wide_questions(20 if THOROUGH else 5, "C25") + large_questions((90,)) + huge_questions(40 if THOROUGH else 10, "C25") \
        + [many_buckets(k, "C25") for k in range(20 if THOROUGH else 5)]
    pre = ["overfull", "all_decided", "last_b_wrong_without_columns"]     # broken in ways the guards let pass
    jobs = [(q, n, None) for q in qs for n in names]
    jobs += [(q, n, None) for q in big for n in names]
    jobs += [(q, n, x) for q in qs[::3] for x in pre for n in ("nothing", "zero_equations", "exactly_full", names[len(jobs) % len(names)])]
    ev = pmap(wrap_event, jobs, chunksize=50)
    c.conform("TraceRow", ev, "steps run plain and wrapped", nontrivial=sum(1 for e in ev if e["plain"]["after"] != e["q"]),
              rule="distinct (question, step); non-trivial: the step changed the question")
