"""Drivers for complete and partial matrices and for parameters: C15, C16, C17, C18, C26, C27."""
import itertools
import vlib, corpus, d_search
from vlib import limited, wellformed, mat, vec, num, pmap, THOROUGH, SEED

CPU = 30.0


def mods():
    vlib.import_repo()
    from srg import solver, srg, sorter, utils
    return solver, srg, sorter, utils


# ------------------------------------------------------------------ graphs

def random_graph(r, n):
    kind = r.randrange(9)
    if kind == 0:
        d = r.choice([0.0, 1.0])
    else:
        d = r.choice([.1, .3, .5, .5, .7, .9])
    g = corpus.from_rule(n, lambda i, j: False)
    for i in range(n):
        for j in range(i):
            if r.random() < d:
                g[i][j] = g[j][i] = 1
    if kind == 1 and n > 1:            # many twins: copies of a few vertices
        cls = [r.randrange(max(1, n // 3)) for _ in range(n)]
        h = corpus.from_rule(n, lambda i, j: False)
        for i in range(n):
            for j in range(i):
                x, y = sorted((cls[i], cls[j]))
                if x != y and ((x * 7 + y * 13 + n) % 5 < 2):
                    h[i][j] = h[j][i] = 1
        g = h
    if kind == 2:                      # one vertex adjacent to all others, anywhere
        a = r.randrange(n)
        for j in range(n):
            if j != a:
                g[a][j] = g[j][a] = 1
    if kind == 3:                      # an isolated vertex
        a = r.randrange(n)
        for j in range(n):
            g[a][j] = g[j][a] = 0
    if kind == 4:                      # cliques or a complete multipartite graph
        parts = [r.randrange(max(1, n // 2)) for _ in range(n)]
        same = r.random() < .5
        g = corpus.from_rule(n, lambda i, j: (parts[i] == parts[j]) == same)
    if kind == 5:                      # almost sorted first row
        for j in range(1, n):
            g[0][j] = g[j][0] = 1 if j <= n // 2 else 0
    return g


def small_graphs(n):
    P = list(itertools.combinations(range(n), 2))
    for bits in itertools.product((0, 1), repeat=len(P)):
        g = [[0] * n for _ in range(n)]
        for (a, b), x in zip(P, bits):
            g[a][b] = g[b][a] = x
        yield g


def shuffled(g, r):
    pi = list(range(len(g)))
    r.shuffle(pi)
    return corpus.relabel(g, pi)


# ------------------------------------------------------------------ C15

def sort_event(job):
    mats, orders = job
    solver, srg, sorter, utils = mods()
    index = {}
    for j, m in enumerate(mats):
        index.setdefault(repr(m), j + 1)
    runs, outcome = [], "ok"
    for idx, form in orders:
        given = [vlib.arr(mats[j], (idx, j) if len(idx) % 3 == 0 or len(idx) > 6 else idx) for j in idx]
        keep = list(given)

        def go():
            arg = {"list": lambda: given, "iter": lambda: iter(given), "gen": lambda: (x for x in given),
                   "tuple": lambda: tuple(given)}[form]()
            return list(sorter.sort(arg))
        out, res = limited(CPU, go)
        if out == "ok":
            out, got = wellformed(lambda: [index.get(repr(mat(x)), 0) for x in res])
        if out != "ok":
            outcome = out
            break
        st, after = wellformed(lambda: [index.get(repr(mat(x)), 0) for x in given])
        if len(given) != len(keep) or any(a is not b for a, b in zip(given, keep)):
            after = [0]
        runs.append({"given": [index[repr(mats[j])] for j in idx], "sorted": got, "after": after if after is not None else [0]})
    return {"op": "sort", "mats": mats, "out": outcome, "runs": runs}


def sort_orders(r, n, k=3):
    first = [r.randrange(n) if r.random() < .1 else j for j in range(n)]     # now and then a matrix twice
    out = []
    for j in range(k):
        idx = list(first)
        if j == 1:
            idx.reverse()
        else:
            r.shuffle(idx)
        out.append((idx, r.choice(["list", "list", "iter", "gen", "tuple"])))
    return out


def C15(c):
    c.model("Sorting", "SPECIFICATION Spec\nCONSTANTS Order=3 MaxLen=%d\nINVARIANTS Determined Antisymmetric Ascending SortedAtEnd LossSeen\n"
            "PROPERTIES Ends\nCHECK_DEADLOCK FALSE\n" % (4 if THOROUGH else 3), "every list of graphs on 3 vertices, inserted in every order")
    r = corpus.rng(SEED, "C15")
    jobs = []
    for n in (2, 3):
        gs = list(small_graphs(n))
        jobs.append((gs, sort_orders(r, len(gs), 6)))
    for n in (4, 5):
        gs = list(small_graphs(n))
        for _ in range(20 if THOROUGH else 6):
            s = r.sample(gs, min(len(gs), 20))
            jobs.append((s, sort_orders(r, len(s))))
    for _ in range(3000 if THOROUGH else 500):
        n = r.choice([2, 3, 5, 6, 8, 9, 10, 13, 16, 25, 40])
        gs = [random_graph(r, n)]
        for _ in range(r.randint(0, 9)):
            g = [list(x) for x in r.choice(gs)]
            if r.random() < .8:        # differs in a single, often late, pair
                a, b = sorted(r.sample(range(n), 2)) if r.random() < .5 else (n - 2, n - 1)
                g[a][b] = g[b][a] = 1 - g[a][b]
            else:
                g = random_graph(r, n)
            if g not in gs:
                gs.append(g)
        jobs.append((gs, sort_orders(r, len(gs))))
    for n in (70, 130):                # far more entries than a machine word
        g = random_graph(r, n)
        gs = [g]
        for a, b in [(0, n - 1), (n - 2, n - 1), (1, 2), (n // 2, n // 2 + 1)]:
            h = [list(x) for x in g]
            h[a][b] = h[b][a] = 1 - h[a][b]
            gs.append(h)
        jobs.append((gs, sort_orders(r, len(gs))))
    gs = list(small_graphs(5))         # a long list, in order, the other way round, shuffled
    r.shuffle(gs)
    asc = sorted(range(len(gs)), key=lambda j: [gs[j][a][b] for a in range(5) for b in range(a + 1, 5)])
    jobs.append((gs, [(asc + asc[:30], "list"), (asc[:30] + asc[::-1], "iter"), (list(range(len(gs))) + asc[:30], "gen")]))
    # results of the enumeration itself, and a single or no matrix
    jobs.append(([], [([], "list"), ([], "iter")]))
    for p in corpus.cheap(4, 16, 1.0)[:: (1 if THOROUGH else 4)]:
        res = solve_some(p, 20)
        if 1 < len(res) <= 20:
            jobs.append((res, sort_orders(r, len(res))))
    ev = pmap(sort_event, jobs, chunksize=5)
    c.conform("TraceGraph", ev, "recorded sorts of lists of matrices, each in several input orders",
              nontrivial=sum(1 for e in ev if len(e["mats"]) > 2), rule="distinct list; non-trivial: at least three different matrices")


# ------------------------------------------------------------------ C16

def stable_witness(m):
    """The relabelling that stable sorting of blocks, row after row, leads to."""
    n = len(m)
    order = list(range(n))
    for r in range(n):
        blocks = {}
        for pos in range(r + 1, n):
            key = tuple(m[order[i]][order[pos]] for i in range(r))
            blocks.setdefault(key, []).append(pos)
        new = list(order)
        for B in blocks.values():
            vs = [order[x] for x in B]
            vs.sort(key=lambda x: -m[order[r]][x])
            for x, y in zip(B, vs):
                new[x] = y
        order = new
    return order


def witness(m, w, limit=200000):
    """Some relabelling pi with first vertex fixed and w = m relabelled by pi; [] if there is none; None if not found in time."""
    n = len(m)
    try:
        if len(w) != n or any(len(x) != n for x in w):
            return []
    except TypeError:
        return []
    pi = stable_witness(m)
    if corpus.relabel(m, pi) == w:
        return pi
    steps = 0
    used, order = [False] * n, [0]
    used[0] = True
    degm = [sum(x) for x in m]
    degw = [sum(x) for x in w]
    if degm[0] != degw[0] or sorted(degm) != sorted(degw):
        return []

    def candidates(pos):
        return [x for x in range(n) if not used[x] and degm[x] == degw[pos] and m[x][x] == w[pos][pos]
                and all(m[x][order[i]] == w[pos][i] for i in range(pos))]
    stack = [iter(candidates(1))] if n > 1 else []
    if n == 1:
        return [0] if m == w else []
    while stack:
        steps += 1
        if steps > limit:
            return None
        pos = len(stack)
        while len(order) > pos:
            used[order.pop()] = False
        try:
            x = next(stack[-1])
        except StopIteration:
            stack.pop()
            continue
        order.append(x)
        used[x] = True
        if len(order) == n:
            return list(order)
        stack.append(iter(candidates(len(order))))
    return []


def max_events(job):
    """A graph maximized, and again after an edge was changed in the same array."""
    m, again = job
    solver, srg, sorter, utils = mods()
    a = vlib.arr(m)
    evs = []
    for k in range(2 if again else 1):
        if k:
            x, y = again
            m = [list(row) for row in m]
            m[x][y] = m[y][x] = 1 - m[x][y]
            a[x, y] = a[y, x] = m[x][y]
        out, res = limited(CPU, sorter.maximize, a)
        if out == "ok":
            out, res = wellformed(mat, res)
        st, after = wellformed(mat, a)
        e = {"op": "max", "m": m, "out": out, "max": res if out == "ok" else [], "pi": [], "after": after or []}
        if out == "ok":
            pi = witness(m, res)
            if pi is None:
                return evs + [None]
            e["pi"] = [x + 1 for x in pi]
        evs.append(e)
        if after != m:
            break
    return evs


def swap_event(job):
    m, a, b, name = job
    solver, srg, sorter, utils = mods()
    x = vlib.arr(m, job)
    out, res = limited(CPU, getattr(sorter, name), x, a, b)
    if out == "ok":
        out, res = wellformed(mat, res)
    st, after = wellformed(mat, x)
    return {"op": "swap", "name": name, "m": m, "a": a, "b": b, "out": out, "r": res if out == "ok" else [], "after": after or []}


def C16(c):
    for n, st in ((5, "TRUE"), (4, "FALSE")) if THOROUGH else ((4, "TRUE"), (3, "FALSE")):
        c.model("Maximize", "SPECIFICATION Spec\nCONSTANTS MaxOrder=%d Stable=%s\nINVARIANTS Relabelled FirstStays RowsDone %s\n"
                "PROPERTIES %s Ends\nCHECK_DEADLOCK FALSE\n" % (n, st, "AtEnd" if st == "TRUE" else "AtEndAnyTies", "NeverDown" if st == "TRUE" else ""),
                "every graph on up to %d vertices, blocks handled in every order%s" % (n, "" if st == "TRUE" else ", ties broken in every way"))
    r = corpus.rng(SEED, "C16")
    gs = []
    for n in (2, 3, 4, 5):
        gs += list(small_graphs(n))
    six = list(small_graphs(6)) if THOROUGH else []
    gs += six
    for _ in range(20000 if THOROUGH else 1800):
        gs.append(random_graph(r, r.choice([6, 6, 7, 7, 8, 9, 10, 12, 15, 20])))
    for _ in range(200 if THOROUGH else 40):
        gs.append(random_graph(r, r.choice([30, 40, 65, 70])))
    for n in (131, 259, 270) + ((300, 280, 400, 520) if THOROUGH else ()):
        gs.append(random_graph(r, n))
    for name in corpus.SMALL + corpus.MIDDLE + corpus.LARGE[:12]:
        g = corpus.graph(name)
        for _ in range(6 if len(g) < 20 else 2):
            gs.append(shuffled(g, r))
    js = [(g, r.sample(range(len(g)), 2) if len(g) < 25 and j % 4 == 1 else None) for j, g in enumerate(gs)]
    ev = [e for es in pmap(max_events, js, chunksize=25) for e in es]
    c.counts["isomorphism_undecided"] = sum(1 for e in ev if e is None)
    ev = [e for e in ev if e]
    sw = []
    for g in gs[:70] + r.sample(gs, 300) + [g for g in gs if len(g) > 130]:
        n = len(g)
        a, b = r.randrange(n), r.randrange(n)
        sw.append((g, a, b, r.choice(["swap", "swap_and_verify"])))
        sw.append((g, 0, n - 1, "swap"))
        sw.append((g, n - 1, r.randrange(n), "swap_and_verify"))
    ev += pmap(swap_event, sw, chunksize=50)
    c.conform("TraceGraph", ev, "recorded maximizations and exchanges",
              nontrivial=sum(1 for e in ev if e["op"] == "max" and e["max"] != e["m"]) + sum(1 for e in ev if e["op"] == "swap" and e["a"] != e["b"]),
              rule="distinct graph (and exchange); non-trivial: the matrix changed")


# ------------------------------------------------------------------ C17

FORMS = ["srg", "int8", "int16", "int32", "int64", "F", "view", "transposed", "uint8", "bool"]


def as_form(m, form):
    """The matrix m in another memory representation (unsigned and bool only where no sign is needed)."""
    solver, srg, sorter, utils = mods()
    import numpy as np
    if form == "srg":
        return srg.array(m)
    if form == "F":
        return np.asfortranarray(srg.array(m))
    if form == "view":
        n = len(m)
        big = np.full((n + 3, n + 2), 7, dtype=np.int64)
        big[2:n + 2, 1:n + 1] = m
        return big[2:n + 2, 1:n + 1]
    if form == "transposed":
        return np.array([list(c) for c in zip(*m)], dtype=np.int32).T
    return np.array(m, dtype=form)


def compl_events(job):
    """Complements of a graph, and again after an edge was changed in the same array."""
    m, p, form, again = job
    solver, srg, sorter, utils = mods()
    a = as_form(m, form)
    evs = []
    for k in range(2 if again else 1):
        if k:
            x, y = again
            m = [list(row) for row in m]
            m[x][y] = m[y][x] = 1 - m[x][y]
            a[x, y] = a[y, x] = m[x][y]
            p = None

        def go():
            x = utils.complement(a)
            cc = utils.complement(x)
            if again:
                x = utils.complement(a)     # the array last asked about is the one changed next
            return x, cc, utils.complement_vklu(*p) if p else ()
        out, res = limited(CPU, go)
        e = {"op": "compl", "m": m, "p": list(p or []), "c": [], "cc": [], "q": []}
        if out == "ok":
            out, d = wellformed(lambda: dict(c=mat(res[0]), cc=mat(res[1]), q=vec(res[2])))
            e.update(d or {})
        e["out"] = out
        st, after = wellformed(mat, a)
        e["after"] = after or []
        evs.append(e)
    return evs


def complp_event(p):
    solver, srg, sorter, utils = mods()

    def go():
        q = utils.complement_vklu(*p)
        return q, utils.complement_vklu(*q)
    out, res = limited(CPU, go)
    e = {"op": "complp", "p": list(p), "q": [], "qq": []}
    if out == "ok":
        out, d = wellformed(lambda: dict(q=vec(res[0]), qq=vec(res[1])))
        e.update(d or {})
    e["out"] = out
    return e


def C17(c):
    c.prove("ParamProofs", ["Params"], "complementing parameters twice gives them back and keeps the identity, for all integers")
    c.model("Complements", "SPECIFICATION Spec\nCONSTANTS MaxOrder=%d MaxParam=%d\nINVARIANTS SameOrComplement Involution GraphStays Corresponds IdentityStays\n"
            "PROPERTIES Toggled\nCHECK_DEADLOCK FALSE\n" % ((5, 11) if THOROUGH else (5, 7)), "every graph on up to 5 vertices, every small tuple")
    r = corpus.rng(SEED, "C17")
    jobs = [([[0]], None)]
    for n in (2, 3, 4, 5):
        gs = list(small_graphs(n))
        jobs += [(g, None) for g in (gs if THOROUGH or len(gs) < 100 else r.sample(gs, 300))]
    for _ in range(3000 if THOROUGH else 400):
        jobs.append((random_graph(r, r.randint(6, 40)), None))
    for n in (130, 260, 300, 600, 1030):
        g = [[0] * n for _ in range(n)]
        for _ in range(3 * n):
            a, b = r.sample(range(n), 2) if r.random() < .8 else r.sample(range(max(0, n - 50), n), 2)
            g[a][b] = g[b][a] = 1
        jobs += [(g, None)]
    for name in corpus.SMALL + corpus.MIDDLE + corpus.LARGE:
        g = corpus.graph(name)
        for _ in range(2 if len(g) < 20 or THOROUGH else 1):
            jobs.append((shuffled(g, r), corpus.params(g)))
    for p in corpus.cheap(4, 13, .3):
        for m in solve_some(p):
            jobs.append((m, p))
    js = []
    for j, (m, p) in enumerate(jobs):
        edge = r.sample(range(len(m)), 2) if 1 < len(m) < 40 and j % 4 == 1 else None
        js.append((m, p, "srg" if j % 3 else FORMS[j // 3 % len(FORMS)], edge))
    ev = [e for es in pmap(compl_events, js, chunksize=25) for e in es]
    ps = list(corpus.feasible(3, 120 if THOROUGH else 60))
    ps += [tuple(r.randint(-3, 40) for _ in range(4)) for _ in range(1500)]
    for _ in range(300):               # large orders: disjoint cliques and multipartite graphs
        a, b = r.randint(2, 200), r.randint(2, 200)
        ps += [(a * b, b - 1, b - 2, 0), (a * b, a * b - b, a * b - 2 * b, a * b - b)]
    ev += pmap(complp_event, ps, chunksize=200)
    c.conform("TraceGraph", ev, "recorded complements of graphs and of tuples", nontrivial=sum(1 for e in ev if e["p"]),
              rule="distinct graph or tuple; non-trivial: parameters involved")


def solve_some(p, limit=30):
    solver, srg, sorter, utils = mods()

    def go():
        return list(itertools.islice(solver.solve(srg.SRG(solver._seed(*p))), limit))
    out, res = limited(4.0, go)
    if out != "ok":
        return []
    st, ms = wellformed(lambda: [mat(x) for x in res])
    return [m for m in (ms or []) if len(m) == p[0] and corpus.params(m) == tuple(p)]


# ------------------------------------------------------------------ C18

def integral(p):
    v, k, l, u = p
    conf = 2 * k + (v - 1) * (l - u)
    if conf == 0:
        return v % 2 == 1
    import math
    d2 = (l - u) ** 2 + 4 * (k - u)
    d = math.isqrt(d2)
    return d > 0 and d * d == d2 and conf % d == 0 and (v - 1 - conf // d) % 2 == 0 and abs(conf // d) < v - 1


def spec_event(p):
    solver, srg, sorter, utils = mods()
    out, res = limited(CPU, utils.eig, *p)
    e = {"op": "spec", "p": list(p), "exact": False, "k": 0, "r": 0, "s": 0, "r2": 0, "s2": 0, "mult": []}

    def read():
        pairs = [(x, y) for x, y in res]
        d = {"mult": [num(y) for _, y in pairs], "k": num(pairs[0][0])}
        if len(pairs) == 3:
            try:
                d.update(exact=True, r=num(pairs[1][0]), s=num(pairs[2][0]))
            except vlib.Malformed:
                d.update(exact=False)
                for name, x in (("r2", pairs[1][0]), ("s2", pairs[2][0])):
                    d[name] = num(round(1000 * (2 * float(x) - (p[2] - p[3]))))
        return d
    if out == "ok":
        out, d = wellformed(read)
        e.update(d or {})
    e["out"] = out
    return e


def big(n):
    s = 0 if n == 0 else (1 if n > 0 else -1)
    n = abs(n)
    limbs = []
    while n:
        limbs.append(n % 1000)
        n //= 1000
    return [s, limbs]


def astronomic(r, n):
    """Feasible tuples with integral spectrum, of any size."""
    out = []
    while len(out) < n:
        e = r.choice([3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 30])
        a, b = r.randint(2, 10 ** e), r.randint(2, 10 ** r.randint(1, e))
        kind = r.randrange(5)
        if kind == 0:
            p = (a * b, b - 1, b - 2, 0)
        elif kind == 1:
            p = (a * b, a * b - b, a * b - 2 * b, a * b - b)
        elif kind == 2:
            p = (a * (a - 1) // 2, 2 * (a - 2), a - 2, 4)
        elif kind == 3:
            t = r.randint(2, 10 ** (e - 1))
            p = (a * a, t * (a - 1), a - 2 + (t - 1) * (t - 2), t * (t - 1))
        else:
            p = (4 * a + 1, 2 * a, a - 1, a)
        v, k, l, u = p
        if 1 <= k <= v - 2 and 0 <= l <= k - 1 and 0 <= u <= k and (v - k - 1) * u == k * (k - l - 1) and integral(p):
            out.append(p)
    return out


def bigspec_event(p):
    solver, srg, sorter, utils = mods()
    out, res = limited(CPU, utils.eig, *p)
    e = {"op": "bigspec", "p": [big(x) for x in p], "mult": [], "ev": [], "exact": 2 * p[1] + (p[0] - 1) * (p[2] - p[3]) != 0}

    def whole(x):
        x = x.item() if hasattr(x, "item") else x
        if isinstance(x, float) and x.is_integer():
            x = int(x)
        if not isinstance(x, int):
            raise vlib.Malformed(repr(x)[:80])
        return big(x)

    def read():
        pairs = [(x, y) for x, y in res]
        return {"mult": [whole(y) for x, y in pairs], "ev": [whole(x) for x, y in (pairs if e["exact"] else pairs[:1])]}
    if out == "ok":
        out, d = wellformed(read)
        e.update(d or {})
    e["out"] = out
    return e


def det_event(job):
    p, g = job
    solver, srg, sorter, utils = mods()
    out, res = limited(CPU, utils.determinant, *p)

    def read():
        if hasattr(res, "item") and not hasattr(res, "__len__"):
            n = res.item()
        else:
            n = res
        if isinstance(n, float):
            if not n.is_integer():
                raise vlib.Malformed(repr(n))
            n = int(n)
        if not isinstance(n, int):
            raise vlib.Malformed(repr(n)[:80])
        return big(n)
    d = None
    if out == "ok":
        out, d = wellformed(read)
    return {"op": "det", "p": list(p), "g": g or [], "out": out, "det": d or [0, []]}


def large_families(r, n, hi):
    out = []
    while len(out) < n:
        kind = r.randrange(5)
        if kind == 0:
            a, b = r.randint(2, 40), r.randint(2, 40)
            p = (a * b, b - 1, b - 2, 0)
        elif kind == 1:
            a, b = r.randint(2, 40), r.randint(2, 40)
            p = (a * b, a * b - b, a * b - 2 * b, a * b - b)
        elif kind == 2:
            q = r.randrange(5, hi, 4)
            p = (q, (q - 1) // 2, (q - 5) // 4, (q - 1) // 4)
        elif kind == 3:
            m = r.randint(4, 45)
            p = (m * (m - 1) // 2, 2 * (m - 2), m - 2, 4)
        else:
            m, t = r.randint(3, 32), r.randint(2, 5)
            p = (m * m, t * (m - 1), m - 2 + (t - 1) * (t - 2), t * (t - 1))
            if p[1] > p[0] - 2 or p[2] > p[1] - 1 or p[3] > p[1]:
                continue
        if p[0] <= hi and 1 <= p[1] <= p[0] - 2 and 0 <= p[2] <= p[1] - 1 and 0 <= p[3] <= p[1] \
                and (p[0] - p[1] - 1) * p[3] == p[1] * (p[1] - p[2] - 1):
            out.append(p)
    return out


def C18(c):
    c.prove("ParamProofs", ["Params"], "two different further eigenvalues for every feasible tuple, sum and product of the roots, for all integers")
    c.model("Spectrum", "SPECIFICATION Spec\nCONSTANTS Lo=3 Hi=%d\nINVARIANTS DiscPositive SumsToOrder PositiveMult TraceZero TraceConf SquareTrace AreRoots Product\n"
            "CHECK_DEADLOCK FALSE\n" % (45 if THOROUGH else 30), "every feasible tuple: roots, multiplicities, traces")
    c.model("SpectrumMC", "INIT InitG\nNEXT NextG\nCONSTANTS Lo=4 Hi=%d Primes={32749,45989}\nINVARIANTS GraphsIntegral DetPredicted\nCHECK_DEADLOCK FALSE\n"
            % (13 if THOROUGH else 10), "every strongly regular graph found by the specified search: its determinant is the predicted one")
    c.model("BigMC", "INIT Init\nNEXT Next\n"
            "INVARIANT Arith\nCHECK_DEADLOCK FALSE\n", "the arithmetic on large numbers agrees with TLC's on small ones")
    r = corpus.rng(SEED, "C18")
    ps = [p for p in corpus.feasible(3, 200 if THOROUGH else 100) if integral(p)]
    ps += [p for p in sorted(set(large_families(r, 900 if THOROUGH else 300, 1000))) if integral(p)]
    ps = sorted(set(ps))
    ev = pmap(spec_event, ps, chunksize=50)
    ev += pmap(bigspec_event, ps[::7] + astronomic(r, 3000 if THOROUGH else 600), chunksize=50)
    dets = [(p, None) for p in ps if THOROUGH or p[0] <= 100 or r.random() < .15]
    for name in corpus.SMALL + corpus.MIDDLE + corpus.LARGE:
        g = corpus.graph(name)
        if len(g) <= (70 if THOROUGH else 40):
            dets.append((corpus.params(g), shuffled(g, r)))
    for p in [(5997, 2, 1, 0), (4000, 3, 2, 0), (2600, 2598, 2596, 2598), (1225, 96, 48, 4), (2500, 98, 48, 2), (6002, 1, 0, 0), (4096, 2048, 0, 2048)]:
        dets.append((p, None))
    ev += pmap(det_event, dets, chunksize=50)
    c.conform("TraceGraph", ev, "recorded spectra and determinants", nontrivial=sum(1 for e in ev if e["op"] == "det" and e["g"]) + sum(1 for e in ev if e["op"] in ("spec", "bigspec")),
              rule="distinct tuple (with a graph or not); non-trivial: spectra, and determinants compared with a graph's own")


# ------------------------------------------------------------------ C26

def guard_event(t):
    solver, srg, sorter, utils = mods()
    out, _ = limited(CPU, utils.assert_srg, *t)

    def second():
        return utils.assert_srg(*(t[0], t[0] - t[1] - 1, t[0] - 2 - 2 * t[1] + t[3], t[0] - 2 * t[1] + t[2]))
    out2, _ = limited(CPU, second)
    short = lambda o: o if o in ("ok", "timeout") else "refused"
    return {"op": "guard", "t": [big(x) for x in t], "out": short(out), "compl": short(out2)}


def C26(c):
    c.prove("ParamProofs", ["Params"], "complementing keeps and reflects the identity, for all integers")
    c.model("Complements", "SPECIFICATION Spec\nCONSTANTS MaxOrder=3 MaxParam=%d\nINVARIANTS IdentityStays\nCHECK_DEADLOCK FALSE\n" % (14 if THOROUGH else 9),
            "complementing keeps the identity for every small tuple")
    r = corpus.rng(SEED, "C26")
    ts = list(corpus.feasible(3, 80 if THOROUGH else 36))
    for t in list(ts):                  # one component off
        j = r.randrange(4)
        d = r.choice([-2, -1, 1, 2])
        ts.append(tuple(x + (d if i == j else 0) for i, x in enumerate(t)))
        if r.random() < .5:             # two components off
            ts.append(tuple(x + r.choice([-1, 0, 1]) for x in t))
    ts += list(itertools.product(range(-2, 5), repeat=4)) if THOROUGH else list(itertools.product(range(-1, 4), repeat=4))
    for _ in range(600):
        ts.append(tuple(r.randint(-20, 60) for _ in range(4)))
    for _ in range(400):               # identity by construction: both factors vanish, or scaled
        k, l = r.randint(-40, 40), r.randint(-40, 40)
        t = r.choice([(k + 1, k, k - 1, r.randint(-9, 9)), (r.randint(-9, 40), k, k - 1, 0), (k + 1, k, l, r.randint(-5, 5)), (l, 0, k, 0)])
        ts.append(t)
    for _ in range(400):               # large ones
        a, b = r.randint(2, 10 ** r.choice([3, 6, 9, 15])), r.randint(2, 10 ** r.choice([3, 6, 9, 15]))
        t = r.choice([(a * b, b - 1, b - 2, 0), (a * b, a * b - b, a * b - 2 * b, a * b - b)])
        ts.append(t)
        j = r.randrange(4)
        ts.append(tuple(x + (r.choice([-1, 1, 2 ** 32, 2 ** 64]) if i == j else 0) for i, x in enumerate(t)))
    ts = list(dict.fromkeys(ts))
    ev = pmap(guard_event, ts, chunksize=200)
    c.conform("TraceGraph", ev, "recorded verdicts of the parameter guard", nontrivial=sum(1 for e in ev if e["out"] == "ok"),
              rule="distinct tuple; non-trivial: accepted")


# ------------------------------------------------------------------ C27

def batch_event(job):
    ms, n_form = job
    solver, srg, sorter, utils = mods()
    items = [srg.SRG(srg.array(m).reshape(len(m), len(m[0]))) for m in ms]
    pos = {}
    for j, x in enumerate(items):
        pos[id(x)] = j + 1

    def go():
        arg = {"list": lambda: list(items), "iter": lambda: iter(items), "gen": lambda: (x for x in items),
               "tuple": lambda: tuple(items)}[n_form]()
        yes, no = solver.partition_by_done(arg)
        return [pos.get(id(x), 0) for x in yes], [pos.get(id(x), 0) for x in no], [bool(x.solved()) for x in items]
    out, res = limited(CPU, go)
    st, after = wellformed(lambda: [mat(x.current_matrix) for x in items])
    return {"op": "separate", "batch": [{"m": m, "n": len(m[0])} for m in ms], "out": out, "yes": res[0] if out == "ok" else [],
            "no": res[1] if out == "ok" else [], "solved": res[2] if out == "ok" else [], "after": after or []}


def append_event(job):
    m, rem = job
    solver, srg, sorter, utils = mods()
    a = vlib.arr(m, job, cols=len(m[0]))
    x = vlib.arr(rem, job)
    s = srg.SRG(a)
    out, res = limited(CPU, lambda: s.append_and_return_new(x))
    if out == "ok":
        out, res = wellformed(lambda: mat(res.current_matrix))
    st, after = wellformed(lambda: mat(s.current_matrix))
    st, ra = wellformed(lambda: vec(x))
    return {"op": "append", "m": m, "n": len(m[0]), "rem": rem, "out": out, "r": res if out == "ok" else [], "after": after or [],
            "remafter": ra if ra is not None else [-1]}


def appends_event(job):
    """Rows appended one after another to a matrix, to the results, and to other objects holding the same arrays."""
    m, steps = job
    solver, srg, sorter, utils = mods()
    base = srg.SRG(vlib.arr(m, job))
    objs = [base]

    def go():
        for frm, rem, again in steps:
            x = objs[frm]
            if again:
                x = srg.SRG(x.current_matrix)
            objs.append(x.append_and_return_new(srg.array(rem)))
    out, _ = limited(CPU, go)
    e = {"op": "appends", "m": m, "steps": [{"from": f, "rem": rem} for f, rem, _ in steps], "held": [], "after": []}
    if out == "ok":
        out, d = wellformed(lambda: dict(held=[mat(x.current_matrix) for x in objs[1:]], after=mat(base.current_matrix)))
        e.update(d or {})
    e["out"] = out
    return e


def append_history(r):
    n = r.choice([4, 5, 8, 13, 30])
    rows = r.choice([1, 2, n - 2, r.randint(1, n - 2)])
    sizes, steps = [rows], []
    for _ in range(r.randint(2, 7)):
        frm = r.choice([j for j in range(len(sizes)) if sizes[j] < n])
        if r.random() < .4:
            frm = 0
        steps.append((frm, [r.randint(0, 1) for _ in range(n - sizes[frm] - 1)], r.random() < .5))
        sizes.append(sizes[frm] + 1)
    return partial(r, n, rows), steps


def partial(r, n, rows):
    g = random_graph(r, n)
    return g[:rows]


def C27(c):
    c.model("Batches", "SPECIFICATION Spec\nCONSTANTS N=3 MaxHeap=%d MaxBatch=%d\nINVARIANTS Mirrored SeparatedRight\nPROPERTIES HeapKept NoneLost\nCHECK_DEADLOCK FALSE\n"
            % ((4, 3) if THOROUGH else (3, 2)), "matrices grown, collected and separated in every order")
    r = corpus.rng(SEED, "C27")
    jobs = [([], "list"), ([], "iter")]
    for _ in range(3000 if THOROUGH else 700):
        ms = []
        for _ in range(r.randint(1, 8)):
            n = r.choice([2, 3, 4, 5, 8, 13, 30])
            rows = r.choice([1, 2, n - 1, n, n, r.randint(1, n)])
            ms.append(partial(r, n, max(1, min(n, rows))))
        if r.random() < .3:
            ms.append([list(x) for x in r.choice(ms)])       # equal but another object
        jobs.append((ms, r.choice(["list", "iter", "gen", "tuple"])))
    for n in (128, 200, 256, 257, 300, 513):              # many columns, about as many rows modulo some power of two
        g = random_graph(r, n)
        jobs.append(([g[:k] for k in sorted({n % 128 or 1, n % 256 or 1, n - 1, n, 1, n // 2}) if k], r.choice(["list", "gen"])))
    for k in (70, 300, 1500):                               # many matrices
        jobs.append(([partial(r, 3, r.randint(1, 3)) for _ in range(k)], r.choice(["list", "gen"])))
    ev = pmap(batch_event, jobs, chunksize=50)
    ap = []
    for n in (2, 3, 4):
        for rows in range(1, n):
            for length in range(n + 1):
                for rem in itertools.product((0, 1), repeat=length):
                    ap.append((partial(r, n, rows), list(rem)))
    for _ in range(3000 if THOROUGH else 700):
        n = r.choice([3, 5, 8, 13, 20, 66, 130])
        rows = r.choice([1, 2, n - 1, r.randint(1, n - 1)])
        want = n - rows - 1
        length = want if r.random() < .8 else max(0, want + r.choice([-1, 1, -2, 2, n]))
        ap.append((partial(r, n, rows), [r.randint(0, 1) for _ in range(length)]))
    for n in (200, 255, 256, 300, 700, 1100) * (4 if THOROUGH else 1):
        for rows in (1, r.choice([2, 3]), n - 1, r.randint(1, n - 1))[: 4 if n <= 300 else 2]:
            m = partial(r, n, rows) if n <= 300 else [[0] + [r.randint(0, 1) for _ in range(n - 1)]]
            for d in (0, 0, -1, 1, r.choice([-256, 256, 100, -100])):
                if 0 <= n - len(m) - 1 + d:
                    ap.append((m, [r.randint(0, 1) for _ in range(n - len(m) - 1 + d)]))
    ev += pmap(append_event, ap, chunksize=50)
    ev += pmap(appends_event, [append_history(r) for _ in range(3000 if THOROUGH else 500)], chunksize=50)
    c.conform("TraceGraph", ev, "recorded separations and appended rows",
              nontrivial=sum(1 for e in ev if e["op"] == "append" and e["out"] == "ok") + sum(1 for e in ev if e["op"] == "separate" and e["yes"] and e["no"]),
              rule="distinct batch or (matrix, remainder); non-trivial: row appended, or both groups non-empty")
