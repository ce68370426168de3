"""Inputs: feasible tuples with their usual cost, known strongly regular graphs, relabellings."""
import json, os, random, itertools
from functools import lru_cache

HERE = os.path.dirname(os.path.abspath(__file__))


def feasible(lo, hi):
    for v in range(lo, hi + 1):
        for k in range(1, v - 1):
            for l in range(k):
                t = k * (k - l - 1)
                if t % (v - k - 1) == 0 and t // (v - k - 1) <= k:
                    yield (v, k, l, t // (v - k - 1))


@lru_cache(None)
def costs():
    """tuple -> (number of results or -1 if unknown, CPU seconds of a full enumeration)."""
    with open(os.path.join(HERE, "cost.json")) as f:
        return {tuple(p): (n, t) for p, n, t in json.load(f)}


def cheap(lo, hi, limit):
    return [p for p, (n, t) in costs().items() if n >= 0 and t <= limit and lo <= p[0] <= hi]


def expensive(lo, hi, limit):
    return [p for p, (n, t) in costs().items() if (n < 0 or t > limit) and lo <= p[0] <= hi]


# ------------------------------------------------------------------ graphs (adjacency matrices as lists)

def from_rule(n, rule):
    return [[1 if i != j and rule(i, j) else 0 for j in range(n)] for i in range(n)]


def compl(g):
    n = len(g)
    return [[1 - g[i][j] if i != j else 0 for j in range(n)] for i in range(n)]


def params(g):
    n = len(g)
    N = [frozenset(j for j in range(n) if g[i][j]) for i in range(n)]
    ks = {len(x) for x in N}
    ls = {len(N[i] & N[j]) for i in range(n) for j in N[i]}
    us = {len(N[i] & N[j]) for i in range(n) for j in range(i) if not g[i][j]}
    if len(ks) != 1 or len(ls) != 1 or len(us) != 1:
        return None
    return (n, ks.pop(), ls.pop(), us.pop())


def rook(n):
    return from_rule(n * n, lambda i, j: i // n == j // n or i % n == j % n)


def triangular(n):
    P = list(itertools.combinations(range(n), 2))
    return from_rule(len(P), lambda i, j: len(set(P[i]) & set(P[j])) == 1)


def cliques(a, b):
    return from_rule(a * b, lambda i, j: i // b == j // b)


def multipartite(a, b):
    return from_rule(a * b, lambda i, j: i // b != j // b)


def paley(q):
    sq = {x * x % q for x in range(1, q)}
    return from_rule(q, lambda i, j: (i - j) % q in sq)


def paley25():
    # GF(25) = GF(5)[x]/(x^2-2)
    def mul(a, b):
        return ((a[0] * b[0] + 2 * a[1] * b[1]) % 5, (a[0] * b[1] + a[1] * b[0]) % 5)
    E = [(a, b) for a in range(5) for b in range(5)]
    sq = {mul(e, e) for e in E if e != (0, 0)}
    return from_rule(25, lambda i, j: ((E[i][0] - E[j][0]) % 5, (E[i][1] - E[j][1]) % 5) in sq)


def shrikhande():
    D = {(0, 1), (0, 3), (1, 0), (3, 0), (1, 1), (3, 3)}
    return from_rule(16, lambda i, j: ((i // 4 - j // 4) % 4, (i % 4 - j % 4) % 4) in D)


def clebsch():
    return from_rule(16, lambda i, j: bin(i ^ j).count("1") in (1, 4))


def chang(which):
    g = triangular(8)
    P = list(itertools.combinations(range(8), 2))
    E = {1: [(0, 1), (2, 3), (4, 5), (6, 7)],
         2: [(i, (i + 1) % 8) for i in range(8)],
         3: [(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (5, 6), (6, 7), (3, 7)]}[which]
    S = {i for i, (a, b) in enumerate(P) if (a, b) in E or (b, a) in E}
    return [[(1 - g[i][j]) if (i in S) != (j in S) else g[i][j] for j in range(28)] for i in range(28)]


def schlaefli():
    # neighbours of a Chang-type switching: isolate one vertex of T(8) and delete it
    g = triangular(8)
    S = {j for j in range(28) if g[0][j]}
    h = [[(1 - g[i][j]) if (i in S) != (j in S) else g[i][j] for j in range(28)] for i in range(28)]
    keep = list(range(1, 28))
    return [[h[i][j] for j in keep] for i in keep]


def gq22():
    return compl(triangular(6))


def latin3(n):
    return from_rule(n * n, lambda i, j: i // n == j // n or i % n == j % n or
                     (i // n + i % n) % n == (j // n + j % n) % n)


def symplectic(q):
    """Points of PG(3,q), adjacent when perpendicular (q prime)."""
    pts = []
    for x in itertools.product(range(q), repeat=4):
        if any(x) and next(a for a in x if a) == 1:
            pts.append(x)
    f = lambda x, y: (x[0] * y[1] - x[1] * y[0] + x[2] * y[3] - x[3] * y[2]) % q
    return from_rule(len(pts), lambda i, j: f(pts[i], pts[j]) == 0)


def hoffman_singleton():
    def rule(i, j):
        if i > j:
            i, j = j, i
        h, a = divmod(i, 5) if i < 25 else divmod(i - 25, 5)
        k, b = divmod(j, 5) if j < 25 else divmod(j - 25, 5)
        if j < 25:
            return h == k and (a - b) % 5 in (1, 4)
        if i >= 25:
            return h == k and (a - b) % 5 in (2, 3)
        return b == (h * k + a) % 5
    return from_rule(50, rule)


@lru_cache(None)
def graph(name):
    f, *a = name.split("-")
    a = [int(x) for x in a]
    return {"rook": rook, "tri": triangular, "cliques": cliques, "multi": multipartite, "paley": paley,
            "paley25": paley25, "shrikhande": shrikhande, "clebsch": clebsch, "chang": chang,
            "schlaefli": schlaefli, "latin": latin3, "sp": symplectic, "hs": hoffman_singleton,
            "cotri": lambda n: compl(triangular(n)), "corook": lambda n: compl(rook(n)),
            "colatin": lambda n: compl(latin3(n)), "coclebsch": lambda: compl(clebsch()),
            "coschlaefli": lambda: compl(schlaefli()), "coshrikhande": lambda: compl(shrikhande()),
            "cosp": lambda q: compl(symplectic(q))}[f](*a)


SMALL = ["cliques-2-2", "multi-2-2", "paley-5", "multi-2-3", "cliques-2-3", "cliques-3-2", "multi-3-2", "rook-3",
         "tri-5", "cotri-5", "cliques-4-3", "multi-3-4", "cliques-3-4", "multi-4-3", "cliques-5-2", "multi-2-6",
         "multi-6-2", "paley-13", "tri-6", "cotri-6"]
MIDDLE = ["rook-4", "corook-4", "shrikhande", "coshrikhande", "clebsch", "coclebsch", "paley-17", "cliques-9-2",
          "cliques-6-3", "multi-2-9", "multi-9-2", "multi-6-3"]
LARGE = ["tri-7", "cotri-7", "rook-5", "latin-5", "paley25", "schlaefli", "coschlaefli", "tri-8", "cotri-8",
         "chang-1", "chang-2", "chang-3", "paley-29", "rook-6", "latin-6", "corook-6", "tri-9", "cotri-9",
         "paley-37", "sp-3", "cosp-3", "tri-10", "cotri-10", "hs", "latin-7", "rook-7", "paley-61", "rook-8",
         "latin-8", "tri-12", "paley-41"]


def guided(g, rng):
    """An order of the vertices: an edge, then always one of the first cell, neighbours listed first."""
    n = len(g)
    a = rng.randrange(n)
    b = rng.choice([x for x in range(n) if g[a][x]])

    def split(x, cells):
        out = []
        for c in cells:
            for part in ([y for y in c if g[x][y]], [y for y in c if not g[x][y]]):
                if part:
                    out.append(part)
        return out
    order = [a, b]
    cells = split(b, split(a, [[x for x in range(n) if x not in (a, b)]]))
    while cells:
        x = cells[0].pop(rng.randrange(len(cells[0])))
        order.append(x)
        cells = split(x, [c for c in cells if c])
    return order


def relabel(g, pi):
    return [[g[a][b] for b in pi] for a in pi]


def seed(p):
    v, k, l, u = p
    r1 = [1 if 1 <= j <= k else 0 for j in range(v)]
    r2 = [1 if j == 0 or 2 <= j <= l + 1 or k + 1 <= j <= 2 * k - l - 1 else 0 for j in range(v)]
    return [r1, r2]


def tuple_of(m):
    """The tuple whose starting rows these two rows may be, or None."""
    v, k = len(m[0]), sum(m[0])
    l = sum(a * b for a, b in zip(*m[:2]))
    if not 1 <= k <= v - 2 or k * (k - l - 1) % (v - k - 1):
        return None
    return (v, k, l, k * (k - l - 1) // (v - k - 1))


def rng(*key):
    return random.Random(repr(key))
