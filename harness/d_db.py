"""Stored solutions: C19, C21."""
import os, re, json, shutil, tempfile, subprocess
import vlib, corpus, d_search, d_cli
from vlib import limited, wellformed, mat, vec, num, pmap, THOROUGH, SEED

PARTIAL = [(25, 12, 5, 6), (26, 10, 3, 4), (29, 14, 6, 7)]
DBDIR = os.path.join(vlib.REPO, "srg", "database")


def files():
    out = []
    for f in sorted(os.listdir(DBDIR)):
        m = re.fullmatch(r"problem_(\d+)_(\d+)_(\d+)_(\d+)\.py", f)
        if m:
            out.append(tuple(int(x) for x in m.groups()))
    return out


def load(p):
    """The stored problem as the package gives it, and as its file declares it."""
    vlib.import_repo()
    import importlib
    from srg import database

    def go():
        sols = database.get_solutions(*p)
        m = importlib.import_module("srg.database.problem_%d_%d_%d_%d" % tuple(p))
        return [mat(x) for x in sols], [num(getattr(m, n)) for n in "vklu"]
    return limited(60, go)


def solve_job(p):
    return p, d_search.do_solve(corpus.seed(p), 600)


def relabel_events(job):
    """Canonical relabellings of a graph, one witness for each different outcome."""
    p, of, g, n, key = job
    r = corpus.rng(SEED, "stored", p, key)
    found = {}
    for _ in range(n):
        pi = corpus.guided(g, r)
        found.setdefault(repr(corpus.relabel(g, pi)), [x + 1 for x in pi])
    return [(h, {"op": "relabel", "name": list(p), "g": g, "pi": pi, "of": of}) for h, pi in found.items()]


KNOWN = {(16, 6, 2, 2): ["rook-4", "shrikhande"], (16, 9, 4, 6): ["corook-4", "coshrikhande"], (16, 5, 0, 2): ["clebsch"],
         (16, 10, 6, 6): ["coclebsch"], (17, 8, 3, 4): ["paley-17"], (13, 6, 2, 3): ["paley-13"], (5, 2, 0, 1): ["paley-5"],
         (10, 3, 0, 1): ["cotri-5"], (10, 6, 3, 4): ["tri-5"], (15, 8, 4, 4): ["tri-6"], (15, 6, 1, 3): ["cotri-6"],
         (21, 10, 5, 4): ["tri-7"], (25, 8, 3, 2): ["rook-5"], (27, 10, 1, 5): ["coschlaefli"], (28, 12, 6, 4): ["tri-8", "chang-1", "chang-2", "chang-3"],
         (4, 2, 0, 2): ["multi-2-2"], (12, 6, 0, 6): ["multi-2-6"]}


def C19(c):
    c.model("Store", "SPECIFICATION Spec\nCONSTANTS Order=%d\nINVARIANTS StoreGood Failed Answered\nPROPERTIES Kept Ends\nCHECK_DEADLOCK FALSE\n" % 7,
            "small stores filled by the specified search")
    d_search.model_guided(c)
    fs = files()
    ev, rel = [], []
    small = [p for p in fs if p[0] <= 20]
    solved = dict(pmap(solve_job, sorted(small, key=lambda p: -p[0])))
    for p in fs:
        out, val = load(p)
        mats, decl = val if out == "ok" else ([], [])
        st, res = solved.get(p, ("ok", []))
        if st != "ok":
            res = [[[2]]]
        ev.append({"op": "stored", "name": list(p), "declared": decl, "mats": mats, "out": "ok" if out == "ok" else "unreadable",
                   "compare": p in solved, "solved": res})
        if out != "ok" or p in PARTIAL:
            continue
        # the graphs known independently of the store, and every stored graph
        gs = [corpus.graph(n) for n in KNOWN.get(p, []) if corpus.params(corpus.graph(n)) == p]
        per = max(200, (40000 if THOROUGH else 6000) // max(1, len(gs)))
        rel += [(p, len(ev), g, per // 4, (n, k)) for n, g in enumerate(gs) for k in range(4)]
        ok = [m for m in mats if corpus.params(m) == p]
        rel += [(p, len(ev), g, (300 if THOROUGH else 30), (-1, n)) for n, g in enumerate(ok)]
    tried = sum(j[3] for j in rel)
    found = {}
    for es in pmap(relabel_events, rel, chunksize=8):
        for h, e in es:
            found.setdefault((tuple(e["name"]), h), e)
    c.counts["relabellings_tried"] = tried
    c.counts["distinct_relabelled_matrices"] = len(found)
    c.conform("TraceFront", ev + list(found.values()), "every stored problem, and all canonical relabellings found of known and of stored graphs",
              nontrivial=len(ev) + len(found), rule="stored problem, or distinct relabelled matrix", xmx="16g")


WATCH = r'''
import sys, json, os, runpy
args = sys.argv[1:]
log, module, args = args[0], args[1], args[2:]
import matplotlib
matplotlib.use("Agg")
from matplotlib.figure import Figure
import matplotlib.collections as C, matplotlib.patches as P
import numpy as np
old = Figure.savefig

def look(fig):
    pts, segs, texts = [], [], {}
    for ax in fig.axes:
        for col in ax.collections:
            if isinstance(col, C.LineCollection):
                segs += [(tuple(s[0]), tuple(s[-1])) for s in col.get_segments()]
            elif isinstance(col, C.PathCollection):
                pts += [tuple(x) for x in np.asarray(col.get_offsets())]
        for l in ax.lines:
            xy = np.asarray(l.get_xydata())
            if len(xy) == 2:
                segs.append((tuple(xy[0]), tuple(xy[1])))
            elif len(xy):
                pts += [tuple(x) for x in xy]
        for pa in ax.patches:
            if isinstance(pa, P.FancyArrowPatch) and getattr(pa, "_posA_posB", None) is not None:
                segs.append(tuple(tuple(x) for x in pa._posA_posB))
        for t in ax.texts:
            s = t.get_text().strip()
            if s.isdigit():
                texts[int(s)] = tuple(t.get_position())
    names = sorted(texts)
    where = np.array([texts[n] for n in names]).reshape(-1, 2)

    def at(p):
        if not len(where):
            return 0
        d = np.abs(where - np.array(p)).sum(axis=1)
        j = int(np.argmin(d))
        return j + 1 if d[j] < 1e-5 else 0
    edges = sorted({tuple(sorted((at(a), at(b)))) for a, b in segs})
    spots = {at(p) for p in pts}
    ok = names == list(range(len(names))) and (not pts or spots == set(range(1, len(names) + 1)))
    return {"n": len(names) if ok else 0, "edges": [list(e) for e in edges]}

def savefig(self, *a, **k):
    with open(log, "a") as f:
        f.write(json.dumps(look(self)) + "\n")
    k.setdefault("dpi", 30)
    return old(self, *a, **k)
Figure.savefig = savefig
sys.argv = [module] + args
runpy.run_module(module, run_name="__main__", alter_sys=True)
'''


def other_store(job):
    """The commands on a scratch copy of the package that stores other problems: some removed, some added."""
    removed, added, asked = job
    d = tempfile.mkdtemp(prefix="vdb.")
    try:
        shutil.copytree(os.path.join(vlib.REPO, "srg"), os.path.join(d, "srg"), ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.c"))
        where = os.path.join(d, "srg", "database")
        for p in removed:
            os.remove(os.path.join(where, "problem_%d_%d_%d_%d.py" % p))
        for p, mats in added:
            with open(os.path.join(where, "problem_%d_%d_%d_%d.py" % p), "w") as f:
                f.write("from numpy import array\n\nv, k, l, u = %d, %d, %d, %d\nsolutions: list = [%s]\n" % (*p, ", ".join("array(%r)" % m for m in mats)))
        stored = sorted((set(files()) - set(removed)) | {p for p, _ in added})
        evs = [names_event(["list"], d, stored)]
        known = dict(added)
        for cmd, p in asked:
            evs.append(command_event(([cmd, *map(str, p)], cmd == "draw", known.get(p)), d))
    finally:
        shutil.rmtree(d)
    return evs


def command_event(job, repo=None):
    words, watched, mats, *again = job
    around = again.pop() if again and again[0] != "again" else ""
    d = tempfile.mkdtemp(prefix="vdb.")
    try:
        cwd = os.path.join(d, "cwd")
        os.mkdir(cwd)
        log = os.path.join(d, "log")
        if again:           # an earlier run left files of the same names, which have become useless
            d_cli.run_cli("srg.database", words, cwd, 300)
            for f in os.listdir(cwd):
                with open(os.path.join(cwd, f), "w") as h:
                    h.write("stale")
        if watched:
            rc, text = d_cli.run_cli("srg.database", [log, "srg.database", *words], cwd, 300, WATCH, repo=repo, around=around)
        else:
            rc, text = d_cli.run_cli("srg.database", words, cwd, 300, repo=repo, around=around)
        pngs = 0
        for f in os.listdir(cwd):
            with open(os.path.join(cwd, f), "rb") as h:
                if h.read(8) == b"\x89PNG\r\n\x1a\n":
                    pngs += 1
        pics = []
        if os.path.exists(log):
            with open(log) as f:
                pics = [json.loads(l) for l in f]
    finally:
        shutil.rmtree(d)
    e = {"op": "command", "cmd": words[0], "p": [int(x) for x in words[1:5]], "stored": mats is not None, "mats": mats or [],
         "fails": rc != 0, "shown": [], "pics": pics, "files": pngs, "watched": bool(watched), "out": "ok"}
    if rc is None:
        e["out"] = "timeout"
        return e
    try:
        e["shown"] = d_cli.matrices(text)
    except vlib.Malformed:
        e["out"] = "malformed"
    return e


def names_event(words, repo=None, stored=None, around=""):
    if isinstance(words, tuple):
        words, around = words
    vlib.import_repo()
    from srg import database
    d = tempfile.mkdtemp(prefix="vdb.")
    try:
        rc, text = d_cli.run_cli("srg.database", words, d, repo=repo, around=around)
    finally:
        shutil.rmtree(d)
    names = re.findall(r"problem[_0-9]*", text)
    tup, ext = [], []
    for n in names:
        m = re.fullmatch(r"problem_(\d+)_(\d+)_(\d+)_(\d+)", n)
        tup.append([int(x) for x in m.groups()] if m else [0])
        out, t = limited(5, lambda: database.extract_vklu(n))
        if out == "ok":
            out, t = wellformed(vec, t)
        ext.append(t if out == "ok" else [])
    return {"op": "names", "args": words, "around": around, "fails": rc != 0, "names": tup, "extracted": ext, "files": [list(p) for p in (files() if stored is None else stored)]}


def other_stores(fs, r):
    jobs = []
    large = [(100, 22, 0, 6), (162, 56, 10, 24), (1, 0, 0, 0), (6, 3, 0, 3), (275, 112, 30, 56), (243, 22, 1, 2), (1288, 792, 476, 504), (112, 30, 2, 10)]
    for n in range(6 if THOROUGH else 2):
        rem = r.sample(fs, 3)
        add = [(p, []) for p in r.sample(large, 3)]
        for p in [p for p in corpus.cheap(6, 12, .2) if p not in fs and corpus.costs()[p][0] > 0][n::6][:2]:
            st, ms = d_search.do_solve(corpus.seed(p), 60)
            if st == "ok":
                add.append((p, ms))
        jobs.append((rem, add, [("list", p) for p, _ in add] + [("draw", p) for p, _ in add[-2:]] + [("draw", add[0][0]), ("list", rem[0]), ("draw", rem[1])]))
    return jobs


def C21(c):
    c.model("Store", "SPECIFICATION Spec\nCONSTANTS Order=%d\nINVARIANTS StoreGood Failed Answered\nPROPERTIES Kept Ends\nCHECK_DEADLOCK FALSE\n" % 7,
            "small stores, every request")
    fs = files()
    stored = {p: load(p) for p in fs}
    stored = {p: v[1][0] for p, v in stored.items() if v[0] == "ok"}
    r = corpus.rng(SEED, "C21")
    jobs = []
    for p in fs:
        w = [str(x) for x in p]
        jobs.append((["list", *w], False, stored.get(p, [])))
        n = len(stored.get(p, []))
        if n <= 200:
            jobs.append((["draw", *w], True, stored.get(p, [])))
    for p in r.sample([p for p in fs if 0 < len(stored.get(p, [])) <= 2], 3):
        jobs.append((["draw", *map(str, p)], True, stored[p], "again"))
    others = sorted({(v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l) for v, k, l, u in fs} - set(fs))
    for p in r.sample(others, 3):          # not stored, though its complement is
        jobs.append((["list", *map(str, p)], False, None))
        jobs.append((["draw", *map(str, p)], True, None))
    jobs.append((["draw", "5", "2", "0", "1"], False, stored.get((5, 2, 0, 1), [])))
    for p in r.sample(fs, 4):
        w = [str(x) for x in p]
        jobs.append((["show", *w], True, stored.get(p, [])))
        jobs.append((["lists", *w], False, stored.get(p, [])))
        k = list(p)
        k[r.randrange(4)] += 1
        if (k[0] - k[1] - 1) * k[3] != k[1] * (k[1] - k[2] - 1) and tuple(k) not in fs:
            jobs.append((["list", *map(str, k)], False, None))
            jobs.append((["draw", *map(str, k)], False, None))
    for p in r.sample([p for p in corpus.feasible(4, 20) if p not in fs], 3):
        jobs.append((["list", *map(str, p)], False, None))
        jobs.append((["draw", *map(str, p)], True, None))
    for a in sorted(d_cli.SURROUNDINGS)[1:]:
        few = [p for p in fs if 0 < len(stored.get(p, [])) < 20 and p[0] < 22]
        jobs.append((["list", *map(str, r.choice(few))], False, None, a))
        jobs[-1] = jobs[-1][:2] + (stored[tuple(int(x) for x in jobs[-1][0][1:])], a)
        if a in ("terminal", "narrow", "nocolor"):
            p = r.choice(few)
            jobs.append((["draw", *map(str, p)], True, stored[p], a))
    jobs.sort(key=lambda j: -len(j[2] or []) * (3 if j[0][0] == "draw" else 1))
    ev = pmap(command_event, jobs)
    ev += [e for es in pmap(other_store, other_stores(fs, r)) for e in es]
    ev += pmap(names_event, [[], ["list"], ["draw"], ["list", "5"]][: 4 if THOROUGH else 2])
    ev += pmap(names_event, [(["list"], a) for a in ("narrow", "terminal", "file")])
    c.conform("TraceFront", ev, "recorded runs of python -m srg.database", nontrivial=len(ev), rule="distinct argument list")
