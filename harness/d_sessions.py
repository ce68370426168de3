"""Several enumerations open at once, and guarded values: C09, C24."""
import itertools, json, re, sys, threading
import vlib, corpus, d_search, d_question
from vlib import limited, wellformed, mat, vec, num, pmap, THOROUGH, SEED

CPU = 30.0
GARBAGE = -7


# ------------------------------------------------------------------ C09

def scribble(x):
    """The caller overwrites an array it was given (one it cannot write to is as good)."""
    try:
        x[...] = -GARBAGE
    except (ValueError, TypeError):
        pass


class Source:
    """Something enumerations can be opened on. fresh: a new input object for each opening, or always the same one."""

    def __init__(self, kind, data, fresh):
        self.kind, self.data, self.fresh = kind, data, fresh
        solver, srg = d_search.repo()
        self.solver, self.srg = solver, srg
        self.obj = None
        if kind in ("solve", "advance"):
            self.matrix = srg.array(data)
            self.obj = srg.SRG(self.matrix)
        elif kind == "seed":
            self.matrix = srg.array(corpus.seed(data))
        else:
            self.question = d_question.build(data)

    def open(self):
        if self.kind == "seed":         # the caller keeps a copy of the starting rows and scribbles over the original
            given = self.solver._seed(*self.data)
            self.matrix = given.copy()
            scribble(given)
            return iter(self.solver.solve(self.srg.SRG(self.matrix)))
        if self.kind == "advance" and self.fresh:
            try:
                q = self.srg.Question.from_matrix(self.matrix.copy())
            except self.srg.NoSolution:
                q = None
            if q is not None:
                for x in (q.A, q.b, q.bounds, q.answer.unknown_loc, q.answer.quota):
                    scribble(x)
        if self.kind in ("solve", "advance"):
            s = self.srg.SRG(self.matrix) if self.fresh else self.obj
            if self.kind == "solve":
                return iter(self.solver.solve(s))
            return (x.current_matrix for x in self.solver.advance(s))
        return iter(self.solver.solve_question(d_question.build(self.data) if self.fresh else self.question))

    def unchanged(self):
        if self.kind in ("solve", "advance"):
            st, m = wellformed(mat, self.matrix)
            return 1 if m == self.data else 0
        if self.kind == "seed":
            st, m = wellformed(mat, self.matrix)
            return 1 if m == corpus.seed(self.data) else 0
        return 1        # a question object may be simplified in place


def value(x):
    """A result as nested lists (rows or a single vector)."""
    return vec(x) if getattr(x, "ndim", 2) == 1 else mat(x)


def alone(job):
    """The results of a source when run alone, in a process of its own."""
    kind, data = job
    out, res = limited(CPU, lambda: list(Source(kind, data, True).open()))
    if out != "ok":
        return None
    st, res = wellformed(lambda: [value(x) for x in res])
    return res if st == "ok" else None


def replay(job):
    """Run a schedule against the real code. srcs: (kind, data, fresh, results alone)."""
    srcs, ops = job
    S = [Source(k, d, f) for k, d, f, _ in srcs]
    index = [{repr(v): j + 1 for j, v in enumerate(al)} for *_, al in srcs]
    open_, held, rec = [], [], []

    def current(x, s):
        st, v = wellformed(value, x)
        return index[s].get(repr(v), 0)
    for o in ops:
        op, x = o["op"], o["x"]
        e = {"op": op, "x": x, "got": -5}
        if op == "open":
            out, it = limited(CPU, S[x - 1].open)
            if out != "ok":
                e["got"] = -2
                it = iter(())
            open_.append([x - 1, it, True])
        elif op == "next":
            if x > len(open_) or not open_[x - 1][2]:
                continue
            s, it, _ = open_[x - 1]

            def ask():
                try:
                    return (next(it),)
                except StopIteration:
                    return None
            out, res = limited(CPU, ask)
            if out == "timeout":
                e["got"] = -3
            elif out != "ok":
                e["got"] = -2
            elif res is None:
                e["got"] = -1
                open_[x - 1][2] = False
            else:
                e["got"] = current(res[0], s)
                held.append([x, res[0], False, s])
        elif op == "spoil":
            if x > len(held) or held[x - 1][2]:
                continue
            held[x - 1][2] = True
            try:
                held[x - 1][1][...] = GARBAGE
            except (ValueError, TypeError):       # a result the caller cannot write to is as good
                pass
        elif op == "drop":
            if x > len(open_) or not open_[x - 1][2]:
                continue
            open_[x - 1][2] = False
            it = open_[x - 1][1]
            if hasattr(it, "close"):
                out, _ = limited(CPU, it.close)
                if out != "ok":
                    e["got"] = -3 if out == "timeout" else -2
            open_[x - 1][1] = None
        e["inputs"] = [s.unchanged() for s in S]
        e["held"] = [-9 if sp else current(v, s) for _, v, sp, s in held]
        rec.append(e)
        if e["got"] in (-2, -3):
            break
    return {"sizes": [len(al) for *_, al in srcs], "alone": [1] * len(srcs), "ops": rec,
            "sources": [[k, f] for k, _, f, _ in srcs]}


def finish(ops):
    """Let every enumeration still open run to its end (one more question than it has results)."""
    return ops


def schedules(sizes, opens, length, num_, seed, simulate=True):
    """Schedules generated by TLC from Sessions."""
    cfg = ("SPECIFICATION Spec\nCONSTANTS Size <- SizeDef MaxOpen=%d MaxOps=%d Design=\"nothing\"\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n" % (opens, length))
    r = vlib.tlc("SessionsGen", cfg.replace("Size <- SizeDef", "Size <- SizeDef"), env={"SIZES": json.dumps(sizes)}, workers=1,
                 extra=(["-simulate", "num=%d" % num_, "-depth", str(length + 1), "-seed", str(seed)] if simulate else []))
    out = re.findall(r'^"?SCHEDULE (.*?)"?$', r.out, re.M)
    res = []
    for s in out:
        s = s.replace('\\"', '"')
        res.append(json.loads(s))
    if not res:
        raise vlib.MachineryError("no schedules generated:\n" + r.out[-2000:])
    return res


def random_schedule(r, srcs, n):
    """A longer schedule; every enumeration not dropped is asked to its end."""
    ops, left, held = [], [], 0
    live = []

    def ask(e):
        nonlocal held
        ops.append({"op": "next", "x": e})
        if left[e - 1] == 0:
            live.remove(e)
        else:
            left[e - 1] -= 1
            held += 1
    for _ in range(n):
        k = r.random()
        if (k < .2 or not live) and len(left) < 8:
            s = r.randrange(len(srcs))
            ops.append({"op": "open", "x": s + 1})
            left.append(len(srcs[s][3]))
            live.append(len(left))
        elif k < .7 and live:
            ask(r.choice(live))
        elif k < .93 and held:
            ops.append({"op": "spoil", "x": r.randint(1, held)})
        elif live and k > .95:
            e = r.choice(live)
            live.remove(e)
            ops.append({"op": "drop", "x": e})
    while live:
        ask(r.choice(live))
    return ops


def threads_history(job):
    """Every enumeration consumed by a thread of its own, all at the same time."""
    srcs, plan = job
    S = [Source(k, d, f) for k, d, f, _ in srcs]
    index = [{repr(v): j + 1 for j, v in enumerate(al)} for *_, al in srcs]
    got = [[] for _ in plan]
    start = threading.Event()
    old = sys.getswitchinterval()

    def work(n, s, spoil):
        start.wait()
        try:
            for x in S[s].open():
                st, v = wellformed(value, x)
                got[n].append(index[s].get(repr(v), 0))
                if spoil:
                    x[...] = GARBAGE
            got[n].append(-1)
        except Exception:
            got[n].append(-2)
    ts = [threading.Thread(target=work, args=(n, s, sp), daemon=True) for n, (s, sp) in enumerate(plan)]
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        start.set()
        for t in ts:
            t.join(90)
    finally:
        sys.setswitchinterval(old)
    ops = []
    inputs = [s.unchanged() for s in S]
    held = []
    for n, (s, sp) in enumerate(plan):
        ops.append({"op": "open", "x": s + 1, "got": -5, "inputs": inputs, "held": list(held)})
        for g in got[n] or [-3]:
            if g > 0:
                held.append(g)
            ops.append({"op": "next", "x": n + 1, "got": g, "inputs": inputs, "held": list(held)})
            if g <= 0:
                break
        else:
            ops.append({"op": "next", "x": n + 1, "got": -3, "inputs": inputs, "held": list(held)})
    return {"sizes": [len(al) for *_, al in srcs], "alone": [1] * len(srcs), "ops": ops, "sources": [[k, f] for k, _, f, _ in srcs]}


def source_pool():
    r = corpus.rng(SEED, "C09pool")
    ms = d_question_matrices = d_question.reached_matrices(3000 if THOROUGH else 900, "C09", lo=5)
    jobs = []
    for p in corpus.cheap(4, 20, .3):
        if 1 <= corpus.costs()[p][0] <= 8:
            jobs.append(("solve", corpus.seed(p)))
            jobs.append(("seed", p))
    for p, m in ms:
        jobs.append(("advance", m))
        if p[0] - len(m) <= 5:
            jobs.append(("solve", m))
    qs = d_question.questions(1200 if THOROUGH else 400, "C09") + [d for d in pmap(d_question.matrix_question, ms, chunksize=20) if d]
    jobs += [("question", q) for q in qs]
    done = pmap(alone, jobs, chunksize=10, pairs=True)
    pool = [(k, d, al) for (k, d), al in done if al is not None and len(al) == len({repr(x) for x in al})]
    broken = [j for j, al in done if al is None]
    many = [x for x in pool if len(x[2]) > 1]
    one = [x for x in pool if len(x[2]) == 1]
    none = [x for x in pool if not x[2]]
    r.shuffle(many), r.shuffle(one), r.shuffle(none)
    return many, one, none, broken


def C09(c):
    big = THOROUGH
    for d, sz, mo, ops in [("nothing", "<<2,1>>", 3, 7 if big else 6)]:
        c.model("SessionsGen", "SPECIFICATION Spec\nCONSTANTS Size <- SizeDef MaxOpen=%d MaxOps=%d Design=\"%s\"\nINVARIANTS Independent NoFault\nVIEW View\nCHECK_DEADLOCK FALSE\n"
                % (mo, ops, d), "every schedule of up to %d operations on up to %d enumerations of two sources" % (ops, mo), env={"SIZES": "[2,1]"})
    many, one, none, broken = source_pool()
    if len(many) < 20:
        c.violation("too few of the inputs have several results when run alone", None, "%d inputs, %d fail" % (len(many), len(broken)))
        return
    r = corpus.rng(SEED, "C09")

    def pick():
        x = r.random()
        k, d, al = r.choice(many if x < .8 or not one else one if x < .95 or not none else none)
        return (k, d, r.random() < .4, al)
    jobs = []
    for n, (sizes, opens, length, count) in enumerate([((2, 3), 3, 12, 40), ((3, 2), 4, 20, 40)] if not big else [((2, 3), 3, 12, 300), ((3, 2), 4, 25, 300), ((4, 4, 2), 5, 40, 300)]):
        sch = schedules(list(sizes), opens, length, count, SEED * 10 + n)
        for ops in sch:
            for _ in range(3):
                srcs = []
                for s in sizes:
                    c0 = [x for x in many if len(x[2]) == s] or many
                    k, d, al = r.choice(c0)
                    srcs.append((k, d, r.random() < .3, al))
                if r.random() < .4:     # the same input twice
                    srcs[1] = srcs[0]
                jobs.append((srcs, ops))
    c.counts["schedules_from_tlc"] = len(jobs)
    for _ in range(3000 if big else 500):
        srcs = [pick() for _ in range(r.randint(1, 3))]
        jobs.append((srcs, random_schedule(r, srcs, r.randint(5, 40))))
    for k, d, al in (many + one + none)[: 3000 if big else 600]:       # the same object, asked again and again
        srcs = [(k, d, False, al)]
        ops = []
        for n in (1, 2, 3):
            ops.append({"op": "open", "x": 1})
            ops += [{"op": "next", "x": n}] * (len(al) + 1)
            if n == 1 and al:
                ops.append({"op": "spoil", "x": 1})
        jobs.append((srcs, ops))
    # very many results held at once, and very many enumerations open at once
    qs = d_question.large_questions((70, 150, 280) if not big else (70, 150, 280, 600))
    for (k, q), al in pmap(alone, [("question", q) for q in qs[::2]], pairs=True):
        if al is not None and len(al) == len({repr(x) for x in al}):
            srcs = [("question", q, True, al)]
            two = [{"op": "open", "x": 1}, {"op": "open", "x": 1}] if len(al) < 200 else [{"op": "open", "x": 1}]
            jobs.append((srcs, two + [{"op": "next", "x": 1 + j % len(two)} for j in range((len(al) + 1) * len(two))]))
    for _ in range(20 if big else 4):
        srcs = [pick() for _ in range(3)]
        opens = [r.randrange(3) for _ in range(60)]
        nexts = [n + 1 for n, s in enumerate(opens) for _ in range(len(srcs[s][3]) + 1)]
        r.shuffle(nexts)
        jobs.append((srcs, [{"op": "open", "x": s + 1} for s in opens] + [{"op": "next", "x": n} for n in nexts]))
    hs = pmap(replay, jobs, chunksize=10)
    tj = []
    for _ in range(60 if big else 12):
        srcs = [pick() for _ in range(r.randint(1, 3))]
        for j, p in enumerate([(10, 6, 3, 4), (13, 6, 2, 3)]):
            if r.random() < .5:
                al = alone(("solve", corpus.seed(p)))
                if al is not None:
                    srcs.append(("solve", corpus.seed(p), True, al))
        # the same question object from several threads would be simplified in place by each of them
        srcs = [(k, d, True if k == "question" else f, al) for k, d, f, al in srcs]
        tj.append((srcs, [(r.randrange(len(srcs)), r.random() < .5) for _ in range(r.randint(3, 8))]))
    hs += pmap(threads_history, tj)
    hs = [h for h in hs if h["ops"]]
    c.counts["thread_histories"] = len(tj)
    c.conform("TraceSessions", hs, "recorded histories of enumerations open at the same time",
              nontrivial=sum(1 for h in hs if sum(1 for o in h["ops"] if o["op"] == "open") > 1), unit="history",
              rule="history; non-trivial: at least two enumerations")


# ------------------------------------------------------------------ C24

def components(o, srg):
    if isinstance(o, srg.Answer):
        return {"kind": "a", "v": vec(d_search.ans_v(o)), "loc": vec(d_search.ans_loc(o)), "len": num(len(o))}
    A = o.A
    return {"kind": "q", "A": mat(A), "b": vec(o.b), "quota": num(o.quota), "bounds": vec(o.bounds), "c": int(A.shape[1]),
            "v": vec(d_search.ans_v(o.answer)), "loc": vec(d_search.ans_loc(o.answer)), "len": num(len(o.answer))}


def run_history(ops):
    solver, srg = d_search.repo()
    import numpy as np
    heap, rec = [], []
    arr = lambda m, c: srg.array(m).reshape(len(m), c)
    ans = lambda x: srg.Answer(value=srg.array(x["v"]), location=np.array(x["loc"], dtype=int), len=x["len"])

    def do(o):
        op = o["op"]
        if op == "newa":
            heap.append(ans(o["x"]))
        elif op == "newq":
            x = o["x"]
            dflt = x["v"] == [-1] * x["c"] and x["loc"] == list(range(x["c"])) and x["len"] == x["c"]
            given = None if dflt and o.get("default", True) else ans(x)
            heap.append(srg.Question(arr(x["A"], x["c"]), srg.array(x["b"]), x["quota"], srg.array(x["bounds"]), given)
                        if given is not None else srg.Question(arr(x["A"], x["c"]), srg.array(x["b"]), x["quota"], srg.array(x["bounds"])))
        elif op == "copy":
            heap.append(heap[o["i"] - 1].copy())
        elif op == "eq":
            pass
        else:
            t = heap[o["i"] - 1]
            if op == "b":
                t.b = srg.array(o["x"])
            elif op == "bounds":
                t.bounds = srg.array(o["x"])
            elif op == "quota":
                t.quota = o["x"]
            elif op == "A":
                t.A = arr(o["x"], o["c"])
            elif op == "answer":
                t.answer = ans(o["x"])
            elif op == "poke":
                a = t if isinstance(t, srg.Answer) else t.answer
                f = {"A": lambda: t.A, "b": lambda: t.b, "bounds": lambda: t.bounds, "v": lambda: d_search.ans_v(a), "loc": lambda: d_search.ans_loc(a)}[o["f"]]()
                if o["f"] == "A":
                    f[o["r"] - 1, o["j"] - 1] = o["x"]
                else:
                    f[o["j"] - 1] = o["x"]
    for o in ops:
        out, _ = limited(5, do, o)
        e = dict(o)
        e["ok"] = out == "ok"
        st, e["heap"] = wellformed(lambda: [components(x, srg) for x in heap])
        e["eqs"], e["nes"] = [], []
        if st == "ok":
            for i, a in enumerate(heap):
                for j, b in enumerate(heap):
                    if type(a) is type(b):
                        st1, r = limited(5, lambda: (a == b, a != b))
                        if st1 != "ok":
                            e["eqs"].append([0, 0])
                            continue
                        if r[0]:
                            e["eqs"].append([i + 1, j + 1])
                        if r[1]:
                            e["nes"].append([i + 1, j + 1])
        else:
            e["heap"] = []
        rec.append(e)
        if st != "ok":
            break
    return {"ops": rec}


class Model:
    """Keeps just enough of the heap to generate meaningful operations (verdicts are TLC's)."""

    def __init__(self, r, wide=False):
        self.r, self.heap, self.wide = r, [], wide

    def size(self, small):
        return self.r.choice([40, 66, 80, 130, 140, 260]) if self.wide and self.r.random() < .6 else self.r.randint(1, small)

    def count(self, small):
        return self.r.choice([1, 100, 127, 128, 200, 255, 256, 40000, 70000]) if self.wide and self.r.random() < .7 else self.r.randint(0, small)

    def answer(self, unknown=None, valid=True):
        r = self.r
        n = self.size(5)
        if unknown is not None:
            n = max(n, unknown)
        loc = [0]
        for _ in range(n - 1):
            loc.append(loc[-1] + 1 + self.count(2))
        length = loc[-1] + r.randint(1, 3)
        v = [self.count(3) for _ in range(n)]
        for j in r.sample(range(n), unknown if unknown is not None else r.randint(0, n)):
            v[j] = -1
        if not valid:
            k = r.randrange(6)
            if k == 0:
                loc[0] = 1
            elif k == 1 and n > 1:
                loc[-1] = loc[-2]
            elif k == 2 and n > 1:
                loc[-1], loc[-2] = loc[-2], loc[-1]
            elif k == 3:
                length = loc[-1]
            elif k == 4:
                v = v + [-1]
            else:
                v = v[:-1]
        return {"v": v, "loc": loc, "len": length}

    def question(self, valid=True):
        r = self.r
        R, C = self.size(4), self.size(4)
        if valid and r.random() < .1:
            R = 0
        q = {"A": [[r.randint(0, 1) for _ in range(C)] for _ in range(R)], "b": [self.count(4) for _ in range(R)], "quota": self.count(5),
             "bounds": [self.count(3) for _ in range(C)], "c": C}
        if r.random() < .4:
            q.update({"v": [-1] * C, "loc": list(range(C)), "len": C})
        else:
            q.update(self.answer(C))
        if not valid:
            k = r.randrange(6)
            if self.wide and r.random() < .5:
                k = r.randrange(2)
            if k == 2 and r.random() < .5:
                k = 6
            if k == 6:      # several at once
                q["b"], q["bounds"] = q["b"] + [1], q["bounds"] + [1]
            elif k == 0:
                q["b"][r.choice([-1, r.randrange(R)])] = -1
            elif k == 1:
                q["bounds"][r.choice([-1, r.randrange(C)])] = -1
            elif k == 2:
                q["quota"] = -1
            elif k == 3:
                q["b"] = q["b"] + [1] * r.randint(1, 2) if r.random() < .5 else q["b"][:-1]
            elif k == 4:
                q["bounds"] = q["bounds"] + [1] * r.randint(1, 2) if r.random() < .5 else q["bounds"][:-1]
            else:
                q.update(self.answer(C + 1 if r.random() < .5 else C - 1))
        return q


def ok_answer(x):
    return len(x["v"]) == len(x["loc"]) and x["loc"][0] == 0 and x["loc"][-1] < x["len"] and all(a < b for a, b in zip(x["loc"], x["loc"][1:]))


def gen_history(key):
    r = corpus.rng(SEED, "C24", key)
    wide = key % 25 == 7
    m = Model(r, wide)
    heap, ops = m.heap, []
    for _ in range(r.randint(4, 8 if wide else 14)):
        k = r.random()
        if not heap or (k < .2 and len(heap) < (3 if wide else 6)):
            valid = r.random() < (.5 if wide else .75)
            if r.random() < .4:
                x = m.answer(valid=valid)
                ops.append({"op": "newa", "x": x})
                if ok_answer(x):
                    heap.append(dict(kind="a", **json.loads(json.dumps(x))))
            else:
                x = m.question(valid)
                ops.append({"op": "newq", "x": x, "default": r.random() < .7})
                if ok_answer(x) and min(x["b"] + x["bounds"] + [x["quota"]]) >= 0 and len(x["A"]) == len(x["b"]) and x["c"] == len(x["bounds"]) \
                        and x["v"].count(-1) == x["c"]:
                    heap.append(dict(kind="q", **json.loads(json.dumps(x))))
            continue
        i = r.randrange(len(heap))
        o = heap[i]
        consistent = o["kind"] == "a" and ok_answer(o) or o["kind"] == "q" and ok_answer(o) and len(o["A"]) == len(o["b"]) and o["c"] == len(o["bounds"]) \
            and min(o["b"] + o["bounds"] + [o["quota"]]) >= 0 and o["v"].count(-1) == o["c"]
        if k < .45 and len(heap) < (4 if wide else 7) and consistent:
            ops.append({"op": "copy", "i": i + 1})
            heap.append(json.loads(json.dumps(o)))
            continue
        if k < .75:
            f = r.choice(["v", "loc"] if o["kind"] == "a" else ["A", "b", "bounds", "v", "v", "loc"])
            e = {"op": "poke", "i": i + 1, "f": f, "r": 0, "j": 0, "x": r.randint(0, 4)}
            if f == "A":
                if not o["A"] or not o["A"][0]:
                    continue
                e["r"], e["j"], e["x"] = r.randint(1, len(o["A"])), r.randint(1, len(o["A"][0])), r.randint(0, 1)
                o["A"][e["r"] - 1][e["j"] - 1] = e["x"]
            else:
                if not o[f]:
                    continue
                e["j"] = r.randint(1, len(o[f]))
                if f == "v":
                    e["x"] = r.choice([o["v"][e["j"] - 1], r.randint(0, 4)]) if o["v"][e["j"] - 1] == -1 and r.random() < .7 else r.choice([-1, 0, 1, 5])
                if f == "loc":
                    e["x"] = r.choice([o["loc"][e["j"] - 1], o["loc"][e["j"] - 1] + 1])
                o[f][e["j"] - 1] = e["x"]
            ops.append(e)
            continue
        if o["kind"] == "a":
            continue
        f = r.choice(["b", "bounds", "b", "bounds", "quota", "answer"] if wide else ["b", "bounds", "quota", "answer", "answer", "A"])
        bad = r.random() < (.6 if wide else .35)
        if f == "quota":
            x = r.randint(-3, -1) if bad else m.count(6)
            ok = x >= 0
        elif f in ("b", "bounds"):
            x = [m.count(4) for _ in range(len(o[f]) if r.random() < .8 else r.randint(1, 5))]
            if bad and x:
                x[-1 if wide and r.random() < .4 else r.randrange(len(x))] = r.choice([-1, -5])
            ok = min(x + [0]) >= 0
        elif f == "A":
            C = o["c"] if r.random() < .7 else r.randint(1, 5)
            x = [[r.randint(0, 1) for _ in range(C)] for _ in range(r.randint(1, 4))]
            ops.append({"op": "A", "i": i + 1, "x": x, "c": C})
            o["A"], o["c"] = json.loads(json.dumps(x)), C
            continue
        else:
            x = m.answer(o["c"] if not bad else max(0, o["c"] + r.choice([-1, 1])), valid=r.random() < .9)
            ok = ok_answer(x) and x["v"].count(-1) == o["c"]
        ops.append({"op": f, "i": i + 1, "x": x})
        if ok:
            if f == "answer":
                o.update(json.loads(json.dumps(x)))
            else:
                o[f] = json.loads(json.dumps(x))
    return ops


def large_history(key):
    """Objects of very many buckets, equations or unknowns, alike but for one entry."""
    r = corpus.rng(SEED, "C24large", key)
    n = r.choice([1005, 1100, 1500, 2100])
    loc = list(range(n))
    kind = key % 3
    if kind == 0:
        x = {"v": [r.choice([0, 1, 1, -1]) for _ in range(n)], "loc": loc, "len": n + r.randint(0, 3)}
        ops, fields = [{"op": "newa", "x": x}], ["v", "v", "loc"]
        y = json.loads(json.dumps(x))
        y["v"][r.randrange(n)] = 5
        tail = [{"op": "newa", "x": y}]
    else:
        R, C = (n, 2) if kind == 1 else (2, n)
        x = {"A": [[r.randint(0, 1) for _ in range(C)] for _ in range(R)], "b": [r.randint(0, 3) for _ in range(R)], "quota": r.randint(0, 9),
             "bounds": [r.randint(0, 3) for _ in range(C)], "c": C, "v": [-1] * C, "loc": list(range(C)), "len": C}
        ops, fields = [{"op": "newq", "x": x, "default": False}], ["A", "b"] if kind == 1 else ["A", "bounds", "v"]
        y = json.loads(json.dumps(x))
        f = "b" if kind == 1 else "bounds"
        y[f][r.randrange(n // 2, n)] = -1
        tail = [{"op": "newq", "x": y, "default": False}, {"op": f, "i": 1, "x": list(y[f])}]
    ops.append({"op": "copy", "i": 1})
    for _ in range(2):
        f = r.choice(fields)
        e = {"op": "poke", "i": r.choice([1, 2]), "f": f, "r": 0, "j": r.randint(n // 4, n - n // 4), "x": r.choice([0, 1, 7])}
        if f == "A":
            e.update(r=r.randint(1, R), j=r.randint(1, C), x=r.randint(0, 1))
            e["r" if R > 2 else "j"] = r.randint(n // 4, n - n // 4)
        if f == "loc":
            e["x"] = e["j"] - 1
        ops.append(e)
    return ops + tail


def histories_from_tlc(count, depth):
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxHeap=3 MaxOps=%d Deep=TRUE\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n" % depth
    r = vlib.tlc("Values", cfg, workers=1, extra=["-simulate", "num=%d" % count, "-depth", str(depth + 1), "-seed", str(SEED)])
    res = sorted({s.replace('\\"', '"') for s in re.findall(r'^"?HISTORY (.*?)"?$', r.out, re.M)})
    if not res:
        raise vlib.MachineryError("no histories generated:\n" + r.out[-2000:])
    return [json.loads(s) for s in corpus.rng(SEED, "C24tlc").sample(res, min(len(res), 10 * count))]


def C24(c):
    c.model("Values", "SPECIFICATION Spec\nCONSTANTS MaxHeap=%d MaxOps=%d Deep=TRUE\nINVARIANTS Guarded CopyEqual\nPROPERTIES Separate\nVIEW View\nCHECK_DEADLOCK FALSE\n"
            % ((3, 4) if THOROUGH else (2, 4)), "every sequence of operations on up to %d objects" % (3 if THOROUGH else 2))
    hs = histories_from_tlc(3000 if THOROUGH else 300, 8)
    c.counts["histories_from_tlc"] = len(hs)
    hs += pmap(gen_history, range(12000 if THOROUGH else 1500), chunksize=50)
    hs = [h for h in hs if h] + [large_history(k) for k in range(60 if THOROUGH else 12)]
    ev = pmap(run_history, hs, chunksize=25)
    c.conform("TraceValues", ev, "recorded histories of questions and answers", unit="history",
              nontrivial=sum(1 for h in ev if any(o["op"] == "copy" for o in h["ops"]) and any(not o["ok"] for o in h["ops"])),
              rule="distinct history; non-trivial: contains a copy and a refused operation")
