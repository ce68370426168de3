#!/usr/bin/env python3
"""tools/selftest.py [designs] [Cnn ...]: tests of the machinery itself (not a registered check).

designs: specifications with a deliberately wrong design must be refuted by TLC.
Cnn:     the events or histories the check records from the real code are corrupted one by one (a result dropped,
         repeated or altered, another outcome) and judged again; prints how many of the corrupted ones TLC rejects,
         per kind of event and field, and the accepted ones under -v."""
import copy, json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
for k, v in dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", TERM="dumb").items():
    os.environ[k] = v
import vlib

WRONG = [
    ("RowSolver", "SPECIFICATION Spec\nCONSTANTS Rows=2 Cols=2 MaxSize=1 MaxB=1 DropContradictions=TRUE\nINVARIANTS WellFormed NothingLost EachOnce FillAgrees\nCHECK_DEADLOCK FALSE\n", {}),
    ("SessionsGen", "SPECIFICATION Spec\nCONSTANTS Size <- SizeDef MaxOpen=2 MaxOps=5 Design=\"cursor\"\nINVARIANTS Independent NoFault\nVIEW View\nCHECK_DEADLOCK FALSE\n", {"SIZES": "[2,1]"}),
    ("SessionsGen", "SPECIFICATION Spec\nCONSTANTS Size <- SizeDef MaxOpen=2 MaxOps=5 Design=\"buffer\"\nINVARIANTS Independent NoFault\nVIEW View\nCHECK_DEADLOCK FALSE\n", {"SIZES": "[2,1]"}),
    ("Values", "SPECIFICATION Spec\nCONSTANTS MaxHeap=2 MaxOps=4 Deep=FALSE\nINVARIANTS Guarded CopyEqual\nPROPERTIES Separate\nVIEW View\nCHECK_DEADLOCK FALSE\n", {}),
    ("Maximize", "SPECIFICATION Spec\nCONSTANTS MaxOrder=4 Stable=FALSE\nINVARIANTS Relabelled FirstStays RowsDone AtEnd\nPROPERTIES NeverDown Ends\nCHECK_DEADLOCK FALSE\n", {}),
]


def designs():
    bad = 0
    for mod, cfg, env in WRONG:
        r = vlib.tlc(mod, cfg, env=env)
        m = re.search(r"Error: (?:Invariant|Action property|Temporal propert\w+)[^\n]*", r.out)
        print(mod, "refuted: " + m.group(0)[7:] if not r.ok and m else "NOT REFUTED\n" + r.out[-600:])
        bad |= r.ok or not m
    return bad


# fields a driver fills in from what the code did (all others are inputs of the event)
OUTPUTS = {"advance": ["succ"], "solve": ["results", "ys"], "question": ["A", "b", "quota", "bounds", "v", "loc"], "vklu": ["tuple"],
           "seed": ["rows"], "tuples": ["rows"], "step": ["r"], "split": ["parts", "after"], "values": ["list"], "elim": ["rA", "rb", "args"],
           "sortrows": ["rA", "rb"], "compress": ["kept", "mult", "starts", "back", "args"], "place": ["list"],
           "wrap": ["wrapped"], "history": ["ops"]}
SKIP = {"op", "p", "m", "q", "name", "pre", "s", "form", "brute", "key", "cpu", "what", "kind", "watched"}


def corrupt(x, r):
    """A slightly different value."""
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return 1 - x if x in (0, 1) and r.random() < .8 else x + r.choice([-1, 1])
    if isinstance(x, str):
        return "raise:RuntimeError" if x == "ok" else "ok" if x.startswith(("raise:", "nosol", "refused")) else x + "?"
    if isinstance(x, dict):
        ks = sorted(x)
        x = dict(x)
        k = r.choice(ks)
        x[k] = corrupt(x[k], r)
        return x
    if isinstance(x, list):
        if not x:
            return [1]
        c, j = r.random(), r.randrange(len(x))
        if c < .2:
            return x[:j] + x[j + 1:]
        if c < .35:
            return x[:j] + [x[j]] + x[j:]
        return x[:j] + [corrupt(x[j], r)] + x[j + 1:]
    return x


def trial(pid, per=12, verbose=False):
    r = random.Random("selftest" + pid)
    stats = {}

    class Spy(vlib.Check):
        def model(self, *a, **k):
            self.traces += 0

        def conform(self, module, events, what, timeout=800, cfg=vlib.TRACE_CFG, env=None, **k):
            self.traces += 1
            bykind = {}
            for e in events:
                for f in OUTPUTS.get(e.get("op"), [f for f in e if f not in SKIP]):
                    if f in e and f != "out":
                        bykind.setdefault((e.get("op"), f), []).append(e)
                if "out" in e and "ops" not in e:
                    bykind.setdefault((e.get("op"), "out"), []).append(e)
            bad, tag = [], []
            for (op, f), es in sorted(bykind.items(), key=str):
                for e in r.sample(es, min(per, len(es))):
                    z = dict(e)
                    z[f] = corrupt(copy.deepcopy(e[f]), r)
                    if z != e:
                        bad.append(z)
                        tag.append((op, f, e))
            rejected = set()
            left = list(range(1, len(bad) + 1))
            while left:                 # TLC stops at an event it cannot interpret (which a check reports too)
                path = vlib.write_trace([bad[j - 1] for j in left])
                t = vlib.tlc(module, cfg, env={"TRACE": path, **(env or {})}, timeout=timeout, extra=("-continue",))
                os.unlink(path)
                found = [int(m.group(1)) for b in re.findall(r"State \d+:[^\n]*\n((?:.+\n)+)", t.out)
                         for m in [re.search(r"(?:/\\ |^)(?:i|h) = -?(\d+)", b)] if m]
                stopped = "No error has been found" not in t.out and not re.search(r"\d+ states generated.*0 states left", t.out)
                rejected |= {left[k - 1] for k in found}
                if not stopped or not found:
                    if stopped:
                        print(t.out[-1500:])
                    break
                left = [j for j in left if j not in rejected]
            for j, (op, f, e) in enumerate(tag, 1):
                s = stats.setdefault((module, op, f), [0, 0])
                s[1] += 1
                if j in rejected:
                    s[0] += 1
                elif verbose:
                    print("accepted", op, f, json.dumps(e.get(f))[:300], "->", json.dumps(bad[j - 1].get(f))[:300])
            return True
    import importlib
    for name in ("d_search", "d_question", "d_graph", "d_db", "d_cli", "d_sessions"):
        mod = importlib.import_module(name)
        if hasattr(mod, pid):
            getattr(mod, pid)(Spy(pid))
    for k, (a, b) in sorted(stats.items(), key=str):
        print("%s %-14s %-12s %-10s rejected %d of %d" % (pid, *k, a, b), flush=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a != "-v"] or ["designs"]
    rc = 0
    for a in args:
        rc |= bool(designs() if a == "designs" else trial(a, verbose="-v" in sys.argv))
    sys.exit(rc)
