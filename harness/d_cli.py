"""Command line of the enumeration: C20."""
import os, re, subprocess, tempfile, threading, shutil
import vlib, corpus, d_search
from vlib import num, pmap, THOROUGH, SEED

BAD = -1000000


# how the outside of a run may look: what is asked for has to be answered the same way
SURROUNDINGS = {"": {}, "nocolor": {"NO_COLOR": "1", "TERM": "dumb"}, "ascii": {"LC_ALL": "C", "PYTHONIOENCODING": "ascii", "LANG": "C"},
                "narrow": {"COLUMNS": "20", "LINES": "5"}, "loud": {"FORCE_COLOR": "1", "CLICOLOR_FORCE": "1", "TERM": "xterm-256color"},
                "terminal": {"TERM": "xterm"}, "file": {}, "flushed": {"PYTHONUNBUFFERED": "1"}}


def run_terminal(cmd, cwd, env, cpu):
    """The same with a terminal for standard output."""
    main, side = os.openpty()
    got = []
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=side, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        os.close(side)

        def read(fd, out):
            while True:
                try:
                    x = os.read(fd, 65536)
                except OSError:
                    break
                if not x:
                    break
                out.append(x)
        ts = [threading.Thread(target=read, args=(main, got)), threading.Thread(target=read, args=(p.stderr.fileno(), []))]
        for t in ts:
            t.start()
        try:
            rc = p.wait(cpu)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        for t in ts:
            t.join(20)
        p.stderr.close()
        return rc, b"".join(got).replace(b"\r\n", b"\n")
    finally:
        os.close(main)


def run_cli(module, args, cwd, cpu=120, prelude=None, repo=None, around=""):
    """-> (return code, stdout without colours)"""
    cmd = [vlib.PYTHON, "-m", module, *args] if prelude is None else [vlib.PYTHON, "-c", prelude, *args]
    env = dict(vlib.repo_env(), **({"PYTHONPATH": repo} if repo else {}), **SURROUNDINGS[around])
    try:
        if around == "terminal":
            rc, out = run_terminal(cmd, cwd, env, cpu)
        elif around == "file":
            with tempfile.TemporaryFile() as f:
                rc = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.DEVNULL, timeout=cpu, stdin=subprocess.DEVNULL).returncode
                f.seek(0)
                out = f.read()
        else:
            p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=cpu,
                               stdin=subprocess.DEVNULL)
            rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return None, ""
    return rc, re.sub(r"\x1b\[[0-9;?]*[A-Za-z]", "", out.decode("utf-8", "replace"))


def matrices(text):
    """Every matrix printed, [[...]], as lists of integers; raises Malformed."""
    out = []
    for m in re.finditer(r"\[\s*\[[^\[\]]*\](?:[\s,]*\[[^\[\]]*\])*[\s,]*\]|\[\s*\[", text):
        rows = []
        for row in re.findall(r"\[([^\[\]]*)\]", m.group(0)):
            words = row.replace(",", " ").split()
            if not all(re.fullmatch(r"-?\d+\.?", w) for w in words):
                raise vlib.Malformed(row[:80])
            rows.append([num(int(w.rstrip("."))) for w in words])
        if not rows:
            raise vlib.Malformed("unfinished matrix")
        out.append(rows)
    if "..." in text:
        raise vlib.Malformed("abbreviated output")
    return out


def cli_event(job):
    words, around = job
    d = tempfile.mkdtemp(prefix="vcli.")
    try:
        rc, text = run_cli("srg", words, d, around=around)
        left = os.listdir(d)
    finally:
        shutil.rmtree(d)
    toks = [int(w) if re.fullmatch(r"[+-]?\d+", w) else BAD for w in words]
    e = {"op": "cli", "words": toks, "args": words, "around": around, "fails": rc != 0, "head": [], "mats": [], "all": [], "out": "ok"}
    if rc is None:
        e["out"] = "timeout"
        return e
    try:
        e["mats"] = matrices(text)
    except vlib.Malformed:
        e["out"] = "malformed"
        return e
    head = re.split(r"\[\s*\[", text)[0]
    e["head"] = [int(x) for x in re.findall(r"-?\d+", head)][:4]
    if len(toks) == 4 and BAD not in toks and rc == 0:
        st, e["all"] = d_search.do_solve(corpus.seed(toks), 100)
        if st != "ok":
            e["all"] = [[[2]]]
    return e


def C20(c):
    c.model("FrontEnd", "SPECIFICATION Spec\nCONSTANTS MaxV=%d Stored={}\nINVARIANTS AnsweredRight NothingEarly PartSeen\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n"
            % (9 if THOROUGH else 6), "every small tuple and malformed argument lists, read, checked, answered")
    r = corpus.rng(SEED, "C20")
    good = [p for p in corpus.cheap(4, 40, 6.0 if THOROUGH else 1.0)]
    multi = [p for p in good if corpus.costs()[p][0] > 1]
    wide = [p for p in corpus.cheap(31, 70, 2.0 if THOROUGH else .8) if corpus.costs()[p][0] >= 1]
    none = [p for p in good if corpus.costs()[p][0] == 0]
    pick = lambda l, n: l if len(l) <= n else r.sample(l, n)
    ps = pick(multi, 200 if THOROUGH else 30) + pick(wide, 60 if THOROUGH else 12) + pick(none, 60 if THOROUGH else 10) \
        + pick([p for p in good if corpus.costs()[p][0] == 1], 200 if THOROUGH else 20)
    # more than 63 columns, more than 80 characters in a line, more than 1000 entries
    ps += [(32, 1, 0, 0), (34, 16, 15, 0), (36, 34, 32, 34), (64, 63 - 1, 60, 62), (66, 2, 1, 0), (70, 68, 66, 68)]
    ps = [p for p in dict.fromkeys(ps) if p in corpus.costs() and corpus.costs()[p][0] >= 0]
    ps += [(100, 1, 0, 0), (101, 1, 0, 0), (99, 2, 1, 0), (130, 1, 0, 0)]       # very long matrices
    jobs = [[str(x) for x in p] for p in ps]
    bad = []
    for p in pick(list(corpus.feasible(3, 30)), 40 if THOROUGH else 12):
        t = list(p)
        t[r.randrange(4)] += r.choice([-1, 1])
        if (t[0] - t[1] - 1) * t[3] != t[1] * (t[1] - t[2] - 1):
            bad.append([str(x) for x in t])
    bad += [[], ["5"], ["5", "2", "0"], ["5", "2", "0", "1", "1"], ["5", "2", "0", "one"], ["five", "2", "0", "1"], ["5", "2", "0.0", "1"],
            ["5", "2", "0", ""], ["5", "2", "", "1"], ["5.0", "2", "0", "1"], ["5", "2", "0", "1", "x"], ["(5,2,0,1)"], ["5,2,0,1"],
            ["10", "3", "0", "2"], ["-5", "2", "0", "1"], ["5", "-2", "0", "1"], ["9", "4", "1", "3"], ["5", "2", "1", "1"], ["16", "6", "2", "3"]]
    for v in [64, 100, 120, 129, 200, 256, 300, 1000, 5000] + ([r.randint(65, 3000) for _ in range(30)] if THOROUGH else []):
        k = r.randint(1, v - 3)                         # wrong, and large
        t = [v, k, r.randint(0, k - 1), r.randint(0, k)] if v > 100 else r.choice([[v, 1, 0, 1], [v, v // 2, 1, 1], [v, 2, 1, 2]])
        if (t[0] - t[1] - 1) * t[3] != t[1] * (t[1] - t[2] - 1):
            bad.append([str(x) for x in t])
            bad.append([str(x) for x in (v, 1, 0, 1)])
    for v, k, l, u in pick([p for p in corpus.feasible(30, 130) if p[3] > 0], 60 if THOROUGH else 10):
        t = [v, k, l, u + r.choice([-1, 1])]
        bad.append([str(x) for x in t])
    arounds = sorted(SURROUNDINGS)
    jobs += [b for j, b in enumerate(bad) if b not in bad[:j]]
    jobs = [(j, "") for j in jobs]
    for x in (["16", "9", "4", "6"], ["16", "6", "2", "2"], ["10", "3", "0", "1"], ["70", "68", "66", "68"], ["7", "2", "1", "0"], ["10", "3", "0", "2"],
              ["5", "2", "0", "one"], []):
        jobs += [(x, a) for a in arounds if a]
    ev = pmap(cli_event, jobs, chunksize=2)
    c.conform("TraceFront", ev, "recorded runs of python -m srg", nontrivial=sum(1 for e in ev if e["mats"]) + len(bad),
              rule="distinct argument list; non-trivial: matrices were printed, or the arguments are wrong")
