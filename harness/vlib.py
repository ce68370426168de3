"""Shared machinery of the checks: running the code under test, running TLC, verdicts and evidence.

Verdicts are always TLC's: a driver only records what the real code does (events, histories), a
trace module under /verif/spec decides whether the specification allows it.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
PYTHON = sys.executable


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- running the code under test

class CpuLimit(BaseException):
    pass


def _on_prof(sig, frm):
    raise CpuLimit()


def repo_env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", TERM="dumb",
             LANG="C.UTF-8", PYTHONPATH=REPO)
    return e


def import_repo():
    """Make the working tree's package importable in this process (never stale bytecode)."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/pycache"
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings("ignore")


def limited(cpu_s, fn, *a, **kw):
    """Run fn under a CPU time limit. -> (outcome, value); outcome: ok | raise:<type> | timeout."""
    old = signal.signal(signal.SIGPROF, _on_prof)
    try:
        signal.setitimer(signal.ITIMER_PROF, cpu_s)
        try:
            v = fn(*a, **kw)
            signal.setitimer(signal.ITIMER_PROF, 0)
            return "ok", v
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except CpuLimit:
        return "timeout", None
    except (Exception, RecursionError) as e:
        return "raise:" + type(e).__name__, str(e)[:300]
    finally:
        signal.signal(signal.SIGPROF, old)


def _init_worker(quiet=True):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    if quiet:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)


class PackageFailure(Exception):
    """The package raised where only valid objects were prepared or read: a verdict, not an error of the harness."""


def package_raised(e):
    """Was e raised inside the package (the frames after the last one of the harness belong to it)?"""
    if isinstance(e, (MachineryError, CpuLimit, MemoryError, KeyboardInterrupt, SystemExit)):
        return False
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        name = os.path.realpath(f.filename)
        if name.startswith(os.path.join(VERIF, "harness") + os.sep):
            return False
        if name.startswith(os.path.join(os.path.realpath(REPO), "srg") + os.sep):
            return True
    return False


def _call(job):
    fn, arg = job
    try:
        return ("done", fn(arg))
    except CpuLimit:
        return ("error", "cpu limit outside a limited call")
    except BaseException as e:
        return ("failed" if package_raised(e) else "error", traceback.format_exc())


def _calls(job):
    fn, args = job
    return [_call((fn, a)) for a in args]


T0 = time.time()
UNFINISHED = [0]                                # jobs given up because recording took too long
RECORDING = 3000.0 if THOROUGH else 480.0       # seconds a check may spend recording


def pmap(fn, args, procs=None, chunksize=1, pairs=False):
    """Parallel map in forked workers; an error of the harness itself is a MachineryError. Jobs that take the check
    beyond its time (code under test slower than expected) are left out. pairs: (argument, result) instead of the result."""
    args = list(args)
    if not args:
        return []
    chunks = [args[j:j + chunksize] for j in range(0, len(args), chunksize)]
    limit = time.time() + max(25.0, .7 * (T0 + RECORDING - time.time()))
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(procs or NCPU, len(chunks)), initializer=_init_worker)
    try:
        res = [pool.apply_async(_calls, ((fn, ch),)) for ch in chunks]
        out = []
        for ch, r in zip(chunks, res):
            try:
                out += zip(ch, r.get(timeout=max(0.0, limit - time.time())))
            except mp.TimeoutError:
                UNFINISHED[0] += len(ch)
    finally:
        pool.terminate()
        pool.join()
    for _, (st, v) in out:
        if st == "error":
            raise MachineryError("driver failed:\n" + v)
    for a, (st, v) in out:
        if st == "failed":
            raise PackageFailure(v, repr(a)[:2000])
    return [(a, v) if pairs else v for a, (_, v) in out]


# ---------------------------------------------------------------- values for TLA+

class Malformed(Exception):
    pass


def num(x):
    """A plain TLC integer."""
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        i = int(x)
    elif isinstance(x, (float, np.floating)) and float(x).is_integer():
        i = int(x)
    else:
        raise Malformed(repr(x)[:100])
    if not -2**31 < i < 2**31:
        raise Malformed("too big: %d" % i)
    return i


def vec(x):
    return [num(e) for e in x]


def mat(x):
    return [vec(r) for r in x]


def wellformed(fn, *a):
    """-> ("ok", value) or ("malformed", None): results of the wrong shape or type are a verdict, not an error."""
    try:
        return "ok", fn(*a)
    except Malformed:
        return "malformed", None
    except (TypeError, ValueError, AttributeError, IndexError):
        return "malformed", None


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, ok, states, distinct, out, violated, state, wall):
        self.ok, self.states, self.distinct, self.out = ok, states, distinct, out
        self.violated, self.state, self.wall = violated, state, wall
        self.generated = states


def tlc(module, cfg, env=None, workers=None, timeout=800, xmx="6g", extra=(), expect_complete=True, xss="64m"):
    """Run TLC on /verif/spec/<module>.tla with the configuration text cfg in a scratch directory."""
    d = tempfile.mkdtemp(prefix="vtlc.")
    t0 = time.time()
    try:
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss" + xss, "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", "run.cfg", *extra, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC on %s exceeded %ds" % (module, timeout))
        out = p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = "\n".join(l for l in out.split("\n") if not re.match(r"(Parsing file|Semantic processing|Linting of)", l))
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    st, di = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    ok = "Model checking completed. No error has been found." in out and p.returncode == 0
    violated, state = None, None
    v = re.search(r"Error: (?:Invariant|Action property|Temporal property|Property) ?(\S+)? ?(?:is|was) violated", out)
    if v:
        violated = v.group(1) or "property"
    elif re.search(r"Temporal properties were violated|Error: Postcondition|Error: Deadlock|Assumption .* is false|evaluation of the invariant|Error:", out) and not ok:
        violated = None
    if v:
        state = parse_last_state(out)
    return TlcResult(ok, st, di, out, violated, state, time.time() - t0)


def parse_last_state(out):
    blocks = re.findall(r"State \d+:[^\n]*\n((?:.+\n)+)", out)
    if blocks:
        return blocks[-1].strip()
    m = re.search(r"is violated by the initial state:\n((?:.+\n)+)", out)
    return m.group(1).strip() if m else ""


TRACE_CFG = """INIT TraceInit
NEXT TraceNext
INVARIANT Conforms
CHECK_DEADLOCK FALSE
"""


def write_trace(events):
    fd, path = tempfile.mkstemp(prefix="vtrace.", suffix=".ndjson")
    with os.fdopen(fd, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    return path


# ---------------------------------------------------------------- one check

class Check:
    """Collects model checking and conformance results of one property and reports them."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.trans = self.traces = 0
        self.stages = []
        self.samples = []
        self.viol = []
        self.assumptions = []
        self.counts = {}
        self.known_hit = []
        self.only_clauses = None

    # -- design level
    def model(self, module, cfg, what, env=None, workers=None, timeout=800, extra=(), must_reach=()):
        r = tlc(module, cfg, env=env, workers=workers, timeout=timeout, extra=extra)
        if not r.ok:
            raise MachineryError("model checking of %s (%s) failed:\n%s" % (module, what, r.out[-4000:]))
        self.states += r.distinct
        self.trans += r.states
        self.stages.append({"stage": "model", "module": module, "what": what, "states": r.distinct,
                            "transitions": r.states, "wall_s": round(r.wall, 1)})
        return r

    # -- proofs for all integers; they do not depend on the repository, so they are reported and decide nothing
    def prove(self, module, needs, what, timeout=120):
        t = time.time()
        d = tempfile.mkdtemp(prefix="vproof.")
        try:
            for m in [module] + needs:
                shutil.copy(os.path.join(VERIF, "spec", m + ".tla"), d)
            p = subprocess.run(["tlapm", "--threads", "4", module + ".tla"], cwd=d, timeout=timeout, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            m = re.search(r"All (\d+) obligations proved", p.stdout.decode("utf-8", "replace"))
            n = int(m.group(1)) if m else 0
        except (OSError, subprocess.SubprocessError):
            n = 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.stages.append({"stage": "proof", "module": module, "what": what, "obligations_proved": n, "wall_s": round(time.time() - t, 1)})

    # -- conformance: independent events or histories
    def conform(self, module, events, what, nontrivial=None, rule=None, timeout=800, cfg=TRACE_CFG, env=None, unit="event", xmx="10g"):
        if not events:
            raise MachineryError("no events recorded for " + what)
        path = write_trace(events)
        try:
            e = {"TRACE": path}
            e.update(env or {})
            r = tlc(module, cfg, env=e, timeout=timeout, xmx=xmx)
        finally:
            os.unlink(path)
        self.states += r.distinct
        self.trans += r.states
        st = {"stage": "conformance", "module": module, "what": what, unit + "s": len(events), "states": r.distinct,
              "wall_s": round(r.wall, 1)}
        if nontrivial is not None:
            st["nontrivial"] = nontrivial
        if rule:
            st["rule"] = rule
        self.stages.append(st)
        if len(self.samples) < 6:
            for ev in (events[0], events[len(events) // 2]):
                s = json.dumps(ev, separators=(",", ":"))
                self.samples.append(s if len(s) < 700 else s[:700] + "...")
        if r.ok:
            self.traces += len(events)
            return True
        if r.violated == "Conforms":
            m = re.search(r"/\\ i = -?(\d+)", r.state) or re.search(r"\bi = -?(\d+)", r.state)
            i = int(m.group(1)) if m else 0
            self.violation(what, events[i - 1] if i else None, r.state)
            return False
        if re.search(r"evaluating the|attempted to|TLC encountered|was not in the domain|applied to|non-enumerable|compare|Evaluating", r.out) \
                and not re.search(r"OutOfMemory|StackOverflow|Parsing or semantic|Unknown operator|Could not|No such file|java\.io", r.out):
            self.violation(what, None, "the recorded behaviour cannot be interpreted by the specification:\n" + r.out[-3000:])
            return False
        raise MachineryError("TLC failed on %s (%s):\n%s" % (module, what, r.out[-4000:]))

    def violation(self, what, event, detail):
        self.viol.append({"what": what, "event": event, "detail": detail})

    # -- report
    def finish(self):
        if self.traces == 0 and not self.viol:
            raise MachineryError("nothing was validated against the implementation")
        rc = 0
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level,
              "coverage": {"states": self.states, "transitions": self.trans,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:6] or ["(none)"], "stages": self.stages, **self.counts},
              "assumptions": self.assumptions + (["%d recording jobs were given up for lack of time" % UNFINISHED[0]] if UNFINISHED[0] else []), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for n, v in enumerate(self.viol):
            rd = os.path.join(VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d.json" % (self.pid, n))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": SEED, "tier": TIER, **v}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  %s" % v["what"])
            print("  " + str(v["detail"])[:1500].replace("\n", "\n  "))
            rc = 1
        if rc == 0:
            print("OK property=%s states=%d transitions=%d validated=%d wall=%.1fs"
                  % (self.pid, self.states, self.trans, self.traces, time.time() - self.t0))
        return rc


FORMS = ["int8", "int16", "int64", "F", "view", "transposed"]


def arr(x, key=None, small=True, cols=None):
    """x (a list, or a list of rows) as the package's kind of array, or now and then (chosen by key) in another memory
    representation. small: no sum of its entries matters beyond a byte."""
    import_repo()
    from srg import srg
    import numpy as np
    import zlib
    a = srg.array(x)
    if cols is not None:
        a = a.reshape(len(x), cols)
    h = zlib.crc32(repr(x if key is None else key).encode())
    if h % 3:
        return a
    form = FORMS[h // 3 % len(FORMS)]
    if form == "F":
        return np.asfortranarray(a)
    if form == "view":
        big = np.full(tuple(n + 3 for n in a.shape), 7, dtype=np.int64)
        at = tuple(slice(1, n + 1) for n in a.shape)
        big[at] = a
        return big[at]
    if form == "transposed":
        return np.ascontiguousarray(a.T).T
    if form == "int8" and not (small and (a.size == 0 or 0 <= a.min() and a.max() <= 60)):
        return a
    if form == "int16" and a.size and a.max() > 15000:
        return a
    return a.astype(form)
