"""python harness/run.py <property>: one check. VERIF_SEED, VERIF_TIER select seed and depth."""
import os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for k, v in dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", TERM="dumb").items():
    os.environ[k] = v
import vlib


def main():
    pid = sys.argv[1]
    import importlib
    for name in ("d_search", "d_question", "d_graph", "d_db", "d_cli", "d_sessions"):
        if os.path.exists(os.path.join(HERE, name + ".py")):
            mod = importlib.import_module(name)
            if hasattr(mod, pid):
                break
    else:
        print("no driver for " + pid)
        return 2
    c = vlib.Check(pid)
    try:
        getattr(mod, pid)(c)
        return c.finish()
    except Exception as e:
        if isinstance(e, vlib.PackageFailure) or vlib.package_raised(e):
            text = e.args[0] if isinstance(e, vlib.PackageFailure) else traceback.format_exc()
            c.violation("the package raised while valid objects were prepared or read", {"job": str(e.args[1:])[:2000]}, text)
            return c.finish()
        if not isinstance(e, vlib.MachineryError):
            e = traceback.format_exc()
        if c.viol:          # a violation was already established
            return c.finish()
        print("ERROR property=%s\n%s" % (pid, e))
        return 3


if __name__ == "__main__":
    sys.exit(main())
