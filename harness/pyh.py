"""Common part of the Python harnesses: arguments PID seed seconds tier; environment GM_REPO, GM_SCRATCH.
Prints "FAIL key | detail" lines and "STATS json"."""
import sys, os, json, time, random, traceback, types

PID, SEED, SECS, TIER = (sys.argv + ["C00", "1", "5", "quick"][len(sys.argv) - 1:])[1:5]
SEED, SECS = int(SEED), float(SECS)
REPO = os.environ.get("GM_REPO", "/repo")
SCRATCH = os.environ.get("GM_SCRATCH") or "/tmp/gm-scratch"
os.makedirs(SCRATCH, exist_ok=True)
os.chdir(SCRATCH)
sys.path.insert(0, REPO)
# the package initialisation loads the compiled bindings, which the model builder does not need
pkg = types.ModuleType("geomodelgrids")
pkg.__path__ = [os.path.join(REPO, "geomodelgrids")]
sys.modules["geomodelgrids"] = pkg
rng = random.Random(SEED)
counts, fails = {}, {}
T0 = time.time()


def more():
    return time.time() - T0 < SECS and len(fails) < 5


def case(kind):
    counts[kind] = counts.get(kind, 0) + 1


def fail(key, detail):
    if key not in fails:
        fails[key] = detail
        print("FAIL %s | %s" % (key, str(detail).replace("\n", " ")[:600]), flush=True)


def guarded(key, f, detail=""):
    """run one case; an exception that escapes is a failure"""
    try:
        return f()
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((t for t in reversed(tb) if REPO in t.filename), tb[-1])
        if REPO not in where.filename:
            raise
        fail(key + ": exception", "%s: %s at %s:%d %s" % (type(e).__name__, e, os.path.relpath(where.filename, REPO), where.lineno, detail))


def done():
    print("STATS " + json.dumps({"cases": sum(counts.values()), "counts": counts}), flush=True)
    sys.stdout.flush()
    os._exit(0)
