"""Child process for C13: watches the process around the calls.

python -m lhv.pdrive JOB OUT ; JOB = pickle {mode, calls: [(solver, case)], seed, threads, rounds}
"""

import hashlib
import pickle
import random
import sys
import threading
import time

from .drive import get_solver, setup


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()[:16]


def ambient():
    """Everything a numeric library has no business changing."""
    import decimal
    import locale
    import os
    import signal
    import warnings

    import numpy as np

    return {
        "np.geterr": repr(np.geterr()),
        "np.random": digest(np.random.get_state()),
        "random": digest(random.getstate()),
        "warnings.filters": digest(warnings.filters),
        "np.printoptions": repr(sorted(np.get_printoptions().items(), key=str)),
        "environ": digest(sorted(os.environ.items())),
        "cwd": os.getcwd(),
        "cwd entries": repr(sorted(os.listdir("."))),
        "sys.path": repr(sys.path),
        "locale": repr(locale.setlocale(locale.LC_ALL)),
        "decimal": repr(decimal.getcontext()),
        "signals": repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)]),
        "recursion limit": sys.getrecursionlimit(),
        "hooks": repr((sys.excepthook, sys.displayhook)),
        "threads": threading.active_count(),
        "open files": repr(sorted(os.listdir("/proc/self/fd"))),
    }


def seen_error(kind, flag):
    """Called by numpy where a result is not finite, as it is told to."""


def module_state():
    """Digest of every piece of data held by the package's modules."""
    import numpy as np

    out = {}

    def enc(v, depth=0):
        if isinstance(v, np.ndarray):
            return ("nd", v.dtype.str, v.shape, v.tobytes(), v.flags.writeable)
        if isinstance(v, (bool, int, float, complex, str, bytes, type(None))):
            return repr(v)
        if isinstance(v, (list, tuple, set, frozenset)) and depth < 4:
            return (type(v).__name__, [enc(x, depth + 1) for x in v])
        if isinstance(v, dict) and depth < 4:
            return ("dict", sorted((repr(k), enc(x, depth + 1)) for k, x in v.items()))
        if callable(v):
            f = getattr(v, "py_func", v)
            return ("fn", getattr(f, "__qualname__", ""), enc(getattr(f, "__defaults__", None), depth + 1),
                    enc(getattr(f, "__kwdefaults__", None), depth + 1))
        return type(v).__name__

    for name in sorted(m for m in sys.modules if m == "lamberthub" or m.startswith("lamberthub.")):
        for k, v in sorted(vars(sys.modules[name]).items()):
            if k.startswith("__") and k.endswith("__"):
                continue
            if type(v).__name__ == "module":
                continue
            out[name + "." + k] = digest(enc(v))
    return out


def holders():
    """Arrays owned by the package's modules."""
    import numpy as np

    return [(m + "." + k, v) for m in list(sys.modules) if m == "lamberthub" or m.startswith("lamberthub.")
            for k, v in vars(sys.modules[m]).items() if isinstance(v, np.ndarray)]


def bits(res):
    import numpy as np

    return tuple(np.asarray(v, float).tobytes() for v in res[:2]) + ((int(res[2]),) if len(res) > 2 else ())


def main():
    import io

    import numpy as np

    job = pickle.load(open(sys.argv[1], "rb"))
    lh = setup(job["mode"])
    rng = random.Random(job["seed"])
    # a setting that nobody else would choose, so that nothing can be changed to what it is already
    np.seterrcall(seen_error)
    np.seterr(**job.get("seterr", {"all": "call"}))
    np.random.seed(12345)
    random.seed(777)
    before = ambient()
    calls = job["calls"]
    fns = {s: get_solver(lh, s) for s in {c[0] for c in calls}}
    problems = []
    stats = {"calls": 0, "switches": 0, "switch_pairs": set(), "ok": 0, "exc": 0, "thread_calls": 0, "reused": 0}

    def problem(what, i=None):
        if len(problems) < 40:
            problems.append((what, None if i is None else calls[i][0], i))

    def one(i, full=False, r1=None, r2=None, **kw):
        s, c = calls[i]
        r1 = np.array(c["r1"]) if r1 is None else r1
        r2 = np.array(c["r2"]) if r2 is None else r2
        k = dict(c["kw"], **kw)
        if full:
            k["full_output"] = True
        stats["calls"] += 1
        settings = np.geterr(), np.geterrcall()
        try:
            res = fns[s](c["mu"], r1, r2, c["tof"], M=c["M"], is_prograde=c["pro"], is_low_path=c["low"], **k)
        except Exception as e:
            stats["exc"] += 1
            # numba prefixes nothing; messages may hold counts but no addresses
            return None, (type(e).__name__, str(e)[:80]), r1, r2
        finally:
            err = np.geterr(), np.geterrcall()
            if err != settings:
                problem("the call changed numpy's error settings: %s were %s" % (err, settings), i)
                np.seterr(**settings[0])
                np.seterrcall(settings[1])
        stats["ok"] += 1
        return res, bits(res), r1, r2
    capture = io.StringIO()
    real = sys.stdout, sys.stderr
    if job["mode"] != "py":
        # the first call of each solver compiles (and loads) it
        done = set()
        for i, (s, c) in enumerate(calls):
            if (s, c["M"] > 0) not in done:
                done.add((s, c["M"] > 0))
                one(i)
                one(i, full=True)
    sys.stdout = sys.stderr = capture
    amb, state = ambient(), module_state()
    for k in before:
        # compiling loads libraries
        if k not in ("open files", "threads", "sys.path", "signals") and amb[k] != before[k]:
            problem("the first calls changed the process: %s was %s and is %s" % (k, before[k][:80], amb[k][:80]))
    own = holders()
    # pass 1: reference, with every input and output watched
    ref, kept = [], []
    for i in range(len(calls)):
        a0 = None
        res, b, r1, r2 = one(i)
        c = calls[i][1]
        if r1.tolist() != c["r1"] or r2.tolist() != c["r2"]:
            problem("the position vectors passed in were changed", i)
        if res is not None:
            v1, v2 = res[0], res[1]
            for v, n in ((v1, "v1"), (v2, "v2")):
                if not isinstance(v, np.ndarray):
                    problem("%s is no array" % n, i)
                    continue
                if np.shares_memory(v, r1) or np.shares_memory(v, r2):
                    problem("%s shares memory with an input" % n, i)
                for hn, h in own:
                    if np.shares_memory(v, h):
                        problem("%s shares memory with %s" % (n, hn), i)
                if not v.flags.writeable:
                    problem("%s is read-only" % n, i)
            if isinstance(v1, np.ndarray) and isinstance(v2, np.ndarray):
                if np.shares_memory(v1, v2):
                    problem("v1 and v2 share memory", i)
                kept.append((i, v1, v2, b[:2]))
        # what the caller does with his own arrays afterwards does not matter
        r1 *= rng.choice([0.0, -3.0, 1e30])
        r2 += 1.0
        ref.append(b)
        if i % 50 == 0:
            now = ambient()
            for k in amb:
                if now[k] != amb[k]:
                    problem("the call changed the process: %s was %s and is %s" % (k, str(amb[k])[:80], str(now[k])[:80]), i)
                    amb = now
    for i, v1, v2, b in kept:
        if (v1.tobytes(), v2.tobytes()) != b:
            problem("an answer changed after it was returned", i)
        v1[:] = np.nan
        v2[:] = np.nan
    # pass 2: other orders, other histories
    buf = np.zeros(3), np.zeros(3)
    for rnd in range(job["rounds"]):
        order = list(range(len(calls)))
        rng.shuffle(order)
        for i in order:
            k = rng.random()
            if k < 0.15:  # a failing or an unusual call in between
                j = rng.randrange(len(calls))
                how = rng.randrange(5)
                try:
                    if how == 0:
                        one(j, maxiter=1)
                    elif how == 1:
                        one(j, rtol=1e-3, atol=1e-3)
                    elif how == 2:
                        one(j, r1=np.zeros(3))
                    elif how == 3:
                        one(j, r2=np.array(calls[j][1]["r1"]))
                    else:
                        one(j, r2=np.array(calls[j][1]["r1"]) * -2.0)
                except Exception:
                    pass
            elif k < 0.25:
                np.random.rand(3)
                random.random()
            full = rng.random() < 0.3
            if rng.random() < 0.5:
                _, b, _, _ = one(i, full=full)
            else:  # a caller who keeps one pair of arrays and overwrites their contents
                buf[0][...], buf[1][...] = calls[i][1]["r1"], calls[i][1]["r2"]
                stats["reused"] += 1
                _, b, _, _ = one(i, full=full, r1=buf[0], r2=buf[1])
            if b[:2] != ref[i][:2]:
                problem("the same call had another outcome after other calls: %s, before %s" % (show(b), show(ref[i])), i)
    # pass 3: threads, sharing the very same input arrays
    shared = [(np.array(c["r1"]), np.array(c["r2"])) for _, c in calls]
    old = sys.getswitchinterval()
    last = [None]
    lock = threading.Lock()

    def tracer(code, line):
        # yields to other threads in the middle of the solvers
        if code.co_filename.find("lamberthub") < 0:
            return sys.monitoring.DISABLE
        t = threading.get_ident()
        p = last[0]
        here = (t, code.co_name, line)
        if p is not None and p[0] != t:
            stats["switches"] += 1
            if len(stats["switch_pairs"]) < 200000:
                stats["switch_pairs"].add((p[1], p[2], here[1], here[2]))
        last[0] = here
        if yrng.random() < 0.02:
            time.sleep(0)

    yrng = random.Random(job["seed"] + 1)
    mon = sys.monitoring
    mon.use_tool_id(3, "lhv")
    mon.register_callback(3, mon.events.LINE, tracer)
    sys.setswitchinterval(1e-6)

    def body(seed):
        r = random.Random(seed)
        for _ in range(job["thread_calls"]):
            i = r.randrange(len(calls))
            _, b, _, _ = one(i, r1=shared[i][0], r2=shared[i][1], full=r.random() < 0.3)
            stats["thread_calls"] += 1
            if b[:2] != ref[i][:2]:
                problem("another outcome when other threads call the solvers: %s, alone %s" % (show(b), show(ref[i])), i)

    ths = [threading.Thread(target=body, args=(job["seed"] * 100 + k,)) for k in range(job["threads"])]
    if job["mode"] == "py":
        mon.set_events(3, mon.events.LINE)
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    mon.set_events(3, 0)
    mon.free_tool_id(3)
    sys.setswitchinterval(old)
    for i, (r1, r2) in enumerate(shared):
        if r1.tolist() != calls[i][1]["r1"] or r2.tolist() != calls[i][1]["r2"]:
            problem("position vectors shared by threads were changed", i)
    now_state = module_state()
    for k in state:
        if now_state.get(k) != state[k]:
            problem("data of the package changed: " + k)
    for k in now_state:
        if k not in state:
            problem("data of the package appeared: " + k)
    sys.stdout, sys.stderr = real
    now = ambient()
    for k in amb:
        # the noise calls above draw from both generators
        if now[k] != amb[k] and k not in ("np.random", "random"):
            problem("the calls changed the process: %s was %s and is %s" % (k, str(amb[k])[:80], str(now[k])[:80]))
    if capture.getvalue():
        problem("the calls wrote output: %r" % capture.getvalue()[:120])
    stats["switch_pairs"] = len(stats["switch_pairs"])
    pickle.dump({"problems": problems, "ref": ref, "stats": stats}, open(sys.argv[2], "wb"))


def show(b):
    import numpy as np

    if b and isinstance(b[0], bytes):
        return str([np.frombuffer(x).tolist() for x in b[:2]])
    return str(b)


if __name__ == "__main__":
    main()
