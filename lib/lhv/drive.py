"""Child process: drives the real code and records call/return events at the client
boundary.  Usage: python -m lhv.drive JOBFILE OUTFILE PROGRESSFILE

JOBFILE is a pickle {mode, solvers, cases, ...} (solvers[i] is called with cases[i]); the event log is appended to OUTFILE as
consecutive pickles, one per call: {i, k: ok|exc|alarm, v1, v2, extra, et, msg, ...}.
PROGRESSFILE receives the index of the call in flight, so that a call that never
returns can be told from one that was never made.
"""

import os
import pickle
import signal
import struct
import sys
import time


class Alarm(BaseException):
    pass


def _handler(signum, frame):
    raise Alarm()


def call(fn, c, alarm=0.0):
    """One recorded call: the case's inputs are rebuilt for every call."""
    import numpy as np

    r1, r2 = build(c["r1"], c.get("form")), build(c["r2"], c.get("form"))
    if "before" in c:  # a caller who keeps one pair of arrays and overwrites their contents
        b = c["before"]
        r1[...], r2[...] = b["r1"], b["r2"]
        try:
            fn(b["mu"], r1, r2, b["tof"], M=b["M"], is_prograde=b["pro"], is_low_path=b["low"], **b["kw"])
        except Exception:
            pass
        r1[...], r2[...] = c["r1"], c["r2"]
    mu, tof, M, pro, low = c["mu"], c["tof"], c["M"], c["pro"], c["low"]
    if "as" in c:  # representation of the scalars
        mu, tof, M, pro, low = scalars(mu, tof, M, pro, low, c["as"])
    sc = (mu, tof, M, pro, low)
    k1, k2, ks = r1.tobytes(), r2.tobytes(), repr(sc)
    t0 = time.perf_counter()
    e = {}
    if alarm:
        signal.setitimer(signal.ITIMER_REAL, alarm)
    try:
        try:
            if "positional" in c:
                res = fn(mu, r1, r2, tof, M, pro, low, *c["positional"])
            elif c.get("defaults"):
                res = fn(mu, r1, r2, tof, **c["kw"])
            else:
                res = fn(mu, r1, r2, tof, M=M, is_prograde=pro, is_low_path=low, **c["kw"])
        finally:
            if alarm:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except Alarm:
        return {"k": "alarm"}
    except Exception as ex:
        e = {"k": "exc", "et": type(ex).__name__, "msg": str(ex)[:200],
             "mro": [t.__name__ for t in type(ex).__mro__]}
    else:
        e = {"k": "ok", "wall": time.perf_counter() - t0}
        try:
            n = len(res)
            e["n"] = n
            e["type"] = type(res).__name__
            for j, name in ((0, "v1"), (1, "v2")):
                v = res[j]
                e[name + "_t"] = (type(v).__name__, str(getattr(v, "dtype", "")),
                                  tuple(getattr(v, "shape", ())))
                e[name] = [float(z) for z in np.asarray(v).ravel()]
            if n > 2:
                e["extra"] = [repr(type(z).__name__) + ":" + repr(z) for z in res[2:]]
                e["numiter"], e["numiter_t"] = float(res[2]), type(res[2]).__name__
                e["tpi"], e["tpi_t"] = float(res[3]), type(res[3]).__name__
        except Exception as ex:  # the answer has not the documented form
            e["malformed"] = "%s: %s" % (type(ex).__name__, ex)
    if r1.tobytes() != k1 or r2.tobytes() != k2 or repr(sc) != ks:
        e["mutated"] = True
    return e


def build(r, form):
    """The same vector in another representation."""
    import numpy as np

    if form == "raw":
        return np.array(r) if not isinstance(r, np.ndarray) else r.copy()
    a = np.array(r, dtype="float64")
    if form in (None, "float64"):
        return a
    if form in ("int64", "int32", "int16", "uint64", "uint16", "float32", "float16", "longdouble", ">f8"):
        b = a.astype(form)
        assert (b == a).all()
        return b
    if form == "smallest":  # the smallest integers that hold the components
        return np.array([int(z) for z in a], dtype=_smallest(*a))
    if form == "strided":
        b = np.full(9, 7.25)
        b[1:7:2] = a
        return b[1:7:2]
    if form == "reversed":
        return a[::-1].copy()[::-1]
    if form == "column":
        m = np.full((3, 4), -3.5)
        m[:, 2] = a
        return m[:, 2]
    if form == "row":
        m = np.full((4, 3), -3.5)
        m[2] = a
        return m[2]
    if form == "readonly":
        a.flags.writeable = False
        return a
    if form == "negzero":
        return np.where(a == 0.0, -0.0, a)
    raise ValueError(form)


def _smallest(*xs):
    import numpy as np

    return np.result_type(*(np.min_scalar_type(int(x)) for x in xs))


def scalars(mu, tof, M, pro, low, how):
    import numpy as np

    if how == "numpy":
        return np.float64(mu), np.float64(tof), np.int64(M), np.bool_(pro), np.bool_(low)
    if how == "numpy32":
        return np.float64(mu), np.float64(tof), np.int32(M), np.bool_(pro), np.bool_(low)
    if how == "int":
        i = lambda x: int(x) if float(x).is_integer() and abs(x) < 2**53 else x
        return i(mu), i(tof), M, int(pro), int(low)
    if how == "smallest":
        i = lambda x: _smallest(x).type(int(x)) if float(x).is_integer() and abs(x) < 2**63 else np.float64(x)
        return i(mu), i(tof), i(M), np.bool_(pro), low
    if how in ("int32", "uint32", "uint64"):
        t = np.dtype(how).type
        i = lambda x: t(int(x)) if float(x).is_integer() and abs(x) <= np.iinfo(t).max else np.float64(x)
        return i(mu), i(tof), t(M), pro, np.bool_(low)
    if how in ("float32", "float16", "longdouble"):
        t = np.dtype(how).type
        i = lambda x: t(x) if float(t(x)) == x else np.float64(x)
        return i(mu), i(tof), M, pro, low
    if how in ("array0", "iarray0"):  # arrays without dimensions
        i = lambda x: np.array(int(x) if how == "iarray0" and float(x).is_integer() and abs(x) < 2**53 else x)
        return i(mu), i(tof), M, pro, low
    if how == "int64":
        i = lambda x: np.int64(x) if float(x).is_integer() and abs(x) < 2**53 else np.float64(x)
        return i(mu), i(tof), np.int64(M), pro, low
    raise ValueError(how)


def setup(mode):
    import tempfile

    sys.dont_write_bytecode = True
    if mode == "py":
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    else:
        os.environ.pop("NUMBA_DISABLE_JIT", None)
    if "LHV_CACHE" in os.environ:
        os.environ["NUMBA_CACHE_DIR"] = os.environ["LHV_CACHE"]
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import lamberthub

    return lamberthub


def get_solver(lamberthub, name):
    for s in lamberthub.ALL_SOLVERS:
        if getattr(s, "__name__", None) == name:
            return s
    return getattr(lamberthub, name)


def main():
    job = pickle.load(open(sys.argv[1], "rb"))
    out = open(sys.argv[2], "ab")
    prog = open(sys.argv[3], "r+b", buffering=0)

    def tick(i):
        prog.seek(0)
        prog.write(struct.pack("q", i))

    tick(-1)
    lh = setup(job["mode"])
    fns = {}
    signal.signal(signal.SIGALRM, _handler)
    alarm = 20.0 if job["mode"] == "py" else 0.0
    for i, c in enumerate(job["cases"]):
        if i < job.get("start", 0):
            continue
        tick(i)
        name = job["solvers"][i]
        if name not in fns:
            fns[name] = get_solver(lh, name)
        e = call(fns[name], c, alarm)
        e["i"] = i
        pickle.dump(e, out)
        if i % 64 == 0:
            out.flush()
    tick(-2)
    out.close()


if __name__ == "__main__":
    main()
