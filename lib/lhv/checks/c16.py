"""C16: every call ends, whatever it is given, within steps bounded by the iteration limit."""

import os
import pickle
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from .common import *
from .. import bvp

BASE = 4_000_000  # two levels of bounded loops (a continued fraction of 1000 levels in 35 steps) need 1e6
PER = 5000  # steps per allowed iteration; at most 750 were seen
CPU_S = 60.0
SPECIAL = (1.7e308, 5e-324, 1e300, 1e-300, 1e154, 1e-154, 1e-16, 1e16, float("nan"), -1e300, float("inf"))


def hostile(seed, label, n):
    """Calls nobody should make, and some that are only unusual."""
    rng = gen.rng_for(seed, "C16", label)
    out = []
    U = tuple(gen.UNITS)
    for i in range(n):
        kind = gen.KINDS0[int(rng.integers(len(gen.KINDS0)))]
        M = int(rng.choice([0, 0, 0, 1, 2, 7]))
        if M:
            kind = gen.KINDSM[int(rng.integers(len(gen.KINDSM)))]
        c = gen.case(seed, ("C16", label, i), kind, U[i % len(U)], M)
        r1, r2 = np.array(c["r1"]), np.array(c["r2"])
        kw = {}
        how = int(rng.integers(14))
        lab = ""
        if how == 0:
            lab, c["tof"] = "tof", c["tof"] * float(10 ** rng.uniform(-60, 60))
        elif how == 1:
            lab, c["tof"] = "tof special", abs(SPECIAL[int(rng.integers(9))])
        elif how == 2:
            lab, c["mu"] = "mu", c["mu"] * float(10 ** rng.uniform(-80, 80))
        elif how == 3:
            lab, c["mu"] = "mu special", abs(SPECIAL[int(rng.integers(9))])
        elif how == 4:
            lab = "component special"
            v = r1 if rng.integers(2) else r2
            v[int(rng.integers(3))] = SPECIAL[int(rng.integers(len(SPECIAL)))]
        elif how == 5:
            lab = "lengths"
            r1 *= float(10 ** rng.uniform(-100, 100))
            if rng.integers(2):
                r2 *= float(10 ** rng.uniform(-100, 100))
        elif how in (6, 7):
            lab = "almost collinear"
            d = gen.rdir(rng) * 10 ** rng.uniform(-18, -2)
            r2 = (rng.choice([-1.0, 1.0]) * r1 / np.linalg.norm(r1) + d) * np.linalg.norm(r2)
        elif how == 8:
            lab = "almost equal"
            r2 = r1 * (1 + 10 ** rng.uniform(-17, -2)) + gen.rdir(rng) * np.linalg.norm(r1) * 10 ** rng.uniform(-17, -2)
        elif how == 9:
            lab, c["M"] = "many revolutions", int(10 ** rng.uniform(1, 9))
            if rng.integers(2):
                c["tof"] *= 10.0 * c["M"]
        elif how == 10:
            lab = "zero tolerance"
            kw = dict(rtol=0.0, atol=0.0, maxiter=int(rng.choice([1, 10, 100, 1000])))
        elif how == 11:
            lab = "odd limits"
            kw = dict(maxiter=int(rng.choice([0, -1, 1, 2, 3000])))
        elif how == 12:
            lab = "odd tolerance"
            kw = dict(rtol=float(rng.choice([-1.0, 1e-300, 1e-17, 1.0, 1e3, np.nan])), atol=float(rng.choice([-1.0, 0.0, 1e-300, 1.0, 1e3, np.nan])))
        else:
            lab = "near the minimum or the parabola"
            c["tof"] *= 1.0 + float(rng.choice([0, 1, -1])) * 10 ** rng.uniform(-16, -6)
        out.append(dict(c, r1=[float(z) for z in r1], r2=[float(z) for z in r2], kw=kw, label=lab))
    return out


def _budget(c):
    return BASE + PER * max(0, int(c["kw"].get("maxiter", 0)))


def _interp(part):
    """Interpreted calls under the step budget; a call that outlives CPU_S of the
    process's own time inside library code is resolved there as well."""
    base = run.scratch() + "/s%d" % run._fresh()
    pickle.dump(dict(solvers=[p[0] for p in part], cases=[p[1] for p in part], budgets=[_budget(p[1]) for p in part]), open(base + ".in", "wb"))
    try:
        p = subprocess.run([run.PY, "-m", "lhv.sdrive", base + ".in", base + ".out"], env=run.env("py"), cwd=run.scratch(), capture_output=True, timeout=780)
        err = p.stderr.decode(errors="replace")[-600:]
    except subprocess.TimeoutExpired:
        err = "timed out"
    evs = []
    with open(base + ".out", "rb") as f:
        while True:
            try:
                evs.append(pickle.load(f))
            except (EOFError, pickle.UnpicklingError):
                break
    if len(evs) < len(part):
        raise run.Inconclusive("a step counting driver ended after %d of %d calls (%s)" % (len(evs), len(part), err))
    return evs


def _cpu(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
    except OSError:
        return None
    return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")


def _compiled(group):
    """Compiled calls: watched by the processor time the process spends on one call."""
    base = run.scratch() + "/h%d" % run._fresh()
    import struct
    evs = [None] * len(group)
    start, stuck = 0, 0
    while start < len(group):
        pickle.dump(dict(mode="jit", solvers=[g[0] for g in group], cases=[g[1] for g in group], start=start), open(base + ".in", "wb"))
        for ext in (".out", ".prog"):
            open(base + ext, "wb").close()
        with open(base + ".prog", "wb") as f:
            f.write(struct.pack("q", -1))
        p = subprocess.Popen([run.PY, "-m", "lhv.drive", base + ".in", base + ".out", base + ".prog"], env=run.env("jit"), cwd=run.scratch(),
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        last, c0, hung = None, 0.0, None
        t0 = time.time()
        while p.poll() is None:
            time.sleep(0.1)
            cur = struct.unpack("q", open(base + ".prog", "rb").read(8))[0]
            cpu = _cpu(p.pid)
            if cpu is None:
                continue
            if cur != last:
                last, c0 = cur, cpu
            elif cur >= 0 and cpu - c0 > CPU_S:
                hung = cur
                p.kill()
                p.wait()
            elif time.time() - t0 > 700:
                p.kill()
                p.wait()
                raise run.Inconclusive("compiled calls took too long in all")
        with open(base + ".out", "rb") as f:
            while True:
                try:
                    e = pickle.load(f)
                except (EOFError, pickle.UnpicklingError):
                    break
                evs[e["i"]] = e
        if hung is None and p.returncode == 0:
            break
        if hung is None:
            cur = struct.unpack("q", open(base + ".prog", "rb").read(8))[0]
            if cur < 0:
                raise run.Inconclusive("a compiled driver did not start")
            evs[cur] = {"k": "crash", "rc": p.returncode}
            start = cur + 1
        else:
            evs[hung] = {"k": "budget", "steps": None}
            start = hung + 1
        stuck += 1
        if stuck >= 3:
            break
    return evs


def check(rep):
    rep.rule = ("hostile calls (extreme, infinite and not-a-number inputs, almost collinear or equal positions, up to 1e9 revolutions, zero, negative and huge "
                "tolerances and limits, times at the minimum and at the parabola) to every solver: interpreted, each executed line of the package is counted "
                "against 4e6 + 5000 x maxiter; compiled, each call is watched by processor time; any outcome but no outcome is fine")
    sd = run.seed()
    n = n_(420, 4000)
    work = []
    for s in run.SOLVERS:
        cs = hostile(sd, s, n if s != "pan2016" else n // 8)
        if s == "gauss1809":
            cs = cs[: n // 2]
        work += [(s, dict(c, M=0) if s in run.ZERO_ONLY and i % 4 else c) for i, c in enumerate(cs)]
    # the same calls are hard for all: spread them
    parts = [work[k :: run.NPROC] for k in range(run.NPROC)]
    with ThreadPoolExecutor(run.NPROC) as ex:
        res = list(ex.map(_interp, parts))
    most = {}
    for part, evs in zip(parts, res):
        for (s, c), e in zip(part, evs):
            _judge(rep, s, "py", c, e)
            if e["k"] != "budget":
                most[s] = max(most.get(s, (0,)), (e["steps"], c["label"]))
    for s in most:
        rep.cover["most_steps_" + s] = most[s][0]
    groups = []
    for g in run.GROUPS:
        w = []
        for s in g:
            cs = hostile(sd + 1000003, s, n_(420, 4000) if s != "pan2016" else n_(40, 400))
            w += [(s, dict(c, M=0) if s in run.ZERO_ONLY and i % 4 else c) for i, c in enumerate(cs)]
        groups.append(w)
    with ThreadPoolExecutor(run.NPROC) as ex:
        res = list(ex.map(_compiled, groups))
    for g, evs in zip(groups, res):
        for (s, c), e in zip(g, evs):
            if e is not None:
                _judge(rep, s, "jit", c, e)
    rep.need("evaluations", n_(8000, 80000))
    rep.assumptions += ["interpreted: only lines of the package are counted, the loops of scipy's root finders are bounded by their own limits",
                        "compiled: a call that uses a minute of processor time never ends"]


def _judge(rep, s, mode, c, e):
    rep.count("calls_" + mode)
    rep.count("hostile: " + c["label"])
    rep.count("ended: " + (e["k"] if e["k"] != "exc" else e["et"]))
    rep.seen((s, mode, c["label"], c["kind"], c["M"], c["tof"], repr(c["kw"]), repr(c["r1"])),
             {"solver": s, "mode": mode, "input": c["label"], "outcome": e.get("et", e["k"]), "steps": e.get("steps")} if rep.evaluations % 997 == 0 else None)
    if e["k"] in ("budget", "crash"):
        rep.violate("%s %s: %s (%s): %s" % (s, mode, "the call does not end: %s" % ("%d lines executed" % e["steps"] if e.get("steps") else "%d s of processor time" % CPU_S)
                    if e["k"] == "budget" else "the process died with %r" % e.get("rc"), c["label"], bvp.describe(c)),
                    {"solver": s, "mode": mode, "case": c, "event": e})


def replay(r):
    c = r["case"]
    evs = _interp([(r["solver"], c)]) if r["mode"] == "py" else _compiled([(r["solver"], c)])
    print(evs)
    return int(evs[0]["k"] in ("budget", "crash"))
