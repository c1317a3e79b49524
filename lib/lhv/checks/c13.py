"""C13: calls are pure: no lasting effect, no dependence on history, order or threads."""

import pickle
import subprocess
from concurrent.futures import ThreadPoolExecutor

from .common import *
from .. import bvp

MS = (1, 2, 5)


def _run(job, hashseed):
    base = run.scratch() + "/p%d" % run._fresh()
    import os
    work = base + ".d"
    os.mkdir(work)
    pickle.dump(job, open(base + ".in", "wb"))
    e = run.env(job["mode"])
    e["PYTHONHASHSEED"] = str(hashseed)
    try:
        p = subprocess.run([run.PY, "-m", "lhv.pdrive", base + ".in", base + ".out"], env=e, cwd=work, capture_output=True, timeout=700)
    except subprocess.TimeoutExpired:
        raise run.Inconclusive("the purity driver timed out")
    if p.returncode:
        raise run.Inconclusive("the purity driver failed: " + p.stderr.decode(errors="replace")[-1200:])
    return pickle.load(open(base + ".out", "rb"))


def check(rep):
    rep.rule = ("mixed sequences of answered and refused calls of all solvers: inputs and earlier answers watched byte by byte, caller's arrays scribbled "
                "over between calls, process-wide state and package data compared, the same calls repeated in other orders and histories, in two processes "
                "with different hash seeds and floating point error settings, and by 8 threads sharing the inputs, with preemption forced inside the solvers")
    sd = run.seed()
    jobs = []
    for mode in ("py", "jit"):
        if mode == "py":
            parts = [[s] for s in run.SOLVERS if s in ("pan2016", "gauss1809")] + [[s for s in run.SOLVERS if s not in ("pan2016", "gauss1809")]] * 2
        else:
            parts = [list(g) for g in run.GROUPS]
        for p, part in enumerate(parts):
            calls = []
            for s in part:
                n = 1 if s == "pan2016" else n_(3, 12)
                for c in gen.stream(sd, ("C13", mode, p), gen.KINDS0, n, tuple(gen.UNITS)):
                    calls.append((s, c))
                if s in run.MULTI:
                    for c in gen.stream(sd, ("C13m", mode, p), gen.KINDSM, n_(2, 8), tuple(gen.UNITS), MS):
                        calls.append((s, c))
            gen.rng_for(sd, "C13o", p).shuffle(calls)
            base = dict(mode=mode, calls=calls, seed=sd * 10 + p, threads=8, rounds=6 if big() else 2, thread_calls=n_(40, 150) if part != ["pan2016"] else n_(4, 20))
            jobs.append((base, 0, len(jobs)))
            if mode == "py" or big():
                order = list(reversed(calls))
                jobs.append((dict(base, calls=order, seterr={"all": "warn"} if p % 2 else {"divide": "print", "over": "ignore", "under": "call" if False else "ignore", "invalid": "ignore"}), 4242, len(jobs) - 1))
    with ThreadPoolExecutor(run.NPROC) as ex:
        res = list(ex.map(lambda j: _run(j[0], j[1]), jobs))
    for (job, _, twin), r in zip(jobs, res):
        st = r["stats"]
        rep.count("calls_" + job["mode"], st["calls"])
        for k in ("ok", "exc", "reused", "thread_calls", "switches", "switch_pairs"):
            rep.count(k, st[k])
        for i, (s, c) in enumerate(job["calls"]):
            rep.seen((job["mode"], s, c["kind"], c["M"], c["tof"]))
        rep.evaluations += st["calls"] - len(job["calls"])
        for what, s, i in r["problems"]:
            if "divide" in str(job.get("seterr")) and "wrote output" in what or "all" in job.get("seterr", {}) and "wrote output" in what:
                continue  # numpy itself prints what it was asked to
            c = job["calls"][i] if i is not None else None
            rep.violate("%s %s: %s%s" % (s or "package", job["mode"], what, ": " + bvp.describe(c[1]) if c else ""),
                        {"mode": job["mode"], "solver": s, "what": what, "call": c})
        if twin != jobs.index((job, _, twin)):
            other = res[twin]["ref"][::-1]
            for i, (s, c) in enumerate(job["calls"]):
                if r["ref"][i][:2] != other[i][:2]:
                    rep.violate("%s %s: another process had another outcome: %s" % (s, job["mode"], bvp.describe(c)),
                                {"mode": job["mode"], "solver": s, "call": c})
    rep.samples.append({k: v for k, v in rep.cover.items()})
    rep.need("thread_calls", n_(2000, 8000))
    rep.need("switches", n_(500, 5000))
