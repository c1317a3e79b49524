"""C12: one interface for all solvers; the full output only adds to the answer."""

import pickle
import subprocess

from .common import *
from .. import bvp

MS = (1, 2, 5)
HEAD_ARGS = [("mu", None), ("r1", None), ("r2", None), ("tof", None), ("M", "0"), ("is_prograde", "True"), ("is_low_path", "True")]


def _api(mode):
    out = run.scratch() + "/api-" + mode
    p = subprocess.run([run.PY, "-m", "lhv.apidrive", out, mode], env=run.env(mode), cwd=run.scratch(), capture_output=True, timeout=300)
    if p.returncode:
        raise run.Inconclusive("the interface could not be read: " + p.stderr.decode(errors="replace")[-800:])
    return pickle.load(open(out, "rb"))


def _interface(rep, api, mode):
    reg = api["registries"]

    def bad(what):
        rep.violate("interface %s: %s" % (mode, what), {"mode": mode, "api": api, "why": what})

    for n, names in reg.items():
        rep.count("registry_entries", len(names))
        rep.seen((mode, "registry", n), {"registry": n, "solvers": names})
        if len(set(names)) != len(names):
            bad("%s lists a solver twice: %r" % (n, names))
        if not set(names) <= set(reg["ALL_SOLVERS"]):
            bad("%s lists a solver that is not among all of them: %r" % (n, sorted(set(names) - set(reg["ALL_SOLVERS"]))))
        if not api["identity"][n]:
            bad("%s holds something else than the exported solvers" % n)
    if set(api["exported"]) != set(reg["ALL_SOLVERS"]):
        bad("exported solvers %r differ from the listed ones %r" % (api["exported"], reg["ALL_SOLVERS"]))
    if set(reg["ROBUST_SOLVERS"]) & set(reg["NON_ROBUST_SOLVERS"]):
        bad("a solver is robust and not robust: %r" % (set(reg["ROBUST_SOLVERS"]) & set(reg["NON_ROBUST_SOLVERS"])))
    for n, sig in api["signatures"].items():
        rep.seen((mode, "signature", n))
        if [(a, d) for a, d, _ in sig[:7]] != HEAD_ARGS:
            bad("%s takes %r" % (n, sig[:7]))
        rest = {a: d for a, d, _ in sig[7:]}
        if [a for a, _, _ in sig[7:11]] != ["maxiter", "atol", "rtol", "full_output"]:
            bad("%s takes %r after the flags" % (n, [a for a, _, _ in sig[7:]]))
        if any(d is None for d in rest.values()):
            bad("%s requires %r" % (n, [a for a, d in rest.items() if d is None]))
        if any(str(k) != "POSITIONAL_OR_KEYWORD" for _, _, k in sig[:11]):
            bad("%s takes %r" % (n, sig))
        if rest.get("full_output") != "False":
            bad("the full output of %s is on by default" % n)


def _form(e, n):
    """Is the recorded answer of the documented form?"""
    if "malformed" in e:
        return "the answer is malformed: " + e["malformed"]
    if e["n"] != n or e["type"] != "tuple":
        return "the answer is a %s of %d, not a tuple of %d" % (e["type"], e["n"], n)
    for v in ("v1", "v2"):
        t, dt, sh = e[v + "_t"]
        if t != "ndarray" or dt != "float64" or sh != (3,):
            return "%s is a %s of %s of shape %s" % (v, t, dt, sh)
    if n == 4:
        if e["numiter_t"] not in ("int", "int64", "int32", "intp"):
            return "the number of iterations is of type %s" % e["numiter_t"]
        if not e["numiter"] >= 0:
            return "the number of iterations is %r" % e["numiter"]
        if not (math.isfinite(e["tpi"]) and e["tpi"] >= 0):
            return "the time per iteration is %r" % e["tpi"]
        if e["tpi"] * e["numiter"] > e["wall"] * (1 + 1e-9):
            return "%g iterations of %.3g s each took longer than the whole call, %.3g s" % (e["numiter"], e["tpi"], e["wall"])
    return None


def check(rep):
    rep.rule = ("registries, names and signatures of the package as imported, and answers with and without the full output (several truthy and falsy "
                "values of the flag) for all kinds of transfers in both modes: documented types and shapes, same velocities bit by bit, "
                "same exceptions, plausible iteration count and time; the multi-revolution registry is exactly who answers M > 0")
    sd = run.seed()
    U = tuple(gen.UNITS)
    for mode in ("py", "jit"):
        api = _api(mode)
        _interface(rep, api, mode)
        multi = api["registries"]["MULTI_REV_SOLVERS"]
        n = n_(70, 700) if mode == "py" else n_(35, 300)
        b0, bm = gen.stream(sd, ("C12", mode), gen.KINDS0, n, U), gen.stream(sd, ("C12m", mode), gen.KINDSM, n, U, MS)
        rng = gen.rng_for(sd, "C12", mode)
        jobs, answered = {}, {}
        for s in run.SOLVERS:
            js = []
            for i, c in enumerate(b0 + (bm if s in run.MULTI else bm[::40])):
                if s == "pan2016" and i % 8:
                    continue
                js.append(dict(c, full=False))
                js.append(dict(c, kw=dict(c["kw"], full_output=True), full=True))
                if mode == "py" and i % 5 == 0:
                    js.append(dict(c, kw=dict(c["kw"], full_output=False), full=False))
                    js.append(dict(c, kw=dict(c["kw"], full_output=1), full=True))
                    js.append(dict(c, kw=dict(c["kw"], full_output=np.bool_(True)), full=True))
                    js.append(dict(c, kw=dict(c["kw"], full_output=np.bool_(False)), full=False))
            jobs[s] = js
        plain, shares = {}, {}
        for s, m, c, e in run.observe(jobs, mode):
            rep.count("events_" + m)
            rep.count("outcome_" + e["k"])
            rep.count("full" if c["full"] else "plain")
            key = (s, c["M"], c["tof"], c["pro"], c["low"], tuple(c["r1"]), tuple(c["r2"]))
            why = None
            if e["k"] == "ok":
                why = _form(e, 4 if c["full"] else 2)
                answered.setdefault(s, set()).add(c["M"] > 0)
                if c["full"] and not why:
                    shares.setdefault(s, []).append(e["tpi"] * e["numiter"] / e["wall"])
            if not c["full"] and c["kw"].get("full_output", None) is None:
                plain[key] = e
            elif not why:
                p = plain.get(key)
                if p is None:
                    pass
                elif p["k"] != e["k"] and "skipped" not in (p["k"], e["k"]):
                    why = "with full_output=%r the outcome is %s %s, without it %s %s" % (c["kw"]["full_output"], e["k"], e.get("msg", ""), p["k"], p.get("msg", ""))
                elif e["k"] == "ok" and not (p["v1"] == e["v1"] and p["v2"] == e["v2"]) and e["v1"] == e["v1"]:
                    why = "with full_output=%r the velocities differ: %r and %r" % (c["kw"]["full_output"], e["v1"], p["v1"])
            rep.seen((s, m, c["kind"], c["M"], c["tof"], repr(c["kw"])),
                     {"solver": s, "mode": m, "full": c["full"], "numiter": e.get("numiter"), "tpi": e.get("tpi"), "wall": e.get("wall")}
                     if rep.evaluations % 4001 == 0 else None)
            if why:
                rep.violate("%s %s: %s: %s" % (s, m, why, bvp.describe(c)), {"solver": s, "mode": m, "case": c, "event": e, "plain": plain.get(key), "why": why})
        for s, w in shares.items():
            # interpreted iterations take 3 per cent of the call or more
            if mode == "py" and len(w) >= 20 and not sorted(w)[len(w) // 2] > 0.002:
                rep.violate("%s %s: the iterations and their mean time account for %.2g of the wall time of the call (median of %d)" % (
                    s, mode, sorted(w)[len(w) // 2], len(w)), {"solver": s, "mode": mode, "shares": w})
        for s in run.SOLVERS:
            a = answered.get(s, set())
            if False not in a:
                rep.violate("%s %s: no direct transfer was answered at all" % (s, mode), {"solver": s, "mode": mode})
            if (True in a) != (s in multi):
                rep.violate("%s %s: %s multi-revolution transfers but is %slisted as a multi-revolution solver" % (
                    s, mode, "answers" if True in a else "does not answer", "" if s in multi else "not "), {"solver": s, "mode": mode})
    rep.need("full", n_(8000, 80000))


def replay(r):
    c = r.get("case")
    if not c:
        print(r)
        return 1
    c = {k: v for k, v in c.items()}
    a, b = run.observe({r["solver"]: [dict(c, kw={}), dict(c, kw={"full_output": True})]}, r["mode"])
    print(a, b)
    return int(bool(a[3]["k"] != b[3]["k"] or a[3]["k"] == "ok" and (_form(a[3], 2) or _form(b[3], 4) or a[3]["v1"] != b[3]["v1"])))
