"""C15: the iteration limit and the tolerances mean what they say."""

from .common import *
from .. import bvp, judge, pairs

MS = (1, 2, 5)
LIMITS = (1, 2, 3, 4, 6, 9, 14, 22, 35, 60, 100, 400)
LIMITS_JIT = (1, 2, 4, 8, 20, 60, 400)
TOLS = ((1e-3, 1e-3), (1e-5, 1e-5), (1e-5, 1e-7), (1e-8, 1e-9), (1e-12, 1e-11))


def _good(e):
    return e["k"] == "ok"


def _work(item):
    """Verdicts on all the calls made for one problem: [(message, events)]"""
    s, mode, base, evs, kind = item
    out = []
    errs = []
    for c, e in evs:
        if _good(e):
            d = judge.error(c, e.get("v1", ()), e.get("v2", ()))
            errs.append(d["err"])
        else:
            errs.append(None)
    if kind == "limit":
        prev = None
        for (c, e), err in zip(evs, errs):
            k = c["kw"]["maxiter"]
            if _good(e):
                # with few quadrature points its own test of the time of flight (to 1e-7) decides
                thr = max(bvp.threshold(s, c), 1e-2 if s == "negrete2024" and k < 64 else 0.0)
                if not err <= thr:
                    out.append(("with at most %d iterations an answer that has not converged (error %.3g) is returned" % (k, err), c, e))
                if s == "negrete2024":
                    cap = max(4, k)
                else:
                    cap = k * (2 if c["M"] else 1)
                if not e.get("numiter", 0) <= cap:
                    out.append(("%g iterations were made, at most %d were allowed" % (e["numiter"], k), c, e))
            if s != "negrete2024":
                if prev is not None and not _good(e) and e["k"] == "exc":
                    out.append(("answered with at most %d iterations, refused with at most %d: %s" % (prev[0]["kw"]["maxiter"], k, e["msg"]), c, e))
                if prev is not None and _good(e):
                    gap = max(pairs.rel(pairs.vec(e, "v1"), pairs.vec(prev[1], "v1")), pairs.rel(pairs.vec(e, "v2"), pairs.vec(prev[1], "v2")))
                    if not gap <= 4 * bvp.threshold(s, c) and not max(err, prev[2]) <= bvp.threshold(s, c):
                        out.append(("a higher limit changes the answer by %.3g" % gap, c, e))
            if _good(e):
                prev = (c, e, err)
    else:
        for (c, e), err in zip(evs, errs):
            atol, rtol = c["kw"]["atol"], c["kw"]["rtol"]
            if not _good(e):
                continue
            lim = _bound(s, c)
            if not err <= lim:
                out.append(("with atol=%g and rtol=%g the error is %.3g, more than %.3g" % (atol, rtol, err, lim), c, e))
    return out, errs


def _bound(s, c):
    """Answers are accepted up to 3e4 times the looser of both tolerances."""
    t = max(c["kw"]["rtol"], c["kw"]["atol"])
    return math.inf if t > 1e-4 else max(bvp.threshold(s, c), 3e4 * t if t > 1e-9 else 0.0)


# solvers without preliminary searches (bounded by the same limit) or fallbacks (which take over when the limit is reached)
SUFFICES = {s: {0, 1} for s in ("arora2013", "delatorre2018", "mcelreath2025")}
SUFFICES.update({s: {0} for s in ("avanzini2008", "battin1984", "der2011", "gauss1809", "gooding1990", "jiang2016", "thorne2004", "vallado2013")})
NEEDED = {s: {0} for s in ("arora2013", "avanzini2008", "battin1984", "gauss1809", "gooding1990", "izzo2015", "jiang2016", "mcelreath2025", "thorne2004", "vallado2013")}
NEEDED.update({s: {0, 1} for s in ("arora2013", "delatorre2018", "gooding1990", "izzo2015")})


def _exact(rep, sd, U):
    """The reported number of iterations is the one the answer took: with a limit of as many it is the same, with one fewer it is not reached."""
    b0 = gen.stream(sd, "C15x", gen.KINDS0, n_(60, 600), U)
    bm = gen.stream(sd, "C15xm", gen.KINDSM, n_(60, 600), U, MS)
    jobs = {s: [dict(c, kw=dict(maxiter=400, full_output=True)) for c in (b0 if s != "pan2016" else b0[::6]) + (bm if s in run.MULTI else [])]
            for s in run.SOLVERS if s != "negrete2024"}
    again = {}
    for s, m, c, e in run.observe(jobs, "py"):
        if e["k"] == "ok" and e["numiter"] >= 1:
            for d in (0, 1):
                if int(e["numiter"]) - d >= 1 and min(c["M"], 1) in (SUFFICES, NEEDED)[d].get(s, ()):
                    again.setdefault(s, []).append(dict(c, kw=dict(maxiter=int(e["numiter"]) - d, full_output=True), full=e, fewer=d))
    for s, m, c, e in run.observe(again, "py"):
        o, why = c["full"], None
        rep.count("limit one under the count" if c["fewer"] else "limit equal to the count")
        rep.seen((s, "exact", c["kind"], c["M"], c["tof"], c["fewer"]))
        if not c["fewer"] and (e["k"] != "ok" or not (e["v1"] == o["v1"] and e["v2"] == o["v2"] and e["numiter"] == o["numiter"])):
            why = "%g iterations were reported, but a limit of as many gives %r instead of %r" % (o["numiter"], e.get("msg", e.get("v1")), o["v1"])
        if c["fewer"] and e["k"] == "ok" and e["v1"] == o["v1"]:
            why = "%g iterations were reported, but the same answer is reached with a limit of one fewer (which reports %g)" % (o["numiter"], e["numiter"])
        if why:
            c = {k: v for k, v in c.items() if k != "full"}
            rep.violate("%s py: %s: %s" % (s, why, bvp.describe(c)), {"solver": s, "mode": "py", "case": c, "event": e, "full": o, "why": why, "kind": "exact"})
    rep.need("limit equal to the count", 1500)
    rep.need("limit one under the count", 1000)


def check(rep):
    rep.rule = ("the same problem solved with iteration limits from 1 to 400, and with tolerances from 1e-3 to 1e-12: an answer is never unconverged, "
                "the limit is kept, the reported count is what the answer took, raising the limit never loses or changes an answer, and every tolerance down to 1e-12 is met in proportion; "
                "non-trivial: every call with its outcome, iteration count and error")
    sd = run.seed()
    U = ("canon", "earthkm", "auyr")
    _exact(rep, sd, U)
    for mode in ("py", "jit"):
        limits = LIMITS if mode == "py" else LIMITS_JIT
        n = n_(9, 90) if mode == "py" else n_(6, 40)
        b0 = gen.stream(sd, ("C15", mode), gen.KINDS0, n, U)
        bm = gen.stream(sd, ("C15m", mode), gen.KINDSM, n, U, MS)
        jobs = {}
        for s in run.SOLVERS:
            js = []
            for i, c in enumerate(b0 + (bm if s in run.MULTI else [])):
                if s == "pan2016" and i % 6:
                    continue
                for k in limits:
                    js.append(dict(c, kw=dict(maxiter=k, full_output=True), g=(i, "limit")))
                for atol, rtol in TOLS:
                    js.append(dict(c, kw=dict(atol=atol, rtol=rtol, full_output=True, **({"maxiter": 1000} if s != "negrete2024" else {})), g=(i, "tol")))
            jobs[s] = js
        groups = {}
        for s, m, c, e in run.observe(jobs, mode):
            rep.count("events_" + m)
            rep.count("outcome_" + e["k"])
            if e["k"] == "skipped":
                continue
            groups.setdefault((s, c["g"]), []).append((c, e))
        items = [(s, mode, evs[0][0], sorted(evs, key=lambda x: x[0]["kw"]["maxiter"] if g[1] == "limit" else -x[0]["kw"]["rtol"]), g[1]) for (s, g), evs in groups.items()]
        for (s, _, base, evs, kind), (bad, errs) in zip(items, run.pmap(_work, items, 16)):
            for (c, e), err in zip(evs, errs):
                rep.seen((s, mode, c["kind"], c["M"], c["tof"], repr(c["kw"])),
                         {"solver": s, "mode": mode, "kw": c["kw"], "numiter": e.get("numiter"), "error": err, "outcome": e.get("msg", e["k"])}
                         if rep.evaluations % 3001 == 0 else None)
                rep.count(kind)
                if e["k"] == "ok" and kind == "limit" and s != "negrete2024" and e.get("numiter") == c["kw"]["maxiter"]:
                    rep.count("stopped exactly at the limit")
            for why, c, e in bad:
                f = judge.features(c)
                if e["k"] == "exc":
                    id_ = bvp.allowed(s, mode, c, e, f)
                    if id_:
                        rep.finding(id_)
                        continue
                rep.violate("%s %s: %s: %s" % (s, mode, why, bvp.describe(c)), {"solver": s, "mode": mode, "case": c, "event": e, "why": why, "kind": kind, "feat": f})
    rep.need("limit", n_(20000, 200000))
    rep.need("stopped exactly at the limit", 100)


def replay(r):
    c = r["case"]
    if r["kind"] == "exact":
        (_, _, _, a), (_, _, _, b) = run.observe({r["solver"]: [dict(c, kw=dict(maxiter=400, full_output=True)), c]}, r["mode"])
        print(a, b)
        same = b["k"] == "ok" and a["v1"] == b["v1"]
        return int(same if c["fewer"] else not (same and a["numiter"] == b["numiter"]))
    if r["kind"] == "limit":
        cs = [dict(c, kw=dict(maxiter=k, full_output=True)) for k in LIMITS]
    else:
        cs = [dict(c, kw=dict(c["kw"], atol=a, rtol=t)) for a, t in TOLS]
    recs = run.observe({r["solver"]: cs}, r["mode"])
    evs = sorted([(x[2], x[3]) for x in recs], key=lambda x: x[0]["kw"]["maxiter"] if r["kind"] == "limit" else -x[0]["kw"]["rtol"])
    for x in evs:
        print(x[0]["kw"], x[1])
    out = _work((r["solver"], r["mode"], c, evs, r["kind"]))
    print(out)
    return int(bool(out[0]))
