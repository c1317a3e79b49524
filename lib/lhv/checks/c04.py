"""C04: the path flag selects between the two multi-revolution solutions, the low one
being the more energetic; it does not matter for direct transfers."""

import numpy as np

from .common import *
from .. import bvp, oracle

MS = (1, 2, 3, 5, 10)


def _rel(a, b):
    return float(np.linalg.norm(a - b) / np.linalg.norm(b))


def _work(item):
    s, mode, c, el, eh = item
    for e in (el, eh):
        if e["k"] != "ok" or len(e.get("v1", ())) != 3 or len(e.get("v2", ())) != 3:
            return None
    lo = [np.array(el[k], float) for k in ("v1", "v2")]
    hi = [np.array(eh[k], float) for k in ("v1", "v2")]
    thr = bvp.threshold(s, c)
    if not c["M"]:
        gap = max(_rel(lo[0], hi[0]), _rel(lo[1], hi[1]))
        if not gap <= 4 * thr:
            # near-degenerate geometries: equally good answers may differ by more
            from .. import judge
            ea = judge.error(c, el["v1"], el["v2"])["err"]
            eb = judge.error(c, eh["v1"], eh["v2"])["err"]
            if not max(ea, eb) <= thr:
                return "direct", "a direct transfer depends on the path flag, by %.3g" % gap
        return "direct", None
    w = []
    for low in (True, False):
        a, b, _ = oracle.solve(c["mu"], c["r1"], c["r2"], c["tof"], c["M"], c["pro"], low)
        w.append((a, b))
    sep = _rel(w[0][0], w[1][0])
    if sep < 100 * thr and not c["f"].get("above_min"):
        return "too close", None
    for name, got, own, other in (("low", lo, w[0], w[1]), ("high", hi, w[1], w[0])):
        d_own, d_other = _rel(got[0], own[0]), _rel(got[0], other[0])
        if not d_own < d_other:
            return "pair", "the %s path returned is not the %s solution (distance %.3g) but the other one (%.3g)" % (name, name, d_own, d_other)
        if not d_own < 0.2 * sep:
            return "pair", "the %s path returned is neither solution (distances %.3g, %.3g; they are %.3g apart)" % (name, d_own, d_other, sep)
    if not np.linalg.norm(lo[0]) > np.linalg.norm(hi[0]):
        return "pair", "the low path is not the more energetic one"
    return "pair", None


def _window(seed, n, U):
    """Times 4e-6 to 5e-3 above the minimum: the two orbits are close, yet much further apart (by sqrt) than any solver is off."""
    out = []
    kinds = ("generic", "kepler", "tmin", "ratio", "equat", "circ", "near180", "short")
    for i in range(n):
        c = gen.case(seed, ("C04w", i), kinds[i % len(kinds)], U[i % len(U)], (1, 2, 5, 20)[i // 8 % 4], low=True)
        d = float(10 ** gen.rng_for(seed, "C04wd", i).uniform(-5.4, -2.3))
        out.append(dict(c, tof=float(oracle.t_min(c["mu"], c["r1"], c["r2"], c["M"], c["pro"])[0] * (1 + d)), f={"above_min": d}))
    return out


def check(rep):
    rep.rule = ("pairs of calls that differ in the path flag only: M in 1,2,3,5,10 (and 20, 100, 1000) with times 1e-8 above the minimum to "
                "1e3 times it, and direct transfers, all kinds and units, both modes; non-trivial: both calls answered "
                "and, for M > 0, the two reference solutions are further apart than 100x the solver's accuracy, or the time is 4e-6 to 5e-3 above the minimum")
    sd = run.seed()
    U = tuple(gen.UNITS)
    for mode in ("py", "jit"):
        cm = gen.stream(sd, ("C04", mode), gen.KINDSM, n_(210, 2100) if mode == "py" else n_(105, 1050), U, MS, low=True)
        cm += gen.stream(sd, ("C04b", mode), gen.KINDSM, n_(105, 1050), U, (20, 100, 1000), low=True) + gen.corner(sd, ("C04c", mode), n_(105, 1050), U, (1, 2, 5))
        cm += _window(sd, n_(280, 2800) if mode == "py" else n_(140, 1400), ("canon", "earthkm", "SI"))
        c0 = gen.stream(sd, ("C040", mode), gen.KINDS0, n_(35, 350), U, low=True)
        both = lambda cs: [dict(c, low=l) for c in cs for l in (True, False)]
        jobs = {s: both((c0 if s != "pan2016" else c0[::4]) + (cm if s in run.MULTI else [])) for s in run.SOLVERS}
        recs = run.observe(jobs, mode)
        half, items = {}, []
        for s, m, c, e in recs:
            rep.count("events_" + m)
            rep.count("outcome_" + e["k"])
            key = (s, tuple(c["r1"]), tuple(c["r2"]), c["tof"], c["pro"], c["M"])
            if key in half and half[key][0] != c["low"]:
                o = half.pop(key)
                items.append((s, m, c, e, o[1]) if c["low"] else (s, m, c, o[1], e))
            else:
                half[key] = (c["low"], e)
        for it, r in zip(items, run.pmap(_work, items)):
            if r is None:
                rep.count("pair_refused")
                continue
            what, why = r
            rep.count(what)
            s, m, c, el, eh = it
            rep.count("just_above_minimum", int("above_min" in c["f"]))
            if what != "too close":
                rep.seen((s, m, c["kind"], c["units"], c["M"], c["pro"], c["tof"]),
                         {"solver": s, "kind": c["kind"], "M": c["M"], "v1_low": el["v1"], "v1_high": eh["v1"]} if rep.evaluations % 2003 == 0 else None)
            if why:
                rep.violate("%s %s: %s: %s" % (s, m, why, bvp.describe(c)),
                            {"solver": s, "mode": m, "case": c, "low": el, "high": eh, "why": why})
    rep.need("pair", n_(8000, 80000))
    rep.need("just_above_minimum", n_(1500, 15000))
    rep.need("direct", n_(6000, 60000))
    rep.assumptions += ["which solution is which is taken from the reference: the two branches on either side of the minimum time"]


def replay(r):
    c = r["case"]
    recs = run.observe({r["solver"]: [dict(c, low=True), dict(c, low=False)]}, r["mode"])
    out = _work((r["solver"], r["mode"], c, recs[0][3], recs[1][3]))
    print(recs, out)
    return int(bool(out and out[1]))
