"""The boundary-value monitor shared by several checks."""

import json
import math
import os

from . import gen, judge, run

_calib = None
FLOOR = 1e-9
HEAD = 30.0
NEAR_ME = ("jiang2016", "thorne2004")


def calib():
    global _calib
    if _calib is None:
        with open(os.path.join(run.LIB, "lhv", "calib.json")) as f:
            _calib = json.load(f)
    return _calib


def threshold(solver, case):
    """Largest error accepted from this solver: HEAD times the worst ever observed on
    the (repaired) tree for this kind of case and tolerance, never below FLOOR."""
    t = "tight" if case["kw"].get("rtol", 1) < 1e-9 else "default"
    fam = "M" if case["M"] else "0"
    g = calib()[t][fam].get(solver, {})
    top = max(g.values(), default=0.0)
    seen = max(g.get("equat", 0.0), g.get("generic", 0.0)) if case["kind"] == "equat" else g.get(case["kind"]) or top  # some planes are tilted
    thr = max(FLOOR, 3e-10 * case["M"], HEAD * seen)  # the phase of the coasted orbit loses digits with every turn
    if solver == "negrete2024" or case["M"] and judge.features(case)["t_min"] < 1.002:
        # the quadrature, and the double root at the minimum time, have heavy tails
        thr = max(thr, 3 * top)
    if solver in NEAR_ME and not case["M"]:
        # they iterate on the semi-major axis, whose tolerance is amplified without
        # bound at the minimum-energy time: dt = sqrt(da) there
        rtol = case["kw"].get("rtol", 1e-7)
        tau = abs(judge.features(case)["t_me"] - 1.0)
        thr = max(thr, 300.0 * rtol / max(tau, rtol**0.5))
    off = case["f"].get("edge")
    if off:
        # next to collinear: the rounding of the inputs alone moves the answer by eps / off^2 or so
        thr = max(thr, 1e-2 if solver == "thorne2004" else 1e-3, 1000 * 2.3e-16 / off**2)
    return thr


def corners(seed, label, n, units, Ms, solver, edge):
    """The corner (or edge) cases judged for this solver."""
    cs = gen.corner(seed, label, n, units, Ms, edge)
    if edge and solver in ("avanzini2008", "vallado2013"):
        # their formulas lose all digits next to 0 and 360 degrees
        cs = [c for c in cs if c["kind"] == "near180" or c["f"]["edge"] > 1e-3]
    return cs


def msgkey(e):
    if e["k"] != "exc":
        return e["k"]
    return e["et"] + ": " + e["msg"][:40]


def allowed(solver, mode, c, e, f):
    """Id of the known finding that covers this refusal of a well-posed problem, or None.
    Predicates are stated in the physics of the case, not in the inputs drawn."""
    m = e.get("msg", "")
    over = m.startswith("Exceeded maximum number of iterations")
    if solver == "gauss1809":
        if f["theta"] < 45.0 and 0.6 < f["ratio"] < 1.6 and 0.35 < f["t_par"] < 2.5:
            return None  # the arcs the method was made for
        if over or m.startswith("Gauss' series does not converge") or e.get("et") == "ZeroDivisionError":
            return "KF-GAUSS-DOMAIN"
    elif solver in ("pan2016", "vallado2013"):
        if over and f["theta"] > 165.0 and (f["t_par"] < 0.6 or f["theta"] > 359.0 and f["t_par"] > 30.0):
            return "KF-PSI-BRACKET"
    elif solver == "arora2013":
        if m == "Failed to converge" and not c["M"] and (f["t_par"] < 0.06 or f["off0"] < 4.0):
            return "KF-ARORA-FAST"
        if m == "Failed to converge" and c["kw"].get("rtol", 1) < 1e-9:
            return "KF-ARORA-TIGHT"
    elif solver == "delatorre2018":
        if over and f["off0"] < (35.0 if not c["M"] else 1.0):
            return "KF-DELATORRE-SHORT"
    elif solver == "jiang2016":
        if over and abs(f["t_par"] - 1.0) < 1e-4:
            return "KF-JIANG-PARABOLA"
    elif solver == "avanzini2008":
        if m == "Failed to converge" or e.get("et") == "ZeroDivisionError":
            return "KF-AVANZINI-SECANT"
    elif solver == "negrete2024":
        if m.startswith("Contour integral did not return a"):
            return "KF-NEGRETE-CONTOUR"
        if m.startswith("No feasible solution") and c["M"] and f["t_min"] < 1.02:
            return "KF-NEGRETE-TMIN"
    return None


def rate_cap(solver, c_M, kind, n, key):
    """Largest share of n calls that a known finding may cover."""
    p = calib()["rates"].get("%s|%s|%s" % (solver, "M" if c_M else "0", kind), {}).get(key, 0.0)
    return p + 5.0 * math.sqrt(p * (1.0 - p) / n) + 0.02 + 2.0 / n


def work(rec):
    s, mode, c, e = rec
    d = {}
    if e["k"] == "ok" and "v1" in e:
        d = judge.error(c, e["v1"], e["v2"])
    elif e["k"] == "ok":
        d = {"err": math.inf, "why": e.get("malformed", "malformed")}
    if e["k"] != "ok" or not d["err"] < 1e-3:
        d["feat"] = judge.features(c)
    if e["k"] == "exc":
        d["kf"] = allowed(s, mode, c, e, d["feat"])
    if c["f"].get("v1") and not c["M"]:
        # kepler cases carry the truth by construction: the reference must agree
        from . import oracle
        w1, _, _ = oracle.solve(c["mu"], c["r1"], c["r2"], c["tof"], 0, c["pro"], c["low"])
        import numpy as np
        d["oracle_gap"] = float(np.linalg.norm(w1 - c["f"]["v1"]) / np.linalg.norm(w1))
    return d


def describe(c):
    return "mu=%r r1=%r r2=%r tof=%r M=%r is_prograde=%r is_low_path=%r%s [%s,%s]" % (
        c["mu"], c["r1"], c["r2"], c["tof"], c["M"], c["pro"], c["low"],
        " " + repr(c["kw"]) if c["kw"] else "", c["kind"], c["units"])


def replay_of(s, mode, c, e, d):
    return {"solver": s, "mode": mode, "case": c, "event": e, "judged": d}


def judge_all(rep, recs, tag="bvp"):
    """Judges every answer in recs; returns the verdicts aligned with recs."""
    ds = run.pmap(work, recs)
    for (s, mode, c, e), d in zip(recs, ds):
        rep.count("events_" + mode)
        rep.count("outcome_" + e["k"])
        if d.get("oracle_gap", 0) > 1e-6:
            raise run.Inconclusive("reference solver disagrees with the constructed orbit: %r" % (c,))
        if "oracle_gap" in d:
            rep.count("reference_cross_checked")
        if e["k"] != "ok":
            continue
        rep.count("answers_" + s)
        if c["kw"].get("rtol", 1) < 1e-9:
            rep.count("answers_tight")
        thr = threshold(s, c)
        rep.seen((s, mode, c["kind"], c["units"], c["M"], c["pro"], c["low"], c["tof"]),
                 {"solver": s, "mode": mode, "kind": c["kind"], "units": c["units"], "M": c["M"], "error": d["err"], "accepted_up_to": thr}
                 if rep.evaluations % 4001 == 0 else None)
        if not d["err"] <= thr:
            rep.violate("%s %s: wrong answer, error %.3g > %.3g (%s) for %s" % (
                s, mode, d["err"], thr, d.get("why", "misses the boundary conditions"), describe(c)),
                replay_of(s, mode, c, e, d))
    return ds
