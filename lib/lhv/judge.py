"""Offline oracle over recorded events: how far is an answer from the truth?"""

import math

import numpy as np

from . import oracle


def features(c):
    """Physics of a case that known findings and domains are stated in."""
    th, n, d1, d2, ch, s, lam, T = oracle.setup(c["mu"], c["r1"], c["r2"], c["tof"], c["pro"])
    f = {
        "theta": math.degrees(th),
        "off0": math.degrees(min(th, 2 * math.pi - th)),
        "off180": abs(180.0 - math.degrees(th)),
        "ratio": d2 / d1,
        "t_par": T / ((2.0 / 3.0) * (1.0 - lam**3)),
        "M": c["M"],
        "lam": lam,
        "t_me": T / oracle._T(0.0, 1.0, lam, 0),
    }
    if c["M"]:
        f["t_min"] = T / oracle._tmin_x(lam, c["M"])[1]
    return f


def _rel(a, b):
    return float(np.linalg.norm(a - b) / np.linalg.norm(b))


def error(c, v1, v2, good=1e-12):
    """Backward-stable error of (v1, v2) for case c.

    min(forward, backward): forward is the relative distance to the reference
    solution; backward is how badly the orbit (r1, v1), coasted for tof with the
    reference propagator, misses (r2, v2) with the right plane, sense and number of
    revolutions.  An answer is wrong only if it is neither near the true solution
    nor itself an orbit that satisfies the boundary conditions.
    """
    v1 = np.asarray(v1, float)
    v2 = np.asarray(v2, float)
    if v1.shape != (3,) or v2.shape != (3,) or not (
        np.all(np.isfinite(v1)) and np.all(np.isfinite(v2))
    ):
        return {"err": math.inf, "why": "not two finite 3-vectors"}
    w1, w2, info = oracle.solve(
        c["mu"], c["r1"], c["r2"], c["tof"], c["M"], c["pro"], c["low"]
    )
    fwd = max(_rel(v1, w1), _rel(v2, w2))
    out = {"fwd": fwd, "err": fwd}
    if not fwd <= good:
        b = backward(c, v1, v2, info)
        out.update(b)
        out["err"] = min(fwd, b["bwd"])
    return out


def backward(c, v1, v2, info=None):
    r1 = np.asarray(c["r1"], float)
    r2 = np.asarray(c["r2"], float)
    h = np.cross(r1, v1)
    th, n = oracle.geometry(r1, r2, c["pro"])
    sense = float(h @ n) / (float(np.linalg.norm(h)) or 1.0)
    if not sense > 0:
        return {"bwd": math.inf, "why": "wrong sense of motion"}
    try:
        r, v = oracle.propagate(c["mu"], r1, v1, c["tof"])
        sw = oracle.swept_angle(c["mu"], r1, v1, c["tof"])
    except (ArithmeticError, ValueError) as e:
        return {"bwd": math.inf, "why": "cannot be propagated: %s" % e}
    miss = float(np.linalg.norm(r - r2) / np.linalg.norm(r2))
    vmiss = _rel(v, np.asarray(v2, float)) if np.linalg.norm(v2) else math.inf
    bwd = max(miss, vmiss)
    dang = abs(sw - (th + 2 * math.pi * c["M"]))
    out = {"bwd": bwd, "miss": miss, "vmiss": vmiss, "swept_deg": math.degrees(sw),
           "want_deg": math.degrees(th) + 360 * c["M"]}
    if not dang < 0.5 * math.pi:
        out["bwd"] = math.inf
        out["why"] = "wrong number of revolutions"
    elif not bwd < math.inf:
        out["bwd"] = math.inf
    return out
