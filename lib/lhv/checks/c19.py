"""C19: classical elements <-> state vector."""

import math

import numpy as np

from .. import oracle
from .common import *

EL = "lamberthub.utils.elements"
KINDS = ("gen", "circ", "eq", "req", "par", "hyp", "eqcirc", "reqcirc", "pol", "eqpar", "reqhyp", "nearcirc", "neareq", "peri", "high", "node")


def make(rng, kind):
    mu = float(rng.choice([1.0, 398600.4418, 1.32712440018e11, 4 * math.pi**2]))
    L = float(rng.choice([1.0, 7e3, 1.5e8]))
    ecc = rng.uniform(0.01, 0.95)
    inc = rng.uniform(0.02, math.pi - 0.02)
    if "circ" in kind:
        ecc = 0.0
    if kind == "nearcirc":
        ecc = 10 ** rng.uniform(-6.5, -3)
    if "par" in kind:
        ecc = 1.0
    if "hyp" in kind:
        ecc = rng.uniform(1.02, 5)
    if kind == "high":
        ecc = rng.choice([rng.uniform(0.95, 0.999), rng.uniform(1.001, 1.02), rng.uniform(5, 30)])
    if kind.startswith("eq"):
        inc = 0.0
    if kind.startswith("req"):
        inc = math.pi
    if kind == "neareq":
        inc = rng.choice([0.0, math.pi]) + 0.0
        inc = abs(inc - 10 ** rng.uniform(-6.5, -2.5))
    if kind == "pol":
        inc = math.pi / 2
    lim = math.pi if ecc < 1 else (math.acos(-1 / ecc) if ecc > 1 else math.pi) * 0.95
    nu = rng.uniform(-lim, lim)
    raan, argp = rng.uniform(0, 2 * math.pi, 2)
    if kind == "peri":
        nu = rng.choice([0.0, math.pi, math.pi / 2, -math.pi / 2])
        raan, argp = rng.choice([0.0, math.pi / 2, math.pi, 3 * math.pi / 2], 2)
    if kind == "node":  # the periapsis, or the body, at or next to the node, or the node next to the x axis
        near = lambda: rng.choice([-1, 0, 1]) * 10 ** rng.uniform(-14, -5)
        k = rng.integers(4)
        if k != 1:
            argp = (rng.choice([0, math.pi]) + near()) % (2 * math.pi)
        if k in (1, 3):
            nu = (rng.choice([0, math.pi]) - argp + near() + math.pi) % (2 * math.pi) - math.pi
        if k == 2:
            raan = (rng.choice([0, math.pi]) + near()) % (2 * math.pi)
    return mu, float(L * rng.uniform(0.5, 3)), float(ecc), float(inc), float(raan), float(argp), float(nu)


def state(mu, p, ecc, inc, raan, argp, nu, kind):
    """Position and velocity from elements: angles along the orbit, written by hand."""
    cO, sO, ci, si = math.cos(raan), math.sin(raan), math.cos(inc), math.sin(inc)
    if kind.startswith("eq"):
        ci, si = 1.0, 0.0
    if kind.startswith("req"):
        ci, si = -1.0, 0.0
    N = np.array([cO, sO, 0.0])
    Mv = np.array([-sO * ci, cO * ci, si])
    u = argp + nu
    rr = p / (1 + ecc * math.cos(nu))
    er = math.cos(u) * N + math.sin(u) * Mv
    et = -math.sin(u) * N + math.cos(u) * Mv
    s = math.sqrt(mu / p)
    return rr * er, s * ecc * math.sin(nu) * er + s * (1 + ecc * math.cos(nu)) * et


def rel(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return float(np.linalg.norm(a - b) / np.linalg.norm(b))


def check(rep):
    rep.rule = ("orbits of %d kinds (all conics, circular, equatorial of both senses, polar, near-singular, special angles) "
                "in several unit systems; elements->state, state->elements and their composition are compared with "
                "hand-written conic geometry" % len(KINDS))
    n = n_(250, 4000)
    for mode in ("py", "jit"):
        rng = gen.rng_for(run.seed(), "C19", mode)
        calls, metas = [], []
        for i in range(n):
            for kind in KINDS:
                el = make(rng, kind)
                r, v = state(*el, kind)
                calls.append((EL, "coe2rv", el, {}))
                metas.append(("fwd", kind, el, r, v))
                calls.append((EL, "rv2coe", (el[0], r, v), {}))
                metas.append(("inv", kind, el, r, v))
                calls.append((EL, "rv_pqw", (el[0], el[1], el[2], el[6]), {}))
                metas.append(("pqw", kind, el, r, v))
            a = float(rng.uniform(-7, 7)) if i % 5 else float(rng.choice([0, math.pi / 2, math.pi, -math.pi]))
            for ax in (0, 1, 2):
                calls.append((EL, "rotation_matrix", (a, ax), {}))
                metas.append(("rot", ax, a))
            calls.append((EL, "coe_rotation_matrix", (el[3], el[4], el[5]), {}))
            metas.append(("crot", el[3], el[4], el[5]))
            if i % 10 == 0:
                calls.append((EL, "rotation_matrix", (a, int(rng.choice([-1, 3, 4, 7]))), {}))
                metas.append(("badaxis",))

        def mon(meta, call, out):
            k = meta[0]
            if k == "badaxis":
                return None if out[0] == "exc" and out[1] == "ValueError" else "invalid axis accepted: %r" % (out,)
            if out[0] != "ok":
                return "raised %r" % (out[1:],)
            got = out[1]
            rep.count("kind_" + str(meta[1]) if k == "inv" else k)
            if k == "rot":
                ax, a = meta[1:]
                w = rot(a, ax)
                if ax == 1 and abs(math.sin(a)) > 1e-12 and np.allclose(got, ROTY_SIGNS * w, rtol=0, atol=2e-15):
                    rep.finding("KF-ROTY")
                    return None
                return None if np.allclose(got, w, rtol=0, atol=2e-15) else "axis %d angle %r gives %r" % (ax, a, got)
            if k == "crot":
                w = rot(meta[2], 2) @ rot(meta[1], 0) @ rot(meta[3], 2)
                return None if np.allclose(got, w, rtol=0, atol=4e-15) else "not R3(raan) R1(inc) R3(argp)"
            _, kind, el, r, v = meta
            mu, p, ecc, inc, raan, argp, nu = el
            if k == "pqw":
                rr = p / (1 + ecc * math.cos(nu))
                w = [[rr * math.cos(nu), rr * math.sin(nu), 0], [-math.sqrt(mu / p) * math.sin(nu), math.sqrt(mu / p) * (ecc + math.cos(nu)), 0]]
                return None if rel(got[0], w[0]) < 1e-13 and rel(got[1], w[1]) < 1e-13 * (1 + ecc) / max(0.001, np.linalg.norm(w[1]) / math.sqrt(mu / p)) else "perifocal state %r, reference %r" % (got, w)
            if k == "fwd":
                e = max(rel(got[0], r), rel(got[1], v))
                return None if e < 1e-12 / max(0.01, np.linalg.norm(v) / math.sqrt(mu / p)) else "state differs from the conic by %.2g (%s)" % (e, kind)
            # inverse: ranges, values where defined, and the state they stand for
            p2, e2, i2, O2, w2, n2 = [float(x) for x in got]
            if not all(map(math.isfinite, (p2, e2, i2, O2, w2, n2))):
                return "not finite: %r (%s)" % (got, kind)
            if not (p2 > 0 and e2 >= 0 and 0 <= i2 <= math.pi and 0 <= O2 <= TWO_PI and 0 <= w2 <= TWO_PI and -math.pi <= n2 <= math.pi):
                return "elements out of range: %r (%s)" % (got, kind)
            r2, v2 = state(mu, p2, e2, i2, O2, w2, n2, "")
            err = max(rel(r2, r), rel(v2, v) * min(1.0, np.linalg.norm(v) / math.sqrt(mu / p)))
            tol = 1e-7 if kind in ("neareq",) else 1e-9 if kind in ("nearcirc", "circ", "eqcirc", "reqcirc") else 1e-11
            if ecc >= 1:
                tol *= 10 / max(1e-2, 1 + ecc * math.cos(nu))
            if not err <= tol:
                return "elements %r stand for another state, off by %.2g (%s, true %r)" % (got, err, kind, el)
            if abs(p2 / p - 1) > 1e-11:
                return "semi-latus rectum %r, true %r (%s)" % (p2, p, kind)
            if abs(e2 - ecc) > 1e-11 * (1 + ecc):
                return "eccentricity %r, true %r (%s)" % (e2, ecc, kind)
            if abs(i2 - inc) > (1e-7 if min(inc, math.pi - inc) < 1e-2 else 1e-11):
                return "inclination %r, true %r (%s)" % (i2, inc, kind)
            circ, eq = ecc < 1e-8, min(inc, math.pi - inc) < 1e-8
            if not eq and abs(wrap(O2 - raan)) > 1e-10 / max(1e-6, math.sin(inc)):
                return "node %r, true %r (%s)" % (O2, raan, kind)
            if eq and O2 != 0:
                return "node of an equatorial orbit is %r (%s)" % (O2, kind)
            if not circ and abs(wrap(n2 - nu)) > 1e-11 / max(1e-7, ecc) * 10:
                return "true anomaly %r, true %r (%s)" % (n2, nu, kind)
            if circ and w2 != 0:
                return "argument of periapsis of a circular orbit is %r (%s)" % (w2, kind)
            if not circ and not eq and abs(wrap(w2 - argp)) > 1e-10 / max(1e-6, ecc) + 1e-10 / max(1e-6, math.sin(inc)):
                return "argument of periapsis %r, true %r (%s)" % (w2, argp, kind)
            return None

        udisp(rep, mode, calls, metas, mon, EL)
    rep.need("calls_py", n)
    rep.need("calls_jit", n)
    for kind in KINDS:
        rep.need("kind_" + kind, 100)


# the finding KF-ROTY is exactly this sign pattern with respect to the right matrix
ROTY_SIGNS = np.array([[1, 1, 1], [1, 1, 1], [-1, 1, 1]], float)


def rot(a, ax):
    c, s = math.cos(a), math.sin(a)
    return np.array({0: [[1, 0, 0], [0, c, -s], [0, s, c]], 1: [[c, 0, s], [0, 1, 0], [-s, 0, c]], 2: [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[ax], float)
