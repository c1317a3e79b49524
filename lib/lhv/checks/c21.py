"""C21: transfer angle, orbit normal, inclination and node from two positions."""

import math

import numpy as np

from .. import oracle
from .common import *

A = "lamberthub.utils.angles"


def vecs(rng, i):
    k = i % 12
    s = float(10 ** rng.uniform(-6, 9)) if k == 8 else 1.0
    if k == 0:
        u1, u2 = gen.pair(rng, rng.uniform(0.01, 3.13))
    elif k == 1:
        u1, u2 = gen.pair(rng, 10 ** rng.uniform(-8, -2))
    elif k == 2:
        u1, u2 = gen.pair(rng, math.pi - 10 ** rng.uniform(-8, -2))
    elif k == 3:
        while True:
            u1, u2 = gen._special_pair(rng)
            if abs(np.cross(u1, u2)[2]) > 1e-9 or gen.exactly_polar(u1, u2):
                break
    elif k == 4:  # equatorial
        a, t = rng.uniform(0, 6.28), rng.uniform(-3.1, 3.1)
        u1, u2 = np.array([math.cos(a), math.sin(a), 0]), np.array([math.cos(a + t), math.sin(a + t), 0])
    elif k == 5:  # polar
        a, t = rng.uniform(0, 6.28), rng.uniform(-3.1, 3.1)
        u1, u2 = np.array([math.cos(a), 0, math.sin(a)]), np.array([math.cos(a + t), 0, math.sin(a + t)])
        if rng.integers(2):
            u1, u2 = u1[[1, 0, 2]], u2[[1, 0, 2]]
    elif k == 6:  # collinear, exactly (powers of two keep the cross product exact)
        u1 = np.round(gen.rdir(rng) * 1024) + np.array([1.0, 0, 0])
        return u1, u1 * float(rng.choice([0.5, 2.0, 4.0, -1.0, -0.5, -2.0])), True
    elif k == 7:  # on the axes, collinear
        e = np.eye(3)[rng.integers(3)]
        return e * float(rng.uniform(0.5, 2)), e * float(rng.choice([-1, 1]) * rng.uniform(2.5, 5)), True
    elif k >= 9:  # a plane almost equatorial or almost polar, or with its node almost on one of the axes
        n = gen.rdir(rng)
        d = 10 ** rng.uniform(-8, -1.5)
        if k == 11:
            n[rng.integers(2)] = 10 ** rng.uniform(-12, -3) * rng.choice([-1.0, 1.0])
        elif k == 9:
            n = np.array([n[0] * d, n[1] * d, rng.choice([-1.0, 1.0])])
        else:
            n = np.array([n[0], n[1], d * rng.choice([-1.0, 1.0])])
        u1 = np.cross(n, gen.rdir(rng))
        u1 /= np.linalg.norm(u1)
        t = rng.uniform(0.05, 3.1)
        u2 = math.cos(t) * u1 + math.sin(t) * np.cross(n / np.linalg.norm(n), u1)
    else:
        u1, u2 = gen.pair(rng, rng.uniform(0.01, 3.13))
    return u1 * s, u2 * s * float(10 ** rng.uniform(-0.5, 0.5)), False


def check(rep):
    rep.rule = ("pairs of positions: generic, 1e-8 rad from 0 and 180 degrees, tabulated angles, equatorial, polar, almost so, exactly "
                "collinear, sizes 1e-6..1e9; both senses; compared with atan2 geometry and with each other")
    n = n_(4500, 60000)
    for mode in ("py", "jit"):
        rng = gen.rng_for(run.seed(), "C21", mode)
        calls, metas = [], []
        for i in range(n):
            r1, r2, col = vecs(rng, i)
            if not col and abs(np.cross(r1 / np.linalg.norm(r1), r2 / np.linalg.norm(r2))[2]) < 1e-12 and not gen.exactly_polar(r1, r2):
                continue
            for pro in (True, False):
                calls.append((A, "get_transfer_angle", (r1, r2, pro), {}))
                metas.append((r1, r2, pro, col))
                if not col:
                    calls.append((A, "get_orbit_normal_vector", (r1, r2, pro), {}))
                    metas.append((r1, r2, pro, col))
                    calls.append((A, "get_orbit_inc_and_raan_from_position_vectors", (r1, r2, pro), {}))
                    metas.append((r1, r2, pro, col))
        last = {}

        def mon(meta, call, out):
            r1, r2, pro, col = meta
            if out[0] != "ok":
                return "raised %r" % (out[1:],)
            got = out[1]
            fn = call[1]
            if col:
                rep.count("collinear")
                want = 0.0 if float(r1 @ r2) > 0 else math.pi
                return None if got == want else "collinear vectors %r %r give %r" % (r1.tolist(), r2.tolist(), got)
            th, nrm = oracle.geometry(r1, r2, pro)
            off = min(th, abs(math.pi - th), 2 * math.pi - th)
            if fn == "get_transfer_angle":
                if not abs(got - th) < 1e-13 + 3e-16 / max(off, 1e-9) * 4:
                    return "angle of %r %r prograde=%r is %r, reference %r" % (r1.tolist(), r2.tolist(), pro, got, th)
                if not pro and "a" in last and abs(last["a"] + got - TWO_PI) > 1e-13:
                    return "the two senses sum to %r" % (last["a"] + got)
                last["a"] = got
                return None
            tol = 1e-12 + 3e-15 / max(off, 1e-9)
            if fn == "get_orbit_normal_vector":
                return None if np.linalg.norm(np.array(got) - nrm) < tol else "normal of %r %r prograde=%r is %r, reference %r" % (r1.tolist(), r2.tolist(), pro, got, nrm)
            inc, raan = got
            if not (math.isfinite(inc) and math.isfinite(raan) and 0 <= inc <= math.pi and 0 <= raan <= TWO_PI):
                return "inclination, node out of range: %r" % (got,)
            # the pair must describe the normal
            w = np.array([math.sin(inc) * math.sin(raan), -math.sin(inc) * math.cos(raan), math.cos(inc)])
            if np.linalg.norm(w - nrm) > tol + 3e-8:
                return "inclination, node %r of %r %r prograde=%r describe normal %r, reference %r" % (got, r1.tolist(), r2.tolist(), pro, w, nrm)
            # and each of them is accurate where it is well defined
            flat = math.hypot(nrm[0], nrm[1])
            if flat > 1e-5:
                rep.count("nodes")
                if abs(wrap(raan - math.atan2(nrm[0], -nrm[1]))) > (tol + 1e-14) / flat:
                    return "node of %r %r prograde=%r is %r, reference %r" % (r1.tolist(), r2.tolist(), pro, raan, math.atan2(nrm[0], -nrm[1]) % TWO_PI)
                if abs(inc - math.atan2(flat, nrm[2])) > (tol + 1e-14) / flat:
                    return "inclination of %r %r prograde=%r is %r, reference %r" % (r1.tolist(), r2.tolist(), pro, inc, math.atan2(flat, nrm[2]))
            if abs(nrm[2]) > 1e-9 and (inc < math.pi / 2) != pro:
                return "inclination %r for prograde=%r" % (inc, pro)
            return None

        udisp(rep, mode, calls, metas, mon, A)
    # elementary vector algebra
    rng = gen.rng_for(run.seed(), "C21lin")
    calls, metas = [], []
    for i in range(n_(600, 6000)):
        a, b = rng.normal(size=3) * 10 ** rng.uniform(-5, 8), rng.normal(size=3) * 10 ** rng.uniform(-5, 8)
        if i % 3 == 0:
            a, b = rng.integers(-9, 9, 3), rng.integers(-9, 9, 3)
        if i % 30 == 1:
            a = (rng.integers(1, 9, 3) * 10**9).astype(np.int64)
        for fn, args in (("dot", (a, b)), ("cross", (a, b)), ("norm", (a,))):
            calls.append(("lamberthub.linalg", fn, args, {}))
            metas.append((fn, np.asarray(a, float), np.asarray(b, float)))

    def mon2(meta, call, out):
        fn, a, b = meta
        if out[0] != "ok":
            return "raised %r" % (out[1:],)
        s = float(np.linalg.norm(a) * np.linalg.norm(b))
        if fn == "norm":
            return None if abs(out[1] - np.linalg.norm(a)) <= 1e-14 * np.linalg.norm(a) else "norm%r = %r" % (call[2], out[1])
        w = np.cross(a, b) if fn == "cross" else float(a @ b)
        return None if np.max(np.abs(np.array(out[1]) - w)) <= 1e-14 * s else "%s%r = %r" % (fn, call[2], out[1])

    udisp(rep, "py", calls, metas, mon2, A)
    udisp(rep, "jit", calls, metas, mon2, A)
    rep.need("calls_py", n)
    rep.need("calls_jit", n)
    rep.need("nodes", n)
    rep.need("collinear", 100)
