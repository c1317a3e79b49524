"""C18: mean anomalies are the time law of the conic."""

import math

from .. import oracle
from .c17 import lim, nus, ref_E, ref_H
from .common import *

K = "lamberthub.utils.kepler"


def ref_mean(nu, e):
    if e < 1:
        E = ref_E(nu, e)
        if abs(E) < 0.3 and e > 0.5:  # E - e sin E without cancellation
            s, t, k = 0.0, E, 1
            d = 0.0
            t = E
            for k in range(1, 12):
                t *= -E * E / ((2 * k) * (2 * k + 1))
                d += t
            return (1 - e) * E - e * d
        return E - e * math.sin(E)
    if e == 1:
        t = math.sin(nu) / (1 + math.cos(nu))
        return t + t**3 / 3
    H = ref_H(nu, e)
    if abs(H) < 0.3:
        d, t = 0.0, H
        for k in range(1, 12):
            t *= H * H / ((2 * k) * (2 * k + 1))
            d += t
        return (e - 1) * H + e * d
    return e * math.sinh(H) - H


def check(rep):
    rep.rule = ("true anomaly x eccentricity over ellipse/parabola/hyperbola incl. limits; each value is compared with "
                "the reference time law and, for a sub-sample, with a flight from periapsis by the reference propagator")
    n = n_(6000, 100000)
    for mode in ("py", "jit"):
        rng = gen.rng_for(run.seed(), "C18", mode)
        calls, metas = [], []

        def add(fn, args, want, tol, nu=None, e=None):
            calls.append((K, fn, args, {}))
            metas.append((want, tol, nu, e))

        for i in range(n):
            e = float([rng.uniform(0, 1), 0.0, rng.uniform(0, 0.3), 1 - 10 ** rng.uniform(-14, -1), 10 ** rng.uniform(-9, -1)][i % 5])
            nu = max(-3.1415, min(3.1415, wrap(nus(rng, e))))
            w = ref_mean(nu, e)
            add("kepler_from_nu", (nu, e), w, 1e-11 * abs(w) + 4e-15 * abs(ref_E(nu, e)), nu, e)
            h = float([rng.uniform(1.05, 5), 1 + 10 ** rng.uniform(-14, 0), 10 ** rng.uniform(0.1, 1.5)][i % 3])
            nu = max(-lim(h) * 0.999, min(lim(h) * 0.999, nus(rng, h)))
            w = ref_mean(nu, h)
            # sensitivity to nu near the asymptote
            c = h * math.cosh(ref_H(nu, h))
            add("kepler_from_nu", (nu, h), w, 1e-9 * abs(w) * (1 + 1e-3 * c / max(1e-3, lim(h) - abs(nu))) + 4e-15 * h * math.sinh(abs(ref_H(nu, h))), nu, h)
            nu = max(-3.13, min(3.13, nus(rng, 1.0)))
            w = ref_mean(nu, 1.0)
            add("kepler_from_nu", (nu, 1.0), w, 1e-10 * abs(w) + 1e-300, nu, 1.0)
            if i % 3 == 0:
                add("kepler_from_nu", (nu, 1), w, 1e-10 * abs(w) + 1e-300)
                add("kepler_from_nu", (nu, -10 ** float(rng.uniform(-9, 2))), "ValueError", 0)
                sign = float(rng.choice([-1, 1]))
                E = float(rng.uniform(-7, 7)) if i % 2 else sign * 10 ** float(rng.uniform(-6, 6))
                add("kepler_elliptic", (E, e), E - e * math.sin(E), 1e-14 * (abs(E) + e * abs(math.sin(E))))
                H = float(rng.uniform(-40, 40)) if i % 2 else sign * 10 ** float(rng.uniform(-6, 2.84))
                add("kepler_hyperbolic", (H, h), h * math.sinh(H) - H, 1e-14 * (h * math.sinh(abs(H)) + abs(H)))
                B = sign * 10 ** float(rng.uniform(-9, 6))
                add("kepler_parabolic", (B,), B + B**3 / 3, 1e-14 * abs(B + B**3 / 3))

        def mon(meta, call, out):
            want, tol, nu, e = meta
            if want == "ValueError":
                return None if out[0] == "exc" and out[1] == "ValueError" else "negative eccentricity gave %r" % (out,)
            if out[0] != "ok":
                return "raised %r" % (out[1:],)
            got = out[1]
            if not (isinstance(got, (int, float)) and abs(got - want) <= tol):
                return "%s%r = %r, reference %r" % (call[1], call[2], got, want)
            if nu is not None and nu > 1e-3 and rep.cover.get("flights", 0) < n_(4000, 40000):
                # fly from periapsis (q = 1, mu = 1) for the time the anomaly stands for
                rep.count("flights")
                if e < 1:
                    t = got / (1 - e) ** 1.5
                elif e == 1:
                    t = got * 2**0.5
                else:
                    t = got / (e - 1) ** 1.5
                if abs(e - 1) < 1e-2 and e != 1:
                    return None
                r, v = oracle.propagate(1.0, [1.0, 0, 0], [0, math.sqrt(1 + e), 0], t)
                a = math.atan2(r[1], r[0])
                if abs(wrap(a - nu)) > 1e-6 * (1 + (1 / max(1e-3, lim(e) - abs(nu)) if e >= 1 else 0)):
                    return "kepler_from_nu%r = %r is not the time law: flown anomaly %r" % (call[2], got, a)

        udisp(rep, mode, calls, metas, mon, K)
        # the time law increases along the orbit
        calls = []
        for j in range(n_(60, 600)):
            e = float([rng.uniform(0, 0.95), 1.0, rng.uniform(1.05, 4)][j % 3])
            L = lim(e) * 0.98
            calls += [(K, "kepler_from_nu", (-L + 2 * L * k / 100.0, e), {}) for k in range(101)]
        res = run.ucalls(mode, calls)
        for j in range(0, len(calls), 101):
            vals = [r[1] if r[0] == "ok" else float("nan") for r in res[j : j + 101]]
            rep.seen(("mono", mode, calls[j][2]))
            rep.count("sequences")
            if not all(b > a for a, b in zip(vals, vals[1:])):
                rep.violate("kepler_from_nu %s: not increasing along the orbit e=%r" % (mode, calls[j][2][1]), {"vals": vals, "e": calls[j][2][1]})
            if not all(abs(vals[k] + vals[100 - k]) <= 1e-9 * (1 + abs(vals[k])) for k in range(101)):
                rep.violate("kepler_from_nu %s: not odd in the anomaly e=%r" % (mode, calls[j][2][1]), {"vals": vals, "e": calls[j][2][1]})
    rep.need("calls_py", n)
    rep.need("calls_jit", n)
    rep.need("flights", 2000)
