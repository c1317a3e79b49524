"""C17: anomaly conversions are exact inverses and match the geometry of the conic."""

import math

from .common import *

A = "lamberthub.utils.angles"


def lim(ecc):
    return math.pi if ecc <= 1 else math.acos(-1.0 / ecc)


def nus(rng, ecc):
    L = lim(ecc)
    k = rng.integers(6)
    if k == 0:
        return float(rng.choice([0.0, 0.5, 1.0, math.pi / 2, -math.pi / 2, 2.0, -2.5]) * (L / math.pi if ecc > 1 else 1))
    if k == 1:
        return float(rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -1))
    if k == 2:
        return float(rng.choice([-1, 1]) * (L - 10 ** rng.uniform(-4, -1)))
    if k == 3 and ecc < 1:
        return float(rng.uniform(0, 2 * math.pi))  # the other usual convention
    return float(rng.uniform(-L, L) * 0.999)


def ref_E(nu, e):
    # e + cos(nu), written without cancellation next to the apoapsis
    return math.atan2(math.sqrt((1 - e) * (1 + e)) * math.sin(nu), (e - 1) + 2 * math.cos(0.5 * nu) ** 2)


def ref_nu_of_E(E, e):
    return math.atan2(math.sqrt((1 - e) * (1 + e)) * math.sin(E), (1 - e) - 2 * math.sin(0.5 * E) ** 2)


def ref_H(nu, e):
    s = math.sqrt((e - 1) * (e + 1)) * math.sin(nu) / ((1 - e) + 2 * e * math.cos(0.5 * nu) ** 2)
    return math.asinh(s)


def ref_nu_of_H(H, e):
    if abs(H) > 100.0:  # at the asymptote, to the last digit
        return math.copysign(2 * math.atan2(math.sqrt(e + 1), math.sqrt(e - 1)), H)
    return math.atan2(math.sqrt((e - 1) * (e + 1)) * math.sinh(H), (e - 1) - 2 * math.sinh(0.5 * H) ** 2)


def check(rep):
    rep.rule = ("anomalies over whole (and both usual) ranges, tiny, right-angle and near-limit values; "
                "eccentricities 0..1-1e-13, 1+1e-13..50; a case is non-trivial when the function was called "
                "and its value compared with the half-angle-free reference")
    n = n_(4000, 60000)
    for mode in ("py", "jit"):
        rng = gen.rng_for(run.seed(), "C17", mode)
        calls, metas = [], []

        def add(fn, args, want, cond, per=True):
            calls.append((A, fn, args, {}))
            metas.append((want, cond, per))

        for i in range(n):
            e = float([rng.uniform(0, 1), 0.0, 1 - 10 ** rng.uniform(-13 if i % 2 else -4, -1), 10 ** rng.uniform(-9, -1), rng.uniform(0, 0.3)][i % 5])
            nu = nus(rng, e)
            E = ref_E(nu, e)
            # condition number of each direction
            de = (1 - e * e) ** 0.5 / (1 + e * math.cos(nu)) if abs(1 + e * math.cos(nu)) > 1e-14 else 1e14
            add("nu_to_E", (nu, e), E, max(1.0, de) * (1 + abs(nu)))
            E2 = float(rng.uniform(-math.pi, math.pi) * 0.9999)
            if i % 3 == 0:
                E2 = float(rng.uniform(0, 2 * math.pi) if i % 2 else rng.choice([0.0, math.pi / 2, -math.pi / 2, 1e-9, math.pi - 1e-6, 1e-6 - math.pi]))
            add("E_to_nu", (E2, e), ref_nu_of_E(E2, e), max(1.0, (1 - e * e) ** 0.5 / (1 - e * math.cos(E2))))
            add("nu_to_E", (ref_nu_of_E(E2, e), e), E2, max(1.0, (1 - e * math.cos(E2)) / (1 - e * e) ** 0.5) * 1.0)
            h = float([1 + 10 ** rng.uniform(-13 if i % 2 else -4, 0), rng.uniform(1.01, 5), 10 ** rng.uniform(0.1, 1.7)][i % 3])
            nu = nus(rng, h) if i % 7 else 0.0
            nu = max(-lim(h) * 0.9995, min(lim(h) * 0.9995, nu))
            add("nu_to_H", (nu, h), ref_H(nu, h), max(1.0, (h * h - 1) ** 0.5 / (1 + h * math.cos(nu))) * (1 + 1 / (lim(h) - abs(nu)) * 0.01), False)
            H = float(rng.uniform(-6, 6) if i % 4 else rng.choice([-1, 1]) * 10 ** (rng.uniform(-9, 0) if i % 8 else rng.uniform(0.5, 4)))
            add("H_to_nu", (H, h), ref_nu_of_H(H, h), max(1.0, 1 / (h - 1)) ** 0.5 + 1, False)
            nu = max(-3.1405, min(3.1405, nus(rng, 1.0)))
            add("nu_to_B", (nu,), math.sin(nu) / (1 + math.cos(nu)), (1 + math.tan(nu / 2) ** 2), False)
            B = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-9, 3 if i % 4 else 12))
            add("B_to_nu", (B,), math.atan2(2 * B, 1 - B * B), 1.0, False)

        def mon(meta, call, out):
            want, cond, per = meta
            if out[0] != "ok":
                return "raised %s" % (out[1:],)
            got = out[1]
            if not isinstance(got, float) or not math.isfinite(got):
                return "returned %r" % (got,)
            d = wrap(got - want) if per else got - want
            # relative for tiny angles, absolute otherwise
            if abs(d) > 2e-13 * cond * max(abs(want), abs(call[2][0]), 1e-3 if abs(want) > 1e-3 else abs(want)) + 1e-300 + (1e-15 if per and abs(want) > 1 else 0):
                return "%r%r = %r, reference %r" % (call[1], call[2], got, want)

        udisp(rep, mode, calls, metas, mon, A)
        # closed loops through the library alone: there and back, both orders
        rng = gen.rng_for(run.seed(), "C17loop", mode)
        first, args = [], []
        for i in range(n):
            e = float(rng.uniform(0, 0.98))
            h = float(rng.uniform(1.02, 6))
            first += [(A, "nu_to_E", (x, e), {}) for x in (float(rng.uniform(-3.1, 3.1)),)]
            first += [(A, "E_to_nu", (x, e), {}) for x in (float(rng.uniform(-3.1, 3.1)),)]
            first += [(A, "nu_to_H", (float(rng.uniform(-1, 1) * lim(h) * 0.98), h), {})]
            first += [(A, "H_to_nu", (float(rng.uniform(-4, 4)), h), {})]
            first += [(A, "nu_to_B", (float(rng.uniform(-3.1, 3.1)),), {})]
            first += [(A, "B_to_nu", (float(rng.uniform(-30, 30)),), {})]
        res = run.ucalls_split(mode, first)
        inv = {"nu_to_E": "E_to_nu", "E_to_nu": "nu_to_E", "nu_to_H": "H_to_nu", "H_to_nu": "nu_to_H", "nu_to_B": "B_to_nu", "B_to_nu": "nu_to_B"}
        back, meta = [], []
        for c, r in zip(first, res):
            if r[0] == "ok":
                back.append((A, inv[c[1]], (r[1],) + c[2][1:], {}))
                meta.append((c, r[1]))
            else:
                rep.violate("%s %s: raised %s" % (c[1], mode, r[1:]), {"call": repr(c), "out": r})

        def mon2(meta, call, out):
            c, _ = meta
            x = c[2][0]
            if out[0] != "ok" or not abs(out[1] - x) <= 1e-9 * (1 + x * x):
                return "%s(%s%r) = %r, not %r" % (call[1], c[1], c[2], out[1], x)

        udisp(rep, mode, back, meta, mon2, A)
    rep.need("calls_py", n * 6)
    rep.need("calls_jit", n * 6)
    rep.assumptions.append("reference: two-argument arctangent forms of the conic relations, binary64")
