"""C20: Stumpff functions."""

import math
from decimal import Decimal, getcontext

from .common import *

S = "lamberthub.utils.stumpff"
getcontext().prec = 80


def ref(k, psi):
    """c_k(psi) by its defining series in 80 digits (|psi| small enough), else closed form."""
    if abs(psi) <= 400:
        x = -Decimal(psi)
        t = Decimal(1)
        for j in range(1, k + 1):
            t /= j
        s = t
        n = 0
        while True:
            n += 1
            t = t * x / ((k + 2 * n - 1) * (k + 2 * n))
            s += t
            if abs(t) < Decimal(10) ** -70 and n > abs(psi) ** 0.5:
                return float(s)
    r = math.sqrt(abs(psi))
    if psi > 0:
        return 2 * math.sin(r / 2) ** 2 / psi if k == 2 else (r - math.sin(r)) / (psi * r)
    return 2 * math.sinh(r / 2) ** 2 / -psi if k == 2 else (math.sinh(r) - r) / (-psi * r)


def check(rep):
    rep.rule = ("psi log-distributed over both signs 1e-300..1e5, dense at the series/closed-form switch, at 0 and at the "
                "zeros (2 k pi)^2; every value is compared with the 80-digit defining series")
    n = n_(8000, 120000)
    for mode in ("py", "jit"):
        rng = gen.rng_for(run.seed(), "C20", mode)
        xs = [0.0, -0.0, 1.0, -1.0, 1e-300, -1e-300, math.pi**2, 4 * math.pi**2]
        for d in range(-60, 61):
            for c in (1.0, -1.0):
                xs += [c + d * 2.0**-52, c + d * 1e-4]
        for i in range(n):
            k = i % 5
            s = float(rng.choice([-1, 1]))
            if k == 0:
                xs.append(s * 10 ** rng.uniform(-30, 0))
            elif k == 1:
                xs.append(s * rng.uniform(0, 4))
            elif k == 2:
                xs.append(s * 10 ** rng.uniform(0, 5 if s > 0 else 4.5))
            elif k == 3:
                xs.append((2 * math.pi * rng.integers(1, 6)) ** 2 * (1 + s * 10 ** rng.uniform(-10, -1)))
            else:
                xs.append(s * rng.uniform(0, 60))
        xs = [float(x) for x in xs]
        calls, metas = [], []
        for x in xs:
            for k, fn in ((2, "c2"), (3, "c3")):
                calls.append((S, fn, (x,), {}))
                metas.append(ref(k, x))

        def mon(want, call, out):
            x = call[2][0]
            if out[0] != "ok":
                return "raised %r" % (out[1:],)
            got = out[1]
            # absolute rounding of 1 - cos and of the root's argument near the zeros
            a = 4e-16 * (1 + math.sqrt(abs(x))) / max(1.0, abs(x))
            if not (isinstance(got, (int, float)) and abs(got - want) <= 4e-14 * abs(want) * (1 + 0.01 * abs(x) ** 0.5) + a):
                return "%s(%r) = %r, reference %r" % (call[1], x, got, want)

        udisp(rep, mode, calls, metas, mon, S)
        if mode == "py":  # integer arguments are arguments too
            calls = [(S, f, (x,), {}) for f in ("c2", "c3") for x in range(-30, 31)]
            metas = [ref(2 if c[1] == "c2" else 3, float(c[2][0])) for c in calls]
            udisp(rep, mode, calls, metas, mon, S)
    rep.need("calls_py", n)
    rep.need("calls_jit", n)
