"""Reference models, independent of /repo: conic propagation and the Lambert problem.

Nothing here imports lamberthub.  All formulas are evaluated in non-dimensional
units chosen from the case (|r1| = 1, mu = 1), so that the oracle itself does not
depend on the unit system of the workload.
"""

import math

import numpy as np
from scipy.optimize import brentq, minimize_scalar

TWO_PI = 2.0 * math.pi


def _stumpff(psi):
    """c2(psi), c3(psi)."""
    if psi > 0.3:
        s = math.sqrt(psi)
        sh = math.sin(0.5 * s)
        return 2.0 * sh * sh / psi, (s - math.sin(s)) / (psi * s)
    if psi < -0.3:
        s = math.sqrt(-psi)
        sh = math.sinh(0.5 * s)
        return 2.0 * sh * sh / (-psi), (math.sinh(s) - s) / (-psi * s)
    c2 = c3 = 0.0
    t2, t3 = 0.5, 1.0 / 6.0
    for k in range(1, 14):
        c2 += t2
        c3 += t3
        t2 *= -psi / ((2 * k + 1) * (2 * k + 2))
        t3 *= -psi / ((2 * k + 2) * (2 * k + 3))
    return c2, c3


def propagate(mu, r, v, t):
    """Universal-variable two-body propagation; returns (r(t), v(t))."""
    r = np.asarray(r, float)
    v = np.asarray(v, float)
    L = math.sqrt(float(r @ r))
    T = math.sqrt(L**3 / mu)
    V = L / T
    r0, v0, t = r / L, v / V, t / T
    rv = float(r0 @ v0)
    alpha = 2.0 - float(v0 @ v0)  # 1/a

    def tof(chi):
        psi = alpha * chi * chi
        c2, c3 = _stumpff(psi)
        return chi**3 * c3 + rv * chi * chi * c2 + chi * (1.0 - psi * c3)

    if alpha > 1e-14:
        # whole periods are taken out before solving
        P = TWO_PI / alpha**1.5
        n = math.floor(t / P)
        tt = t - n * P
        hi = TWO_PI / math.sqrt(alpha)
        lo = 0.0
    else:
        tt = t
        lo, hi = 0.0, 1.0
        while tof(hi) < tt:
            lo, hi = hi, 2.0 * hi
            if hi > 1e12:
                raise ArithmeticError("no bracket")
    if tt <= 0:
        chi = 0.0
    else:
        f = lambda x: tof(x) - tt
        fl, fh = f(lo), f(hi)
        if fh <= 0:
            chi = hi
        elif fl >= 0:
            chi = lo
        else:
            chi = brentq(f, lo, hi, xtol=1e-300, rtol=9e-16, maxiter=500)
        for _ in range(2):  # polish
            psi = alpha * chi * chi
            c2, c3 = _stumpff(psi)
            rr = chi * chi * c2 + rv * chi * (1 - psi * c3) + (1 - psi * c2)
            if rr > 0:
                chi -= (tof(chi) - tt) / rr
    psi = alpha * chi * chi
    c2, c3 = _stumpff(psi)
    f_ = 1.0 - chi * chi * c2
    g_ = tt - chi**3 * c3
    r1 = f_ * r0 + g_ * v0
    n1 = math.sqrt(float(r1 @ r1))
    fd = chi * (psi * c3 - 1.0) / n1
    gd = 1.0 - chi * chi * c2 / n1
    v1 = fd * r0 + gd * v0
    return r1 * L, v1 * V


def swept_angle(mu, r, v, t, nsamp=None):
    """True angle swept by the conic (r, v) in time t (radians, may exceed 2*pi)."""
    r = np.asarray(r, float)
    v = np.asarray(v, float)
    L = math.sqrt(float(r @ r))
    V = math.sqrt(mu / L)
    r0, v0 = r / L, v / V
    alpha = 2.0 - float(v0 @ v0)
    tt = t / (L / V)
    n = 0
    if alpha > 0:
        P = TWO_PI / alpha**1.5
        n = math.floor(tt / P)
    r1, _ = propagate(mu, r, v, t)
    h = np.cross(r0, v0)
    h = h / np.linalg.norm(h)
    a = math.atan2(float(np.cross(r0, r1 / L) @ h), float(r0 @ (r1 / L)))
    return (a % TWO_PI) + TWO_PI * n


class Infeasible(Exception):
    """No transfer with that many revolutions in that time."""


def geometry(r1, r2, prograde):
    """(theta in (0, 2*pi), unit orbit normal) of the transfer; None when collinear."""
    r1 = np.asarray(r1, float)
    r2 = np.asarray(r2, float)
    u1 = r1 / np.linalg.norm(r1)
    u2 = r2 / np.linalg.norm(r2)
    c = np.cross(u1, u2)
    s = float(np.linalg.norm(c))
    if s == 0:
        return None
    th = math.atan2(s, float(u1 @ u2))
    n = c / s
    if (n[2] < 0) == bool(prograde):
        th, n = TWO_PI - th, -n
    return th, n


def _T(x, w, lam, M):
    """Non-dimensional time of flight; w = 1 + x is passed separately for accuracy."""
    omx2 = w * (2.0 - w)  # 1 - x^2
    y = math.sqrt(max(1.0 - lam * lam * omx2, 0.0))
    if M == 0 and 0.5 < x < 1.6 or abs(omx2) < 1e-6:
        eta = y - lam * x
        S1 = 0.5 * (1.0 - lam - x * eta)
        if abs(S1) < 0.6:
            # Battin's hypergeometric form, valid through the parabola
            sj = cj = 1.0
            j = 0
            while True:
                cj1 = cj * (3.0 + j) * (1.0 + j) / (2.5 + j) * S1 / (j + 1.0)
                sj1 = sj + cj1
                if sj1 == sj or j > 500:
                    break
                sj, cj, j = sj1, cj1, j + 1
            t0 = 0.5 * (eta**3 * 4.0 / 3.0 * sj1 + 4.0 * lam * eta)
            return t0 + (M * math.pi / omx2**1.5 if M else 0.0)
    if omx2 > 0:
        sq = math.sqrt(omx2)
        psi = math.atan2((y - x * lam) * sq, x * y + lam * omx2)
        if psi < 0:
            psi += TWO_PI
        return ((psi + M * math.pi) / sq - x + lam * y) / omx2
    sq = math.sqrt(-omx2)
    psi = math.asinh((y - x * lam) * sq)
    return (psi / sq - x + lam * y) / omx2


def setup(mu, r1, r2, tof, prograde):
    g = geometry(r1, r2, prograde)
    if g is None:
        raise ValueError("collinear")
    th, n = g
    d1 = float(np.linalg.norm(r1))
    d2 = float(np.linalg.norm(r2))
    c = math.sqrt((d1 - d2) ** 2 + 4 * d1 * d2 * math.sin(th / 2) ** 2)
    s = 0.5 * (d1 + d2 + c)
    lam = math.sqrt(d1 * d2) * math.cos(0.5 * th) / s
    T = math.sqrt(2.0 * mu / s**3) * tof
    return th, n, d1, d2, c, s, lam, T


def _velocities(mu, r1, r2, x, w, th, n, d1, d2, c, s, lam):
    omx2 = w * (2.0 - w)
    y = math.sqrt(max(1.0 - lam * lam * omx2, 0.0))
    gamma = math.sqrt(mu * s / 2.0)
    rho = (d1 - d2) / c
    sigma = 2.0 * math.sqrt(d1 * d2) * abs(math.sin(th / 2)) / c
    vr1 = gamma * ((lam * y - x) - rho * (lam * y + x)) / d1
    vr2 = -gamma * ((lam * y - x) + rho * (lam * y + x)) / d2
    # y + lam*x without cancellation where they oppose: (y+lx)(y-lx) = 1-l^2
    ylx = y + lam * x
    if lam * x < 0:
        ylx = (1.0 - lam * lam) / (y - lam * x)
    vt1 = gamma * sigma * ylx / d1
    vt2 = gamma * sigma * ylx / d2
    u1 = np.asarray(r1, float) / d1
    u2 = np.asarray(r2, float) / d2
    t1 = np.cross(n, u1)
    t2 = np.cross(n, u2)
    return vr1 * u1 + vt1 * t1, vr2 * u2 + vt2 * t2


def t_parabolic(mu, r1, r2, prograde):
    th, n, d1, d2, c, s, lam, _ = setup(mu, r1, r2, 1.0, prograde)
    return (2.0 / 3.0) * (1.0 - lam**3) / math.sqrt(2.0 * mu / s**3)


def t_min(mu, r1, r2, M, prograde):
    """Smallest time of flight that admits M revolutions, with the x at which it occurs."""
    th, n, d1, d2, c, s, lam, _ = setup(mu, r1, r2, 1.0, prograde)
    x, t = _tmin_x(lam, M)
    return t / math.sqrt(2.0 * mu / s**3), x


def _dT(x, lam, M):
    """dT/dx for |x| < 1."""
    omx2 = 1.0 - x * x
    y = math.sqrt(1.0 - lam * lam * omx2)
    T = _T(x, 1.0 + x, lam, M)
    return (3.0 * T * x - 2.0 + 2.0 * lam**3 * x / y) / omx2


def _tmin_x(lam, M):
    # dT -> -inf at x -> -1 and +inf at x -> 1 when M >= 1
    lo, hi = -1 + 1e-9, 1 - 1e-9
    x = brentq(lambda z: _dT(z, lam, M), lo, hi, xtol=1e-15, maxiter=300)
    return x, _T(x, 1.0 + x, lam, M)


def solve(mu, r1, r2, tof, M=0, prograde=True, low=True):
    """Reference Lambert solution (v1, v2, info); raises Infeasible."""
    th, n, d1, d2, c, s, lam, T = setup(mu, r1, r2, tof, prograde)
    g = lambda u: _T(math.exp(u) - 1.0, math.exp(u), lam, M)
    if M == 0:
        if _T(0.0, 1.0, lam, 0) > T:
            # 0 < x
            lo, hi = 0.0, math.log(2.0)
            while g(hi) > T:
                lo, hi = hi, hi + 1.0
                if hi > 60:
                    raise ArithmeticError("tof too short for the oracle")
        else:
            lo, hi = -1.0, 0.0
            while g(lo) < T:
                lo, hi = lo - 2.0, lo
        u = brentq(lambda z: g(z) / T - 1.0, lo, hi, xtol=1e-300, rtol=9e-16, maxiter=500)
        w = math.exp(u)
        info = {}
    else:
        xm, tm = _tmin_x(lam, M)
        info = {"t_ratio": T / tm, "x_min": xm}
        if T < tm:
            raise Infeasible(T / tm)
        if low:
            # x in (xm, 1): parametrised by 1 - x
            h = lambda q: _T(1.0 - math.exp(q), 2.0 - math.exp(q), lam, M) / T - 1.0
            hi = math.log(1.0 - xm)
            lo = hi - 1.0
            while h(lo) < 0:
                lo -= 2.0
            q = hi if h(hi) >= 0 else brentq(h, lo, hi, xtol=1e-300, rtol=9e-16, maxiter=500)
            w = 2.0 - math.exp(q)
        else:
            hi = math.log(1.0 + xm)
            lo = hi - 1.0
            while g(lo) < T:
                lo -= 2.0
            k = lambda z: g(z) / T - 1.0
            u = hi if k(hi) >= 0 else brentq(k, lo, hi, xtol=1e-300, rtol=9e-16, maxiter=500)
            w = math.exp(u)
    x = w - 1.0
    v1, v2 = _velocities(mu, r1, r2, x, w, th, n, d1, d2, c, s, lam)
    info.update(
        theta=th, lam=lam, T=T, x=x, T_par=(2.0 / 3.0) * (1.0 - lam**3), normal=n
    )
    info["w"] = w
    return v1, v2, info
