"""Workload generators for the Lambert problem.

A case is a plain dict:
  mu, r1, r2 (lists of 3 floats), tof, M, pro, low, kw (extra keyword arguments),
  kind, units, f (feature dict filled by the generator: what it aimed at).
Everything is drawn from numpy Generators seeded by (seed, label, index) so that a
case can be regenerated alone.
"""

import hashlib
import math

import numpy as np

from . import oracle

D2R = math.pi / 180.0

UNITS = {
    "canon": (1.0, 1.0),
    "earthkm": (398600.4418, 7000.0),
    "sunkm": (1.32712440018e11, 1.5e8),
    "auyr": (4.0 * math.pi**2, 1.0),
    "SI": (3.986004418e14, 7.0e6),
    "tiny": (1.0, 1.0e-6),
    "fast": (1.0e20, 1.0),
}

KINDS0 = (
    "generic", "special", "short", "near180", "nearpar", "exactpar",
    "hyper", "long", "ratio", "circ", "equat", "polar", "kepler",
)
KINDSM = (
    "generic", "special", "short", "near180", "tmin", "long", "ratio", "circ",
    "equat", "polar", "kepler",
)


def rng_for(seed, *label):
    h = hashlib.sha256(repr((int(seed),) + label).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def rdir(rng):
    v = rng.normal(size=3)
    return v / np.linalg.norm(v)


def pair(rng, th):
    """Two unit vectors th apart in a random plane."""
    u, w = rdir(rng), rdir(rng)
    n = np.cross(u, w)
    n /= np.linalg.norm(n)
    return u, np.cos(th) * u + np.sin(th) * np.cross(n, u)


def exactly_polar(u1, u2):
    z = lambda a: a == 0.0
    return bool((z(u1[0]) and z(u2[0])) or (z(u1[1]) and z(u2[1]))
                or (z(u1[0]) and z(u1[1])) or (z(u2[0]) and z(u2[1])))


_AX = np.eye(3)
_SPEC_TH = (30.0, 45.0, 60.0, 75.0, 90.0, 105.0, 120.0, 135.0, 150.0)


def _special_pair(rng):
    """Geometries that sit exactly on branch conditions: axis-aligned vectors,
    right angles, components exactly zero, equal norms."""
    k = int(rng.integers(6))
    s = lambda: float(rng.choice([-1.0, 1.0]))
    if k == 0:  # two different axes: exactly 90 degrees
        i, j = rng.permutation(3)[:2]
        return s() * _AX[i], s() * _AX[j]
    if k == 1:  # axis and coordinate plane
        i, j = rng.permutation(3)[:2]
        th = rng.choice(_SPEC_TH) * D2R
        return s() * _AX[i], math.cos(th) * _AX[i] + s() * math.sin(th) * _AX[j]
    if k == 2:  # small integers
        while True:
            a, b = rng.integers(-3, 4, size=3), rng.integers(-3, 4, size=3)
            c = np.cross(a, b)
            if a.any() and b.any() and c.any():
                a, b = a.astype(float), b.astype(float)
                return a / np.linalg.norm(a), b / np.linalg.norm(b)
    if k == 3:  # exact right angle in a random plane
        a = rdir(rng)
        b = np.cross(a, rdir(rng))
        return a, b / np.linalg.norm(b)
    if k == 4:  # equatorial, tabulated angles
        a = rng.choice([0.0, 30.0, 90.0, 180.0, 225.0, 270.0]) * D2R
        th = s() * rng.choice(_SPEC_TH) * D2R
        return (np.array([math.cos(a), math.sin(a), 0.0]),
                np.array([math.cos(a + th), math.sin(a + th), 0.0]))
    th = rng.choice(_SPEC_TH) * D2R
    return pair(rng, th)


def case(seed, label, kind, units="canon", M=0, pro=None, low=None, kw=None):
    rng = rng_for(seed, label, kind, units, M)
    mu, L = UNITS[units]
    th = rng.uniform(5.0, 175.0) * D2R
    ratio = 10 ** rng.uniform(-0.7, 0.7)
    f = 10 ** rng.uniform(-0.5, 0.8)
    k = 1.0 + 10 ** rng.uniform(-3.0, 1.5)
    p_, l_ = bool(rng.integers(2)), bool(rng.integers(2))
    pro = p_ if pro is None else pro
    low = l_ if low is None else low
    if kind == "short":
        th = 10 ** rng.uniform(-0.5, 1.0) * D2R
    elif kind == "near180":
        th = math.pi - 10 ** rng.uniform(-1.0, 0.7) * D2R
    elif kind == "nearpar":
        f = 1.0 + rng.choice([-1.0, 1.0]) * 10 ** rng.uniform(-8.0, -1.5)
    elif kind == "exactpar":
        f = 1.0
    elif kind == "hyper":
        f = 10 ** rng.uniform(-2.0, -0.5)
    elif kind == "long":
        f = 10 ** rng.uniform(0.8, 3.0)
        k = 10 ** rng.uniform(1.0, 3.0)
    elif kind == "ratio":
        ratio = 10 ** (rng.choice([-1.0, 1.0]) * rng.uniform(0.7, 2.5))
    elif kind == "circ":
        ratio = 1.0
    elif kind == "tmin":
        k = 1.0 + 10 ** rng.uniform(-8.0, -3.0)
    u1, u2 = pair(rng, th)
    if kind == "special":
        while True:
            u1, u2 = _special_pair(rng)
            # a plane that is polar only up to rounding has no defined sense: either
            # exactly polar (whatever the evaluation order) or clearly not
            if abs(np.cross(u1, u2)[2]) > 1e-9 or exactly_polar(u1, u2):
                break
        ratio = float(rng.choice([0.5, 1.0, 1.0, 2.0, 4.0, 1.0 / 3.0, 1.0 + 1e-9]))
        f = float(rng.choice([0.5, 0.75, 0.999, 1.001, 1.5, 2.0, 4.0]))
        k = float(rng.choice([1.05, 1.5, 2.0, 4.0]))
    elif kind == "equat":
        a, s = rng.uniform(0, 2 * math.pi), rng.choice([-1.0, 1.0])
        u1 = np.array([math.cos(a), math.sin(a), 0.0])
        u2 = np.array([math.cos(a + s * th), math.sin(a + s * th), 0.0])
        if rng.integers(2):  # or almost so: tilted a little about a random line of nodes
            b, t = rng.uniform(0, 2 * math.pi), 10 ** rng.uniform(-7.0, -1.5)
            x = np.array([math.cos(b), math.sin(b), 0.0])
            u1, u2 = (u * math.cos(t) + np.cross(x, u) * math.sin(t) + x * ((x @ u) * (1 - math.cos(t))) for u in (u1, u2))
    elif kind == "polar":  # a coordinate plane that contains the Z axis
        a, s = rng.uniform(0, 2 * math.pi), rng.choice([-1.0, 1.0])
        c1, c2 = (math.cos(a), math.sin(a)), (math.cos(a + s * th), math.sin(a + s * th))
        if rng.integers(2):
            u1, u2 = np.array([c1[0], 0.0, c1[1]]), np.array([c2[0], 0.0, c2[1]])
        else:
            u1, u2 = np.array([0.0, c1[0], c1[1]]), np.array([0.0, c2[0], c2[1]])
    r1, r2 = u1 * L, u2 * (L * ratio)
    feat = {}
    if kind == "kepler":
        # start from an orbit, not from a geometry: the true solution is known by
        # construction (and by a different route than the reference solver)
        r1, r2, tof, pro, feat = _from_orbit(rng, mu, L, M)
    elif M == 0:
        tof = oracle.t_parabolic(mu, r1, r2, pro) * f
    else:
        tof = oracle.t_min(mu, r1, r2, M, pro)[0] * k
    return dict(
        mu=mu, r1=[float(z) for z in r1], r2=[float(z) for z in r2], tof=float(tof),
        M=int(M), pro=pro, low=low, kw=dict(kw or {}), kind=kind, units=units, f=feat,
    )


def _from_orbit(rng, mu, L, M):
    while True:
        q = L * 10 ** rng.uniform(-0.3, 0.3)
        e = float(rng.choice([rng.uniform(0.0, 0.05), rng.uniform(0.05, 0.9)]))
        if M == 0 and rng.random() < 0.25:
            e = rng.uniform(1.05, 3.0)
        p = q * (1 + e)
        nu1 = rng.uniform(-math.pi, math.pi)
        dnu = rng.uniform(8.0, 352.0) * D2R
        if abs(dnu - math.pi) < 5 * D2R:
            continue
        if e > 1:
            lim = math.acos(-1.0 / e) - 0.2
            nu1 = rng.uniform(-lim, lim - 0.15)
            dnu = rng.uniform(0.12, lim - nu1)
        nu2 = nu1 + dnu
        n = rdir(rng)
        if abs(n[2]) < 1e-3:
            continue
        a = rdir(rng)
        P = np.cross(n, a)
        P /= np.linalg.norm(P)
        Q = np.cross(n, P)
        rr = []
        for nu in (nu1, nu2):
            r = p / (1 + e * math.cos(nu))
            rr.append(r * (math.cos(nu) * P + math.sin(nu) * Q))
        a_ = p / (1 - e * e)
        if e < 1:
            def mean(nu):
                E = 2 * math.atan(math.sqrt((1 - e) / (1 + e)) * math.tan(0.5 * nu))
                E += 2 * math.pi * math.floor((nu + math.pi) / (2 * math.pi))
                return E - e * math.sin(E)
            tof = (mean(nu2) - mean(nu1) + 2 * math.pi * M) * math.sqrt(a_**3 / mu)
        else:
            def mean(nu):
                H = 2 * math.atanh(math.sqrt((e - 1) / (e + 1)) * math.tan(0.5 * nu))
                return e * math.sinh(H) - H
            tof = (mean(nu2) - mean(nu1)) * math.sqrt((-a_) ** 3 / mu)
        if not tof > 0:
            continue
        vv = math.sqrt(mu / p) * np.array([-math.sin(nu1), e + math.cos(nu1)])
        v1 = vv[0] * P + vv[1] * Q
        return rr[0], rr[1], tof, bool(n[2] > 0), {"v1": [float(z) for z in v1], "e": e}


def stream(seed, label, kinds, n, units=("canon",), Ms=(0,), kw=None, **fix):
    """n cases per kind; units and M rotate through the given tuples."""
    out = []
    for kind in kinds:
        for i in range(n):
            u = units[i % len(units)]
            M = Ms[(i // len(units)) % len(Ms)]
            out.append(case(seed, (label, i), kind, u, M, kw=kw, **fix))
    return out


def pargrid(seed, label, n, units=("SI",)):
    """Transfers whose parabola (or nearly so) has its periapsis at a round angle from the first position: at a multiple of
    half a degree, give or take the square root of the precision, the places where a sampled argument of periapsis falls."""
    out, i = [], 0
    while len(out) < n:
        i += 1
        rng = rng_for(seed, label, i)
        mu, L = UNITS[units[len(out) % len(units)]]
        eps = math.sqrt(np.finfo(float).eps)
        f1 = float(np.linspace(-math.pi + eps, math.pi - eps, 721)[int(rng.integers(40, 681))]) * float(rng.choice([1.0, 1.0, 1.0 + eps]))
        th = rng.uniform(8.0, 352.0) * D2R
        if abs(th - math.pi) < 5 * D2R or f1 + th > 2.9:
            continue
        n3 = rdir(rng)
        if abs(n3[2]) < 1e-3:
            continue
        r = [2 * L / (1 + math.cos(f)) for f in (f1, f1 + th)]
        if max(r) > 60 * min(r):
            continue
        P = np.cross(n3, rdir(rng)) if rng.integers(2) else np.cross(n3, [0.0, 0.0, 1.0])
        P /= np.linalg.norm(P)
        r1 = r[0] * P
        r2 = r[1] * (math.cos(th) * P + math.sin(th) * np.cross(n3, P))
        D = lambda f: math.tan(f / 2) + math.tan(f / 2) ** 3 / 3
        tof = 0.5 * math.sqrt((2 * L) ** 3 / mu) * (D(f1 + th) - D(f1))
        tof *= float(rng.choice([1.0, math.sqrt(2.0), 1 / math.sqrt(2.0)], p=[0.4, 0.5, 0.1])) * (1 + float(rng.choice([0.0, 1e-10, -1e-10, 1e-12, 1e-8])))
        out.append(dict(mu=mu, r1=[float(z) for z in r1], r2=[float(z) for z in r2], tof=float(tof), M=0, pro=bool(n3[2] > 0),
                        low=True, kw={}, kind="nearpar", units=units[len(out) % len(units)], f={}))
    return out


def corner(seed, label, n, units=("canon",), Ms=(0,), edge=False, kw=None):
    """Extremes of the geometry together: next to 0, 180 or 360 degrees and radii equal or almost so (half of the time), times
    of flight from well below to far above the parabolic (or minimum) one.  edge: even closer to collinear, 1e-5..5e-3 rad."""
    out = []
    for i in range(n):
        u, M = units[i % len(units)], Ms[(i // len(units)) % len(Ms)]
        rng = rng_for(seed, label, u, M, i)
        mu, L = UNITS[u]
        off = 10 ** (rng.uniform(-5, -2.3) if edge else rng.uniform(-2.27, -0.5))
        th = (off, 2 * math.pi - off, math.pi - off, math.pi + off)[i % 4]
        ratio = float(rng.choice([1.0, 1.0 + 10 ** rng.uniform(-10, -1), 1.0 - 10 ** rng.uniform(-10, -1), 10 ** rng.uniform(-0.5, 0.5)],
                                 p=[0.3, 0.3, 0.15, 0.25]))
        u1, u2 = pair(rng, min(th, 2 * math.pi - th))
        n2 = np.cross(u1, u2)[2]
        pro = (n2 > 0) == (th < math.pi)
        r1, r2 = u1 * L, u2 * (L * ratio)
        if M:
            tof = oracle.t_min(mu, r1, r2, M, pro)[0] * (1 + 10 ** rng.uniform(-3, 1.5))
        else:
            tof = oracle.t_parabolic(mu, r1, r2, pro) * float(rng.choice([rng.uniform(0.3, 1.0), rng.uniform(1.0, 2.5), 10 ** rng.uniform(0.3, 2.3)]))
        out.append(dict(mu=mu, r1=[float(z) for z in r1], r2=[float(z) for z in r2], tof=float(tof), M=int(M), pro=bool(pro), low=bool(rng.integers(2)),
                        kw=dict(kw or {}), kind="short" if i % 4 < 2 else "near180", units=u, f={"edge": off} if edge else {"corner": off}))
    return out
