"""C09: collinear position vectors never get a silently wrong answer."""

from .common import *
from .. import bvp, oracle


def _collinear(rng, sgn, units):
    """r2 = sgn * k * r1 exactly: every product is exact, whatever the evaluation order."""
    mu, L = gen.UNITS[units]
    how = int(rng.integers(3))
    if how == 0:  # along an axis
        r1 = np.zeros(3)
        r1[rng.integers(3)] = rng.choice([-1.0, 1.0]) * L * float(rng.uniform(0.5, 2))
        k = float(rng.choice([rng.uniform(0.1, 10), 2.0, 0.5, 3.0]))
    elif how == 1:  # small integers
        while True:
            r1 = rng.integers(-9, 10, size=3).astype(float)
            if r1.any():
                break
        r1 *= 2.0 ** round(math.log2(L))
        k = float(rng.choice([2.0, 0.5, 3.0, 5.0, 1.5]))
    else:  # any direction, exact factor
        r1 = gen.rdir(rng) * L
        k = float(2.0 ** rng.integers(-6, 7))
    if sgn < 0 and rng.random() < 0.3:
        k = 1.0
    if k == 1.0 and sgn > 0:
        k = 2.0
    r2 = sgn * k * r1
    T = math.sqrt(float(np.linalg.norm(r1)) ** 3 / mu)
    return dict(mu=mu, r1=[float(z) for z in r1], r2=[float(z) for z in r2], tof=float(T * 10 ** rng.uniform(-1.5, 2)),
                M=0, pro=bool(rng.integers(2)), low=bool(rng.integers(2)), kw={}, kind="same" if sgn > 0 else "opposite", units=units, f={})


def _work(rec):
    s, mode, c, e = rec
    if e["k"] != "ok":
        return None
    v1, v2 = np.array(e.get("v1", ())), np.array(e.get("v2", ()))
    if v1.shape != (3,) or v2.shape != (3,) or not (np.isfinite(v1).all() and np.isfinite(v2).all()):
        return "answered v1=%r v2=%r" % (e.get("v1"), e.get("v2"))
    try:
        r, v = oracle.propagate(c["mu"], np.array(c["r1"]), v1, c["tof"])
    except (ArithmeticError, ValueError) as ex:
        if isinstance(ex, OverflowError):  # nearly a straight line at constant speed
            d = (np.array(c["r2"]) - c["r1"]) / c["tof"]
            gap = max(float(np.linalg.norm(w - d) / np.linalg.norm(d)) for w in (v1, v2))
            return None if gap < 0.2 else "answered a velocity off the straight line by %.3g" % gap
        return "answered an orbit that cannot be coasted: %s" % ex
    miss = float(np.linalg.norm(r - c["r2"]) / np.linalg.norm(c["r2"]))
    vm = float(np.linalg.norm(v - v2) / np.linalg.norm(v2))
    # rectilinear orbits that turn near the centre amplify without bound
    if not max(miss, vm) < (1e-2 if c["kind"] == "same" else 1e-5):
        return "answered an orbit that misses the target by %.3g (velocity %.3g)" % (miss, vm)
    h = np.cross(c["r1"], v1)
    if c["kind"] == "opposite" and abs(h[2]) > 1e-6 * np.linalg.norm(h) and (h[2] > 0) != c["pro"]:
        return "answered a motion in the wrong sense"
    return None


def check(rep):
    rep.rule = ("exactly parallel and antiparallel position vectors (axes, small integers, exact power-of-two multiples; all unit systems, "
                "M = 0 and, for multi-revolution solvers, M = 1, 2; both modes); an exception is fine, an answer has to satisfy the boundary conditions")
    rng = gen.rng_for(run.seed(), "C09")
    U = tuple(gen.UNITS)
    for mode in ("py", "jit"):
        base = [_collinear(rng, s, U[i % len(U)]) for i in range(n_(110, 1500) if mode == "py" else n_(50, 500)) for s in (1.0, -1.0)]
        jobs = {s: base + ([dict(c, M=1 + i % 2, tof=c["tof"] * 20) for i, c in enumerate(base[::2])] if s in run.MULTI else []) for s in run.SOLVERS}
        recs = run.observe(jobs, mode)
        for (s, m, c, e), bad in zip(recs, run.pmap(_work, recs)):
            rep.count("events_" + m)
            rep.count("%s_%s" % (c["kind"], "answered" if e["k"] == "ok" else e.get("et", e["k"])))
            if e["k"] in ("hang", "alarm", "crash"):
                bad = "no outcome (%s)" % e["k"]
            rep.seen((s, m, c["kind"], c["tof"], c["pro"], c["M"]),
                     {"solver": s, "kind": c["kind"], "outcome": e.get("et", e["k"]), "message": e.get("msg")} if rep.evaluations % 997 == 0 else None)
            if bad:
                rep.violate("%s %s: collinear position vectors: %s: %s" % (s, m, bad, bvp.describe(c)),
                            {"solver": s, "mode": m, "case": c, "event": e})
    rep.need("evaluations", n_(5000, 50000))


def replay(r):
    for rec in run.observe({r["solver"]: [r["case"]]}, r["mode"]):
        print(rec, _work(rec))
        return int(bool(_work(rec)))
