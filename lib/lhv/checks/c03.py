"""C03: the sense flag decides the direction of motion about +Z, for every plane."""

import numpy as np

from .common import *
from .. import bvp, judge, oracle

MS = (0, 0, 1, 2)


def _cases(sd, n, m):
    U = tuple(gen.UNITS)
    out = []
    for k in ("equat", "polar", "special", "generic", "short", "near180", "nearz"):
        for i in range(n):
            u = U[i % len(U)]
            if k == "nearz":
                # planes that nearly contain the Z axis, tilted to either side of it
                c = gen.case(sd, ("C03", i), "generic", u)
                g = gen.rng_for(sd, "C03z", i)
                eps = float(g.choice([-1.0, 1.0])) * 10 ** g.uniform(-10, -2)
                az = float(g.choice([0.0, 0.5, 1.0, 1.5])) * math.pi if i % 3 == 0 else g.uniform(0, 2 * math.pi)
                d, nn, z = np.array([math.cos(az), math.sin(az), 0.0]), np.array([-math.sin(az), math.cos(az), 0.0]), np.array([0, 0, 1.0])
                q = math.cos(eps) * z - math.sin(eps) * nn
                a, th = g.uniform(0, 2 * math.pi), float(g.choice([-1.0, 1.0])) * g.uniform(0.1, 3.0)
                for r, t in (("r1", a), ("r2", a + th)):
                    c[r] = [float(w) for w in np.linalg.norm(c[r]) * (math.cos(t) * d + math.sin(t) * q)]
                c["kind"] = "nearz"
                if abs(np.cross(c["r1"], c["r2"])[2]) < 1e-12 * np.linalg.norm(c["r1"]) * np.linalg.norm(c["r2"]):
                    continue
                c["tof"] = float(oracle.t_parabolic(c["mu"], c["r1"], c["r2"], c["pro"]) * (1.3 if i % 2 else 0.8))
            else:
                c = gen.case(sd, ("C03", i), k, u, m)
            for pro in (True, False):
                d = dict(c, pro=pro)
                if m:
                    d["tof"] = float(oracle.t_min(d["mu"], d["r1"], d["r2"], m, pro)[0] * 1.7)
                out.append(d)
    return out


def _rounded(sd, n):
    """Planes that contain the Z axis up to rounding only: which way is prograde is not defined, but one way is."""
    U = tuple(gen.UNITS)
    out = []
    for i in range(n):
        c = gen.case(sd, ("C03r", i), "polar", U[i % len(U)])
        g = gen.rng_for(sd, "C03r", i)
        az = float(g.choice([0.25, 0.75, 1.0 / 6, 1.0 / 3, 0.5])) * math.pi if i % 2 else g.uniform(0, 2 * math.pi)
        a, th = g.uniform(0, 2 * math.pi), float(g.choice([-1.0, 1.0])) * g.uniform(0.2, 2.9)
        if i % 4 == 1:
            a = float(g.integers(0, 4)) * math.pi / 2
        for r, t in (("r1", a), ("r2", a + th)):
            c[r] = [float(np.linalg.norm(c[r]) * w) for w in (math.cos(t) * math.cos(az), math.cos(t) * math.sin(az), math.sin(t))]
        c["kind"] = "polar"
        for pro in (True, False):
            t = max(oracle.t_parabolic(c["mu"], c["r1"], c["r2"], p) for p in (True, False))
            out.append(dict(c, pro=pro, tof=float(t * (1.2, 2.0, 4.0)[i % 3])))
    return out


def _work_rounded(rec):
    s, mode, c, e = rec
    if e["k"] != "ok" or "v1" not in e or len(e["v1"]) != 3 or len(e["v2"]) != 3:
        return None
    es = [(judge.error(dict(c, pro=p), e["v1"], e["v2"])["err"], p) for p in (True, False)]
    err, p = min(es)
    h = np.cross(c["r1"], e["v1"])
    h = (h / np.linalg.norm(h)).tolist()
    why = None
    if not err <= bvp.threshold(s, dict(c, pro=p)):
        why = "no transfer between the positions in either direction, error %.3g" % err
    return why, h


def _work(rec):
    s, mode, c, e = rec
    if e["k"] != "ok" or "v1" not in e or len(e["v1"]) != 3 or len(e["v2"]) != 3:
        return None
    r1, r2, v1, v2 = (np.array(x, float) for x in (c["r1"], c["r2"], e["v1"], e["v2"]))
    r1, r2 = r1 / np.linalg.norm(r1), r2 / np.linalg.norm(r2)
    th, n = oracle.geometry(c["r1"], c["r2"], c["pro"])
    v1, v2 = v1 / np.linalg.norm(v1), v2 / np.linalg.norm(v2)
    h1, h2 = np.cross(r1, v1), np.cross(r2, v2)
    a1, a2 = float(h1 @ n), float(h2 @ n)
    out1 = abs(float(v1 @ n)), abs(float(v2 @ n))
    hz = float(np.cross(r1, r2)[2])
    sinth = abs(math.sin(th))
    why = None
    if not (a1 > 0 and a2 > 0):
        why = "moves against the requested direction (angular momentum along the requested normal %.3g, %.3g)" % (a1, a2)
    elif abs(n[2]) > 1e-7 and (h1[2] > 0) != bool(c["pro"]):
        why = "angular momentum about Z is %.3g" % h1[2]
    elif not max(out1) < 1e-11 / max(sinth, 1e-7) + 1e-9:
        why = "leaves the plane of the positions: out-of-plane velocity %.3g, %.3g" % out1
    return why, (h1 / np.linalg.norm(h1)).tolist()


def check(rep):
    rep.rule = ("pairs of calls that differ in the sense flag only, for equatorial, exactly polar, nearly polar "
                "(tilted by 1e-10..1e-2 rad to either side, or by rounding only), tabulated, short, near-180-degree and generic planes, M = 0..2, both modes; "
                "non-trivial: the call answered and the direction and plane of both velocities were measured")
    sd = run.seed()
    n = n_(105, 1050)
    for mode, nn in (("py", n), ("jit", max(35, n // 3))):
        c0, c1 = _cases(sd, nn, 0), _cases(sd + 7919, nn // 2, 1)
        recs = run.observe({s: ([c for i, c in enumerate(c0) if (i // 2) % 5 == 0] if s == "pan2016" else c0) + (c1 if s in run.MULTI else [])
                            for s in run.SOLVERS}, mode)
        res = run.pmap(_work, recs)
        prev = {}
        for (s, m, c, e), r in zip(recs, res):
            rep.count("events_" + m)
            rep.count("outcome_" + e["k"])
            if r is None:
                continue
            why, h = r
            rep.count("kind_" + c["kind"])
            rep.seen((s, m, c["kind"], c["units"], c["M"], c["pro"], c["tof"]),
                     {"solver": s, "kind": c["kind"], "prograde": c["pro"], "normal": h} if rep.evaluations % 3001 == 0 else None)
            if not why:
                # the two senses of one geometry are opposite normals
                key = (s, m, tuple(c["r1"]), tuple(c["r2"]), c["M"])
                o = prev.pop(key, None)
                if o is None:
                    prev[key] = (c["pro"], h)
                elif o[0] != c["pro"]:
                    rep.count("opposite_pairs")
                    if not np.dot(o[1], h) < -0.9:
                        why = "both senses move in the same direction"
            if why:
                rep.violate("%s %s: %s: %s" % (s, m, why, bvp.describe(c)), bvp.replay_of(s, m, c, e, {"why": why}))
    for mode, nn in (("py", n_(140, 1400)), ("jit", n_(35, 350))):
        cs = _rounded(sd, nn)
        recs = run.observe({s: cs if s != "pan2016" else cs[:: 10] + cs[1 :: 10] for s in run.SOLVERS}, mode)
        prev = {}
        for (s, m, c, e), r in zip(recs, run.pmap(_work_rounded, recs)):
            rep.count("rounded_" + e["k"])
            if r is None:
                continue
            why, h = r
            rep.seen((s, m, "rounded", c["units"], c["pro"], c["tof"]))
            key = (s, m, tuple(c["r1"]), tuple(c["r2"]))
            if not why and key in prev and not np.dot(prev[key], h) < -0.9:
                why = "both senses move in the same direction"
            prev.setdefault(key, h)
            if why:
                rep.violate("%s %s: plane polar up to rounding: %s: %s" % (s, m, why, bvp.describe(c)), bvp.replay_of(s, m, c, e, {"why": why, "rounded": True}))
    rep.need("rounded_ok", n_(2500, 25000))
    rep.need("evaluations", n_(12000, 120000))
    rep.need("kind_nearz", n_(1500, 15000))
    rep.need("opposite_pairs", n_(3000, 30000))
    rep.assumptions += ["where the plane contains the Z axis, the prograde answer is the short way (the convention that "
                        "the geometry utilities define and that all solvers share)"]


def replay(r):
    for rec in run.observe({r["solver"]: [r["case"]]}, r["mode"]):
        out = (_work_rounded if r.get("rounded") else _work)(rec)
        print(rec, out)
        return int(bool(out and out[0]))
