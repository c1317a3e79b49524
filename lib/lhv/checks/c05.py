"""C05: every well-posed transfer is answered; refusals only where known and rarely."""

from collections import Counter

from .common import *
from .. import bvp

MS = (1, 2, 3, 5, 10)


def check(rep):
    rep.rule = ("well-posed transfers of all kinds (direct, and multi-revolution with times above the minimum; corners next to 0, 180 and 360 deg with almost equal radii), both "
                "modes, default tolerances; non-trivial: the call's outcome (answer, exception, hang) was observed; "
                "an answer has to be two finite vectors; up to 1000 revolutions (negrete2024: 10)")
    U = tuple(gen.UNITS)
    sd = run.seed()
    b0 = gen.stream(sd, "C05", gen.KINDS0, n_(280, 3500), U)
    bm = gen.stream(sd, "C05m", gen.KINDSM, n_(280, 3500), U, MS)
    # the arcs Gauss' method was made for
    gs = [c for c in gen.stream(sd, "C05g", ("short", "kepler", "generic", "nearpar"), n_(400, 3000), U)]
    sel = lambda s, b: b if s != "pan2016" else b[::4]
    jobs = {s: sel(s, b0) + (bm if s in run.MULTI else []) + (gs if s == "gauss1809" else []) for s in run.SOLVERS}
    # next to 0, 180 and 360 degrees with equal or almost equal radii; edges next to 180 only, which all but Gauss' method answer
    for s in run.SOLVERS:
        cn = gen.corner(sd, "C05c", n_(420, 4200), U)
        if s != "gauss1809":
            cn += [c for c in gen.corner(sd, "C05e", n_(140, 1400), U, edge=True) if c["kind"] == "near180"]
        jobs[s] = jobs[s] + (cn if s != "pan2016" else cn[::7])
        if s in run.MULTI:
            jobs[s] += gen.corner(sd, "C05cm", n_(210, 2100), U, (1, 2, 5))
            if s != "negrete2024":  # its quadrature misses ever more roots
                jobs[s] += gen.stream(sd, "C05b", gen.KINDSM, n_(140, 1400), U, (20, 50, 100, 300, 1000))
    recs = run.observe(jobs, "py")
    j0 = gen.stream(sd, "C05j", gen.KINDS0, n_(140, 1400), U)
    jm = gen.stream(sd, "C05jm", gen.KINDSM, n_(140, 1400), U, MS)
    sel = lambda s, b: b if s != "pan2016" else b[::10]
    recs += run.observe({s: sel(s, j0) + (jm if s in run.MULTI else []) for s in run.SOLVERS}, "jit")
    feats = run.pmap(_work, recs)
    total, kf = Counter(), {}
    for (s, mode, c, e), (bad, id_) in zip(recs, feats):
        rep.count("events_" + mode)
        rep.count("outcome_" + e["k"])
        if e["k"] == "skipped":
            continue
        total[s, bool(c["M"]), c["kind"]] += 1
        rep.seen((s, mode, c["kind"], c["units"], c["M"], c["tof"]),
                 {"solver": s, "mode": mode, "kind": c["kind"], "outcome": e["k"], "msg": e.get("msg")}
                 if rep.evaluations % 5003 == 0 else None)
        if e["k"] == "ok":
            rep.count("answered_" + s)
        if id_:
            rep.finding(id_)
            kf.setdefault((s, bool(c["M"]), c["kind"], bvp.msgkey(e)), []).append((mode, c, e))
        elif bad:
            rep.violate("%s %s: %s for a well-posed problem: %s" % (s, mode, bad, bvp.describe(c)),
                        bvp.replay_of(s, mode, c, e, {}))
    for (s, m, kind, key), evs in kf.items():
        n = total[s, m, kind]
        cap = bvp.rate_cap(s, m, kind, n, key)
        if len(evs) > cap * n:
            mode, c, e = evs[0]
            rep.violate("%s: %d of %d well-posed %s transfers refused with %r, more than the %.3g known" % (
                s, len(evs), n, kind, key, cap), bvp.replay_of(s, mode, c, e, {"share": len(evs) / n, "cap": cap}))
    rep.need("evaluations", n_(25000, 250000))
    rep.assumptions += ["well-posed: transfer angle 0.3 deg or more away from 0 (and 360) and 6e-4 deg from 180, radius ratio up to 316, times "
                        "1e-2..1e3 of the parabolic time, multi-revolution times at least 1e-8 above the minimum"]


def _work(rec):
    s, mode, c, e = rec
    if e["k"] == "ok":
        bad = e.get("malformed")
        for v in ("v1", "v2"):
            if len(e.get(v, ())) != 3 or not all(math.isfinite(z) for z in e[v]):
                bad = "answered %s=%r" % (v, e.get(v))
        return bad, None
    if e["k"] == "exc":
        from .. import judge
        id_ = bvp.allowed(s, mode, c, e, judge.features(c))
        return "raised %s: %s" % (e["et"], e["msg"]), id_
    return "no outcome (%s)" % e["k"], None


def replay(r):
    for s, m, c, e in run.observe({r["solver"]: [r["case"]]}, r["mode"]):
        bad, id_ = _work((s, m, c, e))
        print(s, m, e, bad, id_)
        return int(bool(bad) and not id_)
