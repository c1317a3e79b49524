"""C06: more revolutions than fit in the time of flight are refused, never answered;
revolutions that fit are not called infeasible."""

from .common import *
from .. import bvp, judge, oracle

U = tuple(gen.UNITS)


def _mk(args):
    sd, kind, i, below = args
    rng = gen.rng_for(sd, "C06", kind, i, below)
    M = int(rng.choice([1, 1, 2, 3, 5, 10, 20]))
    c = gen.case(sd, ("C06", i, below), kind, U[i % len(U)], M)
    t = float(oracle.t_min(c["mu"], c["r1"], c["r2"], M, c["pro"])[0])
    k = 10 ** rng.uniform(-4.0 if below else -6.0, -0.05)
    c["tof"] = t * (1.0 - k) if below else t * (1.0 + k)
    c["kind"] = kind
    c["f"] = {"rel": -k if below else k}
    if below and i % 6 == 0:
        # far from feasible: many revolutions asked for a direct-transfer time
        c["M"] = int(rng.choice([2, 7, 50, 1000])) * M
    return c


def check(rep):
    rep.rule = ("times of flight 1e-4..0.9 below the minimum of M revolutions (must be refused) and above it (1e-6.., must not be "
                "called infeasible), all kinds, units, M up to 20 (and up to 20000 far below), both modes; non-trivial: "
                "the outcome of the call was observed")
    sd = run.seed()
    kinds = tuple(k for k in gen.KINDSM if k not in ("kepler", "tmin", "long"))
    for mode, n in (("py", n_(140, 1400)), ("jit", n_(70, 700))):
        cases = run.pmap(_mk, [(sd + (mode == "jit"), k, i, b) for k in kinds for i in range(n) for b in (True, False)])
        recs = run.observe({s: cases for s in run.MULTI}, mode)
        false_inf = {}
        for s, m, c, e in recs:
            rep.count("events_" + m)
            below = c["f"]["rel"] < 0
            rep.count(("infeasible_" if below else "feasible_") + e["k"])
            if e["k"] == "skipped":
                continue
            rep.seen((s, m, c["kind"], c["units"], c["M"], c["tof"]),
                     {"solver": s, "M": c["M"], "relative_to_minimum_time": c["f"]["rel"], "outcome": e["k"], "msg": e.get("msg")}
                     if rep.evaluations % 2003 == 0 else None)
            why = None
            if below:
                if e["k"] == "ok":
                    why = "answered although the time of flight is %.3g below the minimum of %d revolutions" % (-c["f"]["rel"], c["M"])
                elif e["k"] == "exc":
                    rep.count("refused_" + e["et"])
                    if not ("ValueError" in e["mro"] or "RuntimeError" in e["mro"]):
                        why = "fails with %s: %s instead of refusing" % (e["et"], e["msg"])
                elif e["k"] in ("alarm", "hang", "crash"):
                    why = "does not return (%s) for an infeasible problem" % e["k"]
            elif e["k"] == "exc" and ("feasible" in e["msg"].lower() or "lower M" in e["msg"]):
                false_inf.setdefault((s, m), []).append((c, e))
            if why:
                rep.violate("%s %s: %s: %s" % (s, m, why, bvp.describe(c)), bvp.replay_of(s, m, c, e, {"why": why}))
        for (s, m), evs in false_inf.items():
            for c, e in evs:
                kf = bvp.allowed(s, m, c, e, judge.features(c))
                if kf:
                    rep.finding(kf)
                else:
                    rep.violate("%s %s: called infeasible although the time of flight is %.3g above the minimum of %d revolutions: %s" % (
                        s, m, c["f"]["rel"], c["M"], bvp.describe(c)), bvp.replay_of(s, m, c, e, {}))
    rep.need("evaluations", n_(15000, 150000))
    rep.need("infeasible_exc", n_(5000, 50000))
    rep.assumptions += ["the minimum time of M revolutions is computed by the reference; within 1e-4 below and 1e-6 above it nothing is claimed"]


def replay(r):
    c = r["case"]
    for s, m, c, e in run.observe({r["solver"]: [c]}, r["mode"]):
        print(s, m, c, e)
        below = c["f"]["rel"] < 0
        return int((below and e["k"] != "exc") or (not below and e["k"] != "ok"))
