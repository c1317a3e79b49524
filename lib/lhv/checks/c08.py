"""C08: direct-transfer-only solvers refuse multi-revolution requests."""

from .common import *
from .. import bvp

MS = (1, 2, 3, 7, 100)


def check(rep):
    rep.rule = ("feasible and infeasible multi-revolution requests (M = 1..100 and larger, as python and numpy integers) made to the solvers "
                "that only support direct transfers; every one must end in ValueError, never in an answer; the registries name the solvers")
    sd = run.seed()
    U = tuple(gen.UNITS)
    for mode in ("py", "jit"):
        n = n_(20, 200) if mode == "py" else n_(8, 60)
        base = gen.stream(sd, ("C08", mode), gen.KINDSM, n, U, MS)
        base += [dict(c, M=M) for c, M in zip(gen.stream(sd, ("C080", mode), gen.KINDS0, n, U), [1, 2, 5, 10**6, 2**31, 1] * 10**4)]
        base = [dict(c, **({"as": "numpy"} if i % 5 == 1 else {}), kw={"full_output": True} if i % 7 == 3 else {}) for i, c in enumerate(base)]
        for s, m, c, e in run.observe({s: base for s in run.ZERO_ONLY}, mode):
            rep.count("events_" + m)
            rep.count("outcome_" + e["k"])
            rep.seen((s, m, c["kind"], c["M"], c["tof"]),
                     {"solver": s, "M": c["M"], "outcome": e.get("et", e["k"]), "message": e.get("msg")} if rep.evaluations % 997 == 0 else None)
            if e["k"] == "exc" and "ValueError" in e["mro"]:
                continue
            rep.violate("%s %s: a transfer of %d revolutions was requested and %s: %s" % (
                s, m, c["M"], "answered" if e["k"] == "ok" else "ended in %s %s" % (e.get("et", e["k"]), e.get("msg", "")), bvp.describe(c)),
                {"solver": s, "mode": m, "case": c, "event": e})
    rep.need("evaluations", n_(4000, 40000))


def replay(r):
    for s, m, c, e in run.observe({r["solver"]: [r["case"]]}, r["mode"]):
        print(s, m, e)
        return int(not (e["k"] == "exc" and "ValueError" in e["mro"]))
