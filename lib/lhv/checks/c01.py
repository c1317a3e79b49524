"""C01: direct transfers solve the boundary-value problem."""

from .common import *
from .. import bvp

TIGHT = dict(atol=1e-11, rtol=1e-11, maxiter=500)


def check(rep):
    rep.rule = ("13 kinds of direct transfers (generic, special angles, short, near 180 deg, near/exactly "
                "parabolic (periapsis at round angles as well), hyperbolic, long, radius ratio to 300, circular, equatorial, polar, from constructed "
                "orbits; corners next to 0, 180 and 360 deg, 1e-5..0.3 rad off, with almost equal radii) x 7 unit systems x both senses x all solvers; a case is non-trivial when the solver "
                "returned and the answer was propagated or compared with the reference")
    U = tuple(gen.UNITS)
    sd = run.seed()
    base = gen.stream(sd, "C01", gen.KINDS0, n_(210, 2800), U)
    tight = gen.stream(sd, "C01t", gen.KINDS0, n_(105, 1050), U, kw=TIGHT)
    third = lambda cs: cs[::3] if not big() else cs
    grid = gen.pargrid(sd, "C01g", n_(240, 2400), ("SI", "SI", "earthkm", "canon"))
    recs = run.observe({s: base + tight + grid[::3] if s != "pan2016" else third(base) + third(tight) + grid
                        for s in run.SOLVERS}, "py")
    bvp.judge_all(rep, recs)
    # next to 0, 180 and 360 degrees with equal or almost equal radii
    cn = {s: bvp.corners(sd, "C01c", n_(280, 2800), U, (0,), s, False) + bvp.corners(sd, "C01e", n_(140, 1400), U, (0,), s, True)
          for s in run.SOLVERS}
    cn = {s: c if s != "pan2016" else c[::7] for s, c in cn.items()}
    bvp.judge_all(rep, run.observe(cn, "py"))
    base = gen.stream(sd, "C01j", gen.KINDS0, n_(210, 2100), U)
    recs = run.observe({s: base if s != "pan2016" else base[::10] for s in run.SOLVERS}, "jit")
    bvp.judge_all(rep, recs)
    rep.need("evaluations", n_(15000, 250000))
    rep.assumptions += [
        "an answer counts as right when it is within 30x the largest error seen in calibration (never below 1e-9) of "
        "the reference solution or is itself an orbit meeting the boundary conditions; reference: binary64 "
        "universal-variable propagation and bisection written independently",
        "calls that raise are judged by C05, not here"]



def replay(r):
    from ..run import observe
    recs = observe({r["solver"]: [r["case"]]}, r["mode"])
    for s, m, c, e in recs:
        d = bvp.work((s, m, c, e))
        print(s, m, e, d, "accepted up to", bvp.threshold(s, c))
        return int(e["k"] == "ok" and not d["err"] <= bvp.threshold(s, c))
