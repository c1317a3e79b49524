"""C02: multi-revolution transfers solve the boundary-value problem with exactly M
complete revolutions."""

from .common import *
from .. import bvp

TIGHT = dict(atol=1e-11, rtol=1e-11, maxiter=500)
MS = (1, 2, 3, 5, 10)


def check(rep):
    rep.rule = ("11 kinds of multi-revolution transfers (as C01, plus times 1e-8..1e-3 above the minimum, corners next to 0, 180 and 360 deg with almost equal radii) x M in "
                "1,2,3,5,10 (and 20..1000) x both paths x both senses x 7 unit systems; non-trivial when the solver "
                "returned and the orbit was coasted with the reference and its swept angle counted")
    U = tuple(gen.UNITS)
    sd = run.seed()
    base = gen.stream(sd, "C02", gen.KINDSM, n_(420, 4200), U, MS)
    base += gen.stream(sd, "C02t", gen.KINDSM, n_(140, 1400), U, MS, kw=TIGHT)
    base += gen.stream(sd, "C02b", gen.KINDSM, n_(210, 1400), U, (20, 40, 100, 300, 1000))
    bvp.judge_all(rep, run.observe({s: base for s in run.MULTI}, "py"))
    # next to 0, 180 and 360 degrees with equal or almost equal radii
    bvp.judge_all(rep, run.observe({s: bvp.corners(sd, "C02c", n_(420, 4200), U, (1, 2, 5), s, False) + bvp.corners(sd, "C02e", n_(210, 2100), U, (1, 2, 5), s, True)
                                    for s in run.MULTI}, "py"))
    base = gen.stream(sd, "C02j", gen.KINDSM, n_(350, 3500), U, MS)
    bvp.judge_all(rep, run.observe({s: base for s in run.MULTI}, "jit"))
    rep.need("evaluations", n_(25000, 250000))
    rep.assumptions += [
        "an answer counts as right when it is within 30x the largest error seen in calibration (never below 1e-9) of "
        "the reference solution or is itself an orbit meeting the boundary conditions with the swept angle of M "
        "revolutions plus the transfer angle", "calls that raise are judged by C05 and C06"]


from .c01 import replay  # noqa: E402,F401
