"""C14: compiled and interpreted execution agree."""

from .common import *
from .. import pairs

MS = (1, 2, 3, 10)


def check(rep):
    rep.rule = ("the same call made compiled and interpreted, every solver, all kinds of transfers, unit systems and flags; answers have to agree "
                "to the solver's accuracy and one may not refuse what the other answers; non-trivial: at least one of both is answered")
    sd = run.seed()
    U = tuple(gen.UNITS)
    b0 = gen.stream(sd, "C14", gen.KINDS0, n_(140, 1400), U)
    bm = gen.stream(sd, "C14m", gen.KINDSM, n_(140, 1400), U, MS) + gen.stream(sd, "C14b", gen.KINDSM, n_(70, 700), U, (30, 100, 300, 1000))
    ps = []
    for fam, base in ((0, b0), (1, bm)):
        for i, c in enumerate(base):
            for s in run.SOLVERS:
                if fam and s not in run.MULTI or s == "pan2016" and i % 8:
                    continue
                ps.append((s, "py", "jit", c, c, pairs.IDENT))
    pairs.images(rep, ps, "compiled and interpreted answers differ")
    rep.need("evaluations", n_(20000, 200000))


def replay(r):
    return pairs.replay(r, pairs.IDENT)
