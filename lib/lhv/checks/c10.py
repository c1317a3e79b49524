"""C10: the choice of units does not matter."""

from .common import *
from .. import pairs

MS = (1, 2, 5)


def _scaled(c, L, T):
    """The same problem with lengths times L and times times T."""
    return dict(c, mu=c["mu"] * L**3 / T**2, r1=[z * L for z in c["r1"]], r2=[z * L for z in c["r2"]], tof=c["tof"] * T)


def check(rep):
    rep.rule = ("pairs of the same problem in two unit systems: exact scalings (lengths by powers of 4, times by powers of 2, so that every "
                "input is scaled without rounding) over 24 decades, and arbitrary factors; compared without any reference solution; "
                "non-trivial: at least one of both is answered")
    sd = run.seed()
    for mode in ("py", "jit"):
        ps = []
        kinds0 = [k for k in gen.KINDS0 if k not in ("exactpar",)]
        b0 = gen.stream(sd, ("C10", mode), kinds0, n_(72, 700) if mode == "py" else n_(28, 280), ("canon",))
        bm = gen.stream(sd, ("C10m", mode), [k for k in gen.KINDSM if k != "tmin"], n_(72, 700) if mode == "py" else n_(28, 280), ("canon",), MS)
        rng = gen.rng_for(sd, "C10", mode)
        for fam, base in ((0, b0), (1, bm)):
            for i, c in enumerate(base):
                if i % 3:
                    L, T = 4.0 ** int(rng.integers(-20, 21)), 2.0 ** int(rng.integers(-40, 41))
                else:
                    L, T = float(10 ** rng.uniform(-12, 12)), float(10 ** rng.uniform(-12, 12))
                d = _scaled(c, L, T)
                for s in run.SOLVERS:
                    if fam and s not in run.MULTI:
                        continue
                    if s == "pan2016" and i % 8:
                        continue
                    ps.append((s, mode, mode, c, d, pairs.Scale(L / T)))
        pairs.images(rep, ps, "the answer depends on the units")
    rep.need("evaluations", n_(15000, 150000))
    rep.assumptions += ["inputs whose squares and cubes stay within the range of floating point numbers"]


def replay(r):
    a, b = r["case"], r["case_b"]
    L = np.linalg.norm(b["r1"]) / np.linalg.norm(a["r1"])
    return pairs.replay(r, pairs.Scale(L * a["tof"] / b["tof"]))
