"""C24: how the same numbers are represented does not matter."""

from .common import *
from .. import pairs

VFORMS = ("strided", "reversed", "column", "row", "readonly", "int64", "int32", "negzero", "smallest", "float32", "longdouble", ">f8")
SFORMS = ("numpy", "numpy32", "int", "int64", "array0", "iarray0", "smallest", "int32", "uint32", "uint64", "float32", "longdouble")
EXACT = ("int64", "int32", "smallest", "float32")  # only where these hold the components exactly


def _integer(rng, kind, M):
    """A problem whose vectors (and often mu) are small integers."""
    while True:
        a, b = rng.integers(-40, 41, size=3), rng.integers(-40, 41, size=3)
        if kind == 2:  # all positive
            a, b = abs(a), abs(b)
        if kind in (1, 3):
            a, b = a * 1000 + rng.integers(-500, 501, size=3), b * 1000 + rng.integers(-500, 501, size=3)
        x = np.cross(a, b).astype(float)
        d = np.linalg.norm(a) * np.linalg.norm(b)
        if not d:
            continue
        s = np.linalg.norm(x) / d
        if s > 0.15 and abs(x[2]) > 1e-3 * np.linalg.norm(x) and 0.2 < np.linalg.norm(a) / np.linalg.norm(b) < 5 and a.any() and b.any():
            break
    from .. import oracle
    a, b = a.astype(float), b.astype(float)
    mu = float(rng.choice([1.0, 398600.0, 3.0, 132712.0]))
    if kind == 3:  # the Earth, the metre and the second, or longer times than its own
        k = rng.integers(2)
        a, b, mu = (a * 300.0, b * 300.0, 398600441800000.0) if k else (a * 100, b * 100, float(rng.choice([398600.0, 126712764.0, 1300000000.0])))
    pro = bool(rng.integers(2))
    if M:
        tof = oracle.t_min(mu, a, b, M, pro)[0] * (1.02 + 10 ** rng.uniform(-1, 1))
    else:
        tof = oracle.t_parabolic(mu, a, b, pro) * 10 ** rng.uniform(-0.3, 0.8)
    if rng.random() < 0.7 and tof > 20:
        tof = float(math.ceil(tof))
    return dict(mu=mu, r1=[float(z) for z in a], r2=[float(z) for z in b], tof=float(tof), M=M, pro=pro, low=bool(rng.integers(2)),
                kw={}, kind="integer", units="canon", f={})


def check(rep):
    rep.rule = ("the same numbers passed as arrays of integers (to the smallest that hold them) or of other precision or byte order, strided, reversed, column, row and read-only views, negative zeros, numpy and python "
                "scalars and flags, positionally or with defaults: answers have to agree with those for plain float arrays")
    sd = run.seed()
    rng = gen.rng_for(sd, "C24")
    for mode in ("py", "jit"):
        ps = []
        n = n_(72, 600) if mode == "py" else n_(24, 200)
        cases = [_integer(rng, i % 4, 0) for i in range(n)] + gen.stream(sd, ("C24", mode), ("special", "equat", "polar"), n // 3)
        multi = [_integer(rng, i % 4, 1 + i % 3) for i in range(n)] + gen.stream(sd, ("C24m", mode), ("special", "equat", "polar"), n // 3, Ms=(1, 2))
        # each compiled signature costs a compilation
        vf = VFORMS if mode == "py" or big() else ("strided", "int64", "smallest", "float32")
        sf = SFORMS if mode == "py" or big() else ("numpy", "smallest", "int64")
        for fam, base in ((0, cases), (1, multi)):
            for i, c in enumerate(base):
                isint = c["kind"] == "integer"
                variants = [dict(form=f) for f in vf if isint or f not in EXACT] + [{"as": f} for f in sf]
                if isint:
                    variants.append({"form": "int64", "as": "int"})
                    variants.append({"form": "smallest", "as": "smallest"})
                variants.append({"positional": ()})
                if c["pro"] and c["low"] and not c["M"]:
                    variants.append({"defaults": True})
                for s in run.SOLVERS:
                    if fam and s not in run.MULTI or s == "pan2016" and (i % 8 or mode == "jit" and i % 24):
                        continue
                    for j, v in enumerate(variants):
                        if (i + j) % 3 and mode == "py" and not big():
                            continue
                        d = dict(c, **v)
                        ps.append((s, mode, mode, c, d, pairs.IDENT))
                        rep.count("form %s %s%s" % (d.get("form", "plain"), d.get("as", ""), " positional" if "positional" in d else " defaults" if "defaults" in d else ""))
        pairs.images(rep, ps, "the answer depends on the representation of the input", pure=True)
    rep.need("evaluations", n_(8000, 60000))


def replay(r):
    return pairs.replay(r, pairs.IDENT)
