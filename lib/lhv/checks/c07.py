"""C07: nonsensical input is rejected with ValueError by every solver, in both modes."""

from .common import *
from .. import bvp


def _bad(rng, c):
    """(label, changed case) for every way of being nonsensical."""
    r1, r2 = np.array(c["r1"]), np.array(c["r2"])
    out = []
    add = lambda lab, **k: out.append((lab, dict(c, **k)))
    add("mu zero", mu=0.0)
    add("mu zero", mu=-0.0)
    add("mu zero", mu=0)
    add("mu negative", mu=-c["mu"])
    add("mu negative", mu=-float(10 ** rng.uniform(-300, 300)))
    add("mu negative", mu=-5e-324)
    add("mu negative", mu=-math.inf)
    for bad in (math.nan, math.inf):
        add("mu not finite", mu=bad)
        add("tof not finite", tof=bad)
        for k in ("r1", "r2"):
            v = list(c[k])
            v[int(rng.integers(3))] = bad * (-1) ** int(rng.integers(2))
            add(k + " not finite", **{k: v})
    add("r1 not finite", r1=[math.nan] * 3)
    add("r2 not finite", r2=[math.inf] * 3)
    add("tof zero", tof=0.0)
    add("tof zero", tof=-0.0)
    add("tof zero", tof=0)
    add("tof negative", tof=-c["tof"])
    add("tof negative", tof=-float(10 ** rng.uniform(-300, 300)))
    add("tof negative", tof=-5e-324)
    add("tof negative", tof=-math.inf)
    for k, o in (("r1", "r2"), ("r2", "r1")):
        add(k + " null", **{k: [0.0, 0.0, 0.0]})
        add(k + " null", **{k: [-0.0, 0.0, -0.0]})
        add(k + " null", **{k: np.zeros(3, dtype=int), o: np.array(c[o]), "form": "raw"})
        for shape in ((2,), (4,), (1, 3), (3, 1), (1,), (), (3, 3), (0,), (2, 3), (6,)):
            bad = rng.normal(size=shape) * np.linalg.norm(r1)
            add(k + " shape " + str(shape), **{k: np.asarray(bad), o: np.array(c[o]), "form": "raw"})
        add(k + " shape (3, 1)", **{k: np.array(c[k]).reshape(3, 1), o: np.array(c[o]), "form": "raw"})
        add(k + " shape (1, 3)", **{k: np.array(c[k]).reshape(1, 3), o: np.array(c[o]), "form": "raw"})
        add(k + " shape (2,)", **{k: np.array(c[k][:2]), o: np.array(c[o]), "form": "raw"})
        add(k + " shape (4,)", **{k: np.array(list(c[k]) + [0.0]), o: np.array(c[o]), "form": "raw"})
    sh = (4,)
    add("both shape (4,)", r1=rng.normal(size=4), r2=rng.normal(size=4), form="raw")
    add("both shape (2,)", r1=rng.normal(size=2), r2=rng.normal(size=2), form="raw")
    add("both shape (1, 3)", r1=rng.normal(size=(1, 3)), r2=rng.normal(size=(1, 3)), form="raw")
    add("both shape (3, 1)", r1=rng.normal(size=(3, 1)), r2=rng.normal(size=(3, 1)), form="raw")
    add("both null", r1=[0.0] * 3, r2=[0.0] * 3)
    add("equal", r2=list(c["r1"]))
    add("equal", r1=list(c["r2"]))
    add("equal", r1=[float(round(z * 8 / max(map(abs, c["r1"])))) for z in c["r1"]], r2=[float(round(z * 8 / max(map(abs, c["r1"])))) for z in c["r1"]])
    add("M negative", M=-1)
    add("M negative", M=-int(rng.integers(2, 10**6)))
    add("M negative", M=-2**31)
    add("M a fraction", M=0.5)
    add("M a fraction", M=float(rng.integers(1, 9)) + float(rng.uniform(0.01, 0.99)))
    add("M a fraction", M=1.0 + 2.0**-52)
    add("M negative", M=-0.5)
    add("M not finite", M=math.nan)
    add("M not finite", M=math.inf)
    add("M not finite", M=-math.inf)
    # several at once
    add("mu and tof", mu=-1.0, tof=-1.0)
    add("mu and M", mu=-1.0, M=-1)
    add("tof and M", tof=-1.0, M=-3)
    add("r1 null and mu", r1=[0.0] * 3, mu=-1.0)
    return out


def _good(rng, c):
    """Valid neighbours of the nonsensical inputs, exactly rescaled so that they stay
    the same problem: a check that rejects too much is as wrong."""
    out = []
    for k in (-40, -13, -1, 1, 13, 40):
        s = 2.0**k  # the time of flight, tiny and huge
        out.append(("tof x 2^%d" % k, dict(c, tof=c["tof"] * s, mu=c["mu"] / s**2)))
        L = 4.0**k
        out.append(("r x 4^%d" % k, dict(c, r1=[z * L for z in c["r1"]], r2=[z * L for z in c["r2"]], tof=c["tof"] * 8.0**k)))
    return out


def check(rep):
    rep.rule = ("calls with one or several nonsensical arguments (mu, tof <= 0 down to the smallest subnormal and -inf, null, "
                "misshapen or equal position vectors, M negative, a fraction or not finite), every solver, flag combination and mode, embedded in otherwise "
                "answered problems of all unit systems; every such call must end in ValueError; valid neighbours must not")
    rng = gen.rng_for(run.seed(), "C07")
    for mode in ("py", "jit"):
        base = [c for c in gen.stream(run.seed(), ("C07", mode), ("generic", "hyper", "special", "polar"), n_(7, 60) if mode == "py" else n_(2, 12),
                                      tuple(gen.UNITS))]
        jobs = {s: [] for s in run.SOLVERS}
        for i, c in enumerate(base):
            for s in run.SOLVERS:
                sub = _bad(rng, c)
                if s in run.MULTI and i % 3 == 2:
                    sub = [(l, dict(x, M=x["M"] or 1)) for l, x in sub]
                for l, x in sub:
                    kw = {} if rng.random() < 0.7 else {"full_output": True}
                    x = dict(x, label=l, kw=kw)
                    if x.get("form") != "raw" and rng.random() < 0.25 and (s != "pan2016" or rng.random() < 0.1):
                        # the very arrays that held a valid problem in the call before
                        x["before"] = dict(c, M=int(x["M"] >= 1 and s in run.MULTI), kw={})
                    jobs[s].append(x)
        for s, m, c, e in run.observe(jobs, mode):
            rep.count("events_" + m)
            rep.count("bad: " + c["label"])
            rep.count("reused_arrays", int("before" in c))
            rep.seen((s, m, c["label"], c["mu"], c["tof"], c["M"], repr(c["r1"])[:40]),
                     {"solver": s, "mode": m, "input": c["label"], "outcome": e.get("et", e["k"]), "message": e.get("msg")}
                     if rep.evaluations % 2003 == 0 else None)
            if e["k"] == "exc" and "ValueError" in e["mro"]:
                rep.count("rejected")
                continue
            rep.violate("%s %s: %s was not rejected with ValueError but %s: %s" % (
                s, m, c["label"], "answered" if e["k"] == "ok" else "raised " + str(e.get("et")) + " " + str(e.get("msg")) if e["k"] == "exc" else e["k"],
                bvp.describe(c)), {"solver": s, "mode": m, "case": c, "event": e})
    # neighbours
    base = [c for c in gen.stream(run.seed(), "C07g", ("generic", "special", "polar"), n_(6, 40), ("canon", "earthkm")) if abs(c["f"].get("x", 0)) < 1]
    jobs = {}
    for s in run.SOLVERS:
        # gauss1809 only answers short arcs
        src = base if s != "gauss1809" else gen.stream(run.seed(), "C07gs", ("short",), n_(9, 60), ("canon", "earthkm"))
        jobs[s] = [dict(x, label=l) for c in (src if s != "pan2016" else src[:3]) for l, x in [("base", c)] + _good(rng, c)]
    for s, m, c, e in run.observe(jobs, "py"):
        rep.count("neighbours")
        if e["k"] == "exc" and ("must be" in e["msg"] or "cannot be" in e["msg"].lower() or "must have" in e["msg"] or "only be" in e["msg"]):
            rep.violate("%s %s: a valid input (%s) is rejected: %s: %s" % (s, m, c["label"], e["msg"], bvp.describe(c)),
                        {"solver": s, "mode": m, "case": c, "event": e})
    rep.need("rejected", n_(10000, 80000))
    rep.need("reused_arrays", n_(1000, 8000))


def replay(r):
    c = r["case"]
    if c.get("form") == "raw":
        c = dict(c, r1=np.array(c["r1"]), r2=np.array(c["r2"]))
    for s, m, c, e in run.observe({r["solver"]: [c]}, r["mode"]):
        print(s, m, e)
        return int(not (e["k"] == "exc" and "ValueError" in e["mro"]))
