"""Metamorphic monitor: two recorded calls whose answers must be images of each other."""

import numpy as np

from . import bvp, judge, oracle, run


def rel(a, b):
    return float(np.linalg.norm(a - b) / np.linalg.norm(b))


def vec(e, k):
    v = e.get(k, ())
    return np.array(v, float) if len(v) == 3 else np.full(3, np.nan)


def own_path(c, e):
    """1: the answer is on the path asked for, -1: on the other one, 0: the paths are too close to tell."""
    v1, v2 = vec(e, "v1"), vec(e, "v2")
    ds = []
    for low in (c["low"], not c["low"]):
        w1, w2, _ = oracle.solve(c["mu"], c["r1"], c["r2"], c["tof"], c["M"], c["pro"], low)
        ds.append(max(rel(v1, w1), rel(v2, w2)))
    return 1 if ds[0] < 0.1 * ds[1] else -1 if ds[1] < 0.1 * ds[0] else 0


def _work(item):
    """(solver, mode a, mode b, case a, case b, event a, event b, f1, f2, slack)
    f1, f2: 4x3 matrices; the answer to b must be the image: v1_b = F1 (v1_a, v2_a).
    Returns (kind, message, known finding)."""
    s, ma, mb, a, b, ea, eb, fn, slack = item
    for e in (ea, eb):
        if e["k"] in ("skipped", "alarm", "hang", "crash"):
            return "lost", None, None
    if ea["k"] == "ok" and eb["k"] == "ok":
        want = fn(vec(ea, "v1"), vec(ea, "v2"))
        got = vec(eb, "v1"), vec(eb, "v2")
        gap = max(rel(got[0], want[0]), rel(got[1], want[1]))
        lim = slack * max(bvp.threshold(s, a), bvp.threshold(s, b))
        if gap <= lim:
            return "same", None, gap
        # nearly degenerate geometries amplify: equally good answers may differ more
        x = judge.error(a, ea["v1"], ea["v2"])["err"]
        y = judge.error(b, eb["v1"], eb["v2"])["err"]
        if x <= bvp.threshold(s, a) and y <= bvp.threshold(s, b):
            if a["M"] and own_path(a, ea) * own_path(b, eb) < 0:
                return "differ", "the answers are on different paths", None
            return "both good", None, None
        return "differ", "the answers differ by %.3g, more than %.3g (errors %.3g and %.3g)" % (gap, lim, x, y), None
    if ea["k"] == "ok" or eb["k"] == "ok":
        c, e, m = (b, eb, mb) if ea["k"] == "ok" else (a, ea, ma)
        id_ = bvp.allowed(s, m, c, e, judge.features(c))
        if id_:
            return "one refused (known)", None, id_
        return "one refused", "only one of the two problems is answered, the other raises %s: %s" % (e.get("et"), e.get("msg")), None
    return "both refused", None, None


def images(rep, pairs, what, slack=4.0, pure=False):
    """pairs: [(solver, mode a, mode b, case a, case b, image)] with image a picklable
    top-level callable (v1, v2) -> (v1', v2')."""
    plan, order = {}, {}
    for p in pairs:
        s, ma, mb, a, b, fn = p
        for m, c in ((ma, a), (mb, b)):
            plan.setdefault(m, {}).setdefault(s, []).append(c)
    events = {}
    for m, jobs in plan.items():
        for s, _, c, e in run.observe(jobs, m):
            events[m, s, id(c)] = e
            rep.count("events_" + m)
            rep.count("outcome_" + e["k"])
    items = [(s, ma, mb, a, b, events[ma, s, id(a)], events[mb, s, id(b)], fn, slack)
             for s, ma, mb, a, b, fn in pairs]
    for it, (kind, msg, x) in zip(items, run.pmap(_work, items)):
        s, ma, mb, a, b, ea, eb, fn, _ = it
        rep.count("pair " + kind)
        if kind.startswith("one refused") and x:
            rep.finding(x)
        if kind in ("same", "both good", "differ", "one refused"):
            rep.seen((s, ma, mb, a["kind"], a["units"], a["M"], a["pro"], a["tof"], b["mu"], b["tof"], str(b.get("form")), str(b.get("as")), str(fn)),
                     {"solver": s, "modes": [ma, mb], "a": bvp.describe(a), "b": bvp.describe(b), "gap": x}
                     if rep.evaluations % 3001 == 0 else None)
        if pure and not msg and (ea.get("mutated") or eb.get("mutated")):
            msg = "the call changed its arguments"
        if msg:
            rep.violate("%s %s/%s: %s: %s: %s | %s" % (s, ma, mb, what, msg, bvp.describe(a), bvp.describe(b)),
                        {"solver": s, "mode": ma, "mode_b": mb, "case": a, "case_b": b, "a": ea, "b": eb, "why": msg})
    return items


def scaled(kv):
    return Scale(kv)


class Scale:
    def __init__(self, k):
        self.k = k

    def __call__(self, v1, v2):
        return v1 * self.k, v2 * self.k

    def __repr__(self):
        return "scale %g" % self.k


class Lin:
    """Orthogonal map of both velocities, optionally with time reversal."""

    def __init__(self, Q, rev=False, name=""):
        self.Q, self.rev, self.name = np.asarray(Q, float), rev, name

    def __call__(self, v1, v2):
        w1, w2 = self.Q @ v1, self.Q @ v2
        return (-w2, -w1) if self.rev else (w1, w2)

    def __repr__(self):
        return self.name


IDENT = Lin(np.eye(3), name="identity")


def replay(r, fn):
    out = []
    for k, m in (("case", "mode"), ("case_b", "mode_b")):
        out += run.observe({r["solver"]: [r[k]]}, r[m])
    a, b = out
    print(a, b)
    res = _work((r["solver"], r["mode"], r["mode_b"], a[2], b[2], a[3], b[3], fn, 4.0))
    print(res)
    return int(bool(res[1]))
