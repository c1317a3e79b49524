"""Survey of error envelopes on the current tree (a tool for the author, not a check).

calibrate.py OUT.pkl MODE N SEEDS(comma) M(comma) [TOL] [solvers]
"""
import pickle, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from lhv import gen, judge, run
import numpy as np
from collections import defaultdict, Counter

def work(rec):
    s, mode, c, e = rec
    d = {}
    try:
        d["feat"] = judge.features(c)
    except Exception as ex:
        d["feat"] = {}
    if e["k"] == "ok" and "v1" in e:
        d.update(judge.error(c, e["v1"], e["v2"]))
    return d

if __name__ == "__main__":
    out, mode, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    seeds = [int(x) for x in sys.argv[4].split(",")]
    Ms = tuple(int(x) for x in sys.argv[5].split(","))
    tol = sys.argv[6] if len(sys.argv) > 6 else ""
    kw = {"atol": float(tol), "rtol": float(tol), "maxiter": 500} if tol else {}
    sol = sys.argv[7].split(",") if len(sys.argv) > 7 else None
    recs = []
    multi = Ms != (0,)
    for seed in seeds:
        kinds = gen.KINDSM if multi else gen.KINDS0
        cases = gen.stream(seed, "cal", kinds, n, tuple(gen.UNITS), Ms, kw=kw)
        names = sol or (run.MULTI if multi else run.SOLVERS)
        r = run.observe({s: cases for s in names}, mode)
        j = run.pmap(work, r)
        recs += [(a[0], a[2], a[3], b) for a, b in zip(r, j)]
    pickle.dump(recs, open(out, "wb"))
    g = defaultdict(list); x = defaultdict(Counter)
    for s, c, e, d in recs:
        key = (s, c["kind"])
        if e["k"] == "ok":
            g[key].append(d.get("err", float("inf")))
            x[key]["ok"] += 1
        else:
            x[key][(e.get("et", e["k"]) + ": " + e.get("msg", ""))[:50]] += 1
    for s, k in sorted(x):
        q = np.quantile(g[s, k], [.5, .99, 1]) if g[s, k] else []
        print("%-13s %-9s n=%d %s %s" % (s, k, sum(x[s, k].values()), " ".join("%.1e" % v for v in q), {a: b for a, b in x[s, k].items() if a != "ok"} or ""))
