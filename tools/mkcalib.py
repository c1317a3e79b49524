"""Builds lib/lhv/calib.json from calibration pickles: mkcalib.py FILE[:-solver[,solver]]..."""
import json, os, pickle, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from lhv import bvp, judge
out, total, rates = {}, {}, {}
for f in sys.argv[1:]:
    f, _, drop = f.partition(":-")
    for s, c, e, d in pickle.load(open(f, "rb")):
        if s in drop.split(","):
            continue
        if not c["kw"]:
            fam = "M" if c["M"] else "0"
            key = "%s|%s|%s" % (s, fam, c["kind"])
            total[key] = total.get(key, 0) + 1
            if e["k"] != "ok":
                m = bvp.msgkey(e)
                r = rates.setdefault(key, {})
                r[m] = r.get(m, 0) + 1
        if e["k"] != "ok":
            continue
        if s in bvp.NEAR_ME and abs(judge.features(c)["t_me"] - 1) < 0.05:
            continue
        t = "tight" if c["kw"].get("rtol", 1) < 1e-9 else "default"
        g = out.setdefault(t, {}).setdefault("M" if c["M"] else "0", {}).setdefault(s, {})
        g[c["kind"]] = max(g.get(c["kind"], 0.0), d["err"])
for t in list(out):
    for m in out[t]:
        for s in out[t][m]:
            for k, v in out[t][m][s].items():
                out[t][m][s][k] = float("%.1e" % v)
                if v > 1e-4:
                    print(t, m, s, k, "%.1e" % v)
out["rates"] = {k: {m: float("%.3g" % (n / total[k])) for m, n in r.items()} for k, r in rates.items()}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib/lhv/calib.json")
json.dump(out, open(p, "w"), indent=0, sort_keys=True)
