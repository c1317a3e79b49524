"""Writes known_findings.json: the findings (with one concrete failing call each, found
by running the real code) and the repairs (one per fix commit)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from lhv import bvp, gen, judge, run

BVP = ["C05", "C10", "C11", "C14", "C15", "C24"]
F = {
 "KF-GAUSS-DOMAIN": "gauss1809 refuses well-posed direct transfers outside the arcs Gauss' series converges for (transfer angle under 45 degrees, comparable radii, time of flight near the parabolic one); the method's own limit, so it is not repaired",
 "KF-PSI-BRACKET": "pan2016 and vallado2013 run out of iterations for fast hyperbolic transfers near 180 degrees (angle above 165 degrees, time of flight under 0.6 of the parabolic one): psi lies outside the initial bracket; and for transfers of more than 359 degrees lasting over 30 times the parabolic time; a wider bracket changes the method's iteration counts",
 "KF-ARORA-FAST": "arora2013 fails to converge for direct transfers much faster than the parabola (under 0.06 of the parabolic time of flight) or within 4 degrees of collinear: the published initial guesses are too far away",
 "KF-ARORA-TIGHT": "arora2013 fails to converge when a relative tolerance under 1e-9 is requested: its time equation loses that many digits",
 "KF-DELATORRE-SHORT": "delatorre2018 runs out of iterations for direct transfers within 35 degrees of collinear (1 degree with complete revolutions): the Newton step of the regularized variable overshoots there",
 "KF-JIANG-PARABOLA": "jiang2016 runs out of iterations within 1e-4 of the parabolic time of flight: the semi-major axis it iterates on is unbounded there",
 "KF-AVANZINI-SECANT": "avanzini2008 fails to converge for transfers (mostly fast ones) whose transverse eccentricity its secant iteration jumps over",
 "KF-NEGRETE-CONTOUR": "negrete2024 reports that its contour integral returned no valid root for some transfers, the more the more revolutions: the quadrature of fixed size misses the root",
 "KF-NEGRETE-TMIN": "negrete2024 calls multi-revolution transfers within 2 percent above the minimum time of flight infeasible: its two roots nearly coincide and the quadrature cannot tell them apart",
}
PROP = {}
for h in ("eb9786b 591abb6 02f2571 9f07995 d0fecdf 691443e 23776ad bd7f597 f1266d8 92677d1 cf0f319>C10 de0c203>C10 be8e5a2 4a7c653>C10 4b0852a "
          "014ee6a f9b2062>C05 629572b>C14 3927381>C05 a72b7c7>C05 5f894b2 8911956 c42a051 57f2cd4>C04 b5c40a6>C03 413540c>C24 6bfb539>C21 67d7655>C24 "
          "705c9ba>C21 5c090a7>C01 3ac7e74>C08 b5a8493>C07 0643654>C16 d0dd523>C12 9b49a1d>C15 4cb8b46>C15 7f7cc19>C09 272addd>C06 51aab5f>C23 "
          "f9dc822>C19 f051b8c>C19 bc9e551 c338cec>C04 0d6df8f>C04 211bd4d>C06 a49a95b>C15 f3ab0ef>C09 f5f32ff>C16 23e05e2>C16 2f667df>C16 cbf7eac>C07 964298f>C16 73517c1>C16 9253a54>C16 586d8ce>C01 b8491ed>C23 54e7fb1>C03 e57d175>C05 9d029f2>C02 b14b3f3>C22 a93879f>C23 50eac73>C07 b9c5aa0>C24").split():
    h, _, p = h.partition(">")
    PROP[h] = p or "C01"
PROP.update(json.loads(os.environ.get("LHV_FIXES", "{}")))

def main():
    U = tuple(gen.UNITS)
    jobs = {s: gen.stream(11, "kf", gen.KINDS0, 420, U) + gen.stream(11, "kft", gen.KINDS0, 105, U, kw=dict(atol=1e-11, rtol=1e-11, maxiter=500))
            + (gen.stream(11, "kfm", gen.KINDSM, 420, U, (1, 2, 5)) if s in run.MULTI else []) for s in run.SOLVERS}
    for s in ("arora2013", "jiang2016", "avanzini2008"):
        jobs[s] += gen.stream(12, "kf", gen.KINDS0, 6000, U) + gen.stream(12, "kft", gen.KINDS0, 6000, U, kw=dict(atol=1e-11, rtol=1e-11, maxiter=500))
        if s in run.MULTI:
            jobs[s] += gen.stream(12, "kfm", gen.KINDSM, 3000, U, (1, 2, 5), kw=dict(atol=1e-11, rtol=1e-11, maxiter=500))
    ex = {}
    for s, m, c, e in run.observe(jobs, "py"):
        if e["k"] != "exc":
            continue
        k = bvp.allowed(s, m, c, e, judge.features(c))
        if k and k not in ex:
            ex[k] = "%s: %s -> %s: %s" % (s, bvp.describe(c), e["et"], e["msg"])
    out = [dict(id="KF-ROTY", properties=["C19"], what="rotation about the second axis (rotation_matrix(angle, 1)) has +sin instead of -sin below the diagonal, "
                "so it is not a rotation; the repository's own test asserts that matrix, so it is recorded and not repaired", example="rotation_matrix(0.3, axis=1)")]
    for k, w in F.items():
        if k not in ex:
            print("no example of", k)
        out.append(dict(id=k, properties=BVP + (["C06"] if k.startswith("KF-NEG") else []), what=w, example=ex.get(k)))
    log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "37d1e55..HEAD"], text=True).splitlines()
    fixed = []
    for l in log:
        h, m = l.split(" ", 1)
        assert m.startswith("fix:"), l
        if h not in PROP:
            sys.exit("no property for " + l)
        fixed.append("fixed: property=%s %s %s" % (PROP[h], h, m[5:]))
    with open(os.path.join(run.VERIF, "known_findings.json"), "w") as f:
        json.dump(dict(findings=out, fixed=fixed), f, indent=1)
        f.write("\n")

main()
