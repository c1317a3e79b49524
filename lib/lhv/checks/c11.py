"""C11: the answer has the symmetries of the problem."""

from .common import *
from .. import oracle, pairs

MS = (1, 2, 5)


def _rot(a):
    return np.array([[math.cos(a), -math.sin(a), 0.0], [math.sin(a), math.cos(a), 0.0], [0.0, 0.0, 1.0]])


# name: (matrix, flag flips, time reversal)
EXACT = {
    "quarter turn": (np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]]), False),
    "half turn": (np.diag([-1.0, -1, 1]), False),
    "mirror z": (np.diag([1.0, 1, -1]), False),
    "mirror y": (np.diag([1.0, -1, 1]), True),
    "mirror x": (np.diag([-1.0, 1, 1]), True),
    "swap x y": (np.array([[0.0, 1, 0], [1, 0, 0], [0, 0, 1]]), True),
    "point": (-np.eye(3), False),
    "turn about x": (np.diag([1.0, -1, -1]), True),
}


def image(c, Q, flip, rev):
    r1, r2 = Q @ np.array(c["r1"]), Q @ np.array(c["r2"])
    if rev:
        r1, r2, flip = r2, r1, not flip
    return dict(c, r1=[float(z) + 0.0 for z in r1], r2=[float(z) + 0.0 for z in r2], pro=c["pro"] ^ flip)


def make(c, rng):
    """A random symmetry: (Q, flip, rev, name)"""
    names = list(EXACT)
    k = int(rng.integers(5))
    rev = bool(rng.integers(2))
    if k >= 3:
        # any rotation or reflection will do, if the flag asks for the image of the motion
        n = oracle.geometry(c["r1"], c["r2"], c["pro"])[1]
        while True:
            Q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
            if k == 4:  # the image is nearly equatorial
                b, t = rng.uniform(0, 2 * math.pi), 10 ** rng.uniform(-6, -1)
                z = np.array([math.sin(t) * math.cos(b), math.sin(t) * math.sin(b), math.cos(t)]) * rng.choice([-1.0, 1.0])
                u, w = np.cross(n, Q[0]), np.cross(z, Q[1])
                u, w = u / np.linalg.norm(u), w / np.linalg.norm(w)
                Q = np.outer(z, n) + np.outer(w, u) + rng.choice([-1.0, 1.0]) * np.outer(np.cross(z, w), np.cross(n, u))
            det = round(float(np.linalg.det(Q)))
            m = det * (Q @ n)[2]
            if abs(m) > 1e-5:
                break
        return Q, bool((m > 0) != c["pro"]), rev, ("rotation" if det > 0 else "reflection") + (" to nearly the equator" if k == 4 else "") + (" reversed" if rev else "")
    if k == 0:
        a = float(rng.uniform(-math.pi, math.pi))
        Q, flip, name = _rot(a), False, "rotation about z"
    else:
        name = names[int(rng.integers(len(names)))]
        Q, flip = EXACT[name]
        if k == 2:
            Q, name = Q @ _rot(float(rng.uniform(-math.pi, math.pi))), name + " and rotation about z"
    if rng.random() < 0.1:
        Q, flip, name, rev = np.eye(3), False, "identity", True
    return Q, flip, rev, name + (" reversed" if rev else "")


def check(rep):
    rep.rule = ("pairs of problems that are images of each other: rotations about the Z axis and about any other, also into planes 1e-6 to 0.1 rad from the equator, mirror images (flipping the sense "
                "of motion where the symmetry does), time reversal (positions exchanged, sense flipped, velocities negated) and their combinations; "
                "compared without any reference solution; non-trivial: at least one of both is answered")
    sd = run.seed()
    U = ("canon", "earthkm", "auyr")
    for mode in ("py", "jit"):
        ps = []
        n = n_(120, 1100) if mode == "py" else n_(48, 450)
        # an exactly polar plane has no image under a general rotation: C11 leaves it out
        k0 = [k for k in gen.KINDS0 if k not in ("exactpar", "polar", "special")]
        km = [k for k in gen.KINDSM if k not in ("tmin", "polar", "special")]
        b0, bm = gen.stream(sd, ("C11", mode), k0, n, U), gen.stream(sd, ("C11m", mode), km, n, U, MS)
        rng = gen.rng_for(sd, "C11", mode)
        for fam, base in ((0, b0), (1, bm)):
            for i, c in enumerate(base):
                if c["kind"] != "kepler" and abs(np.cross(c["r1"], c["r2"])[2]) < 1e-6 * np.linalg.norm(c["r1"]) * np.linalg.norm(c["r2"]):
                    continue
                Q, flip, rev, name = make(c, rng)
                d = image(c, Q, flip, rev)
                d["label"] = name
                for s in run.SOLVERS:
                    if fam and s not in run.MULTI or s == "pan2016" and i % 8:
                        continue
                    ps.append((s, mode, mode, c, d, pairs.Lin(Q, rev, name)))
                rep.count("symmetry: " + name)
        pairs.images(rep, ps, "the answer does not have the symmetry")
    rep.need("evaluations", n_(20000, 200000))


def replay(r):
    a, b = r["case"], r["case_b"]
    rev = b["label"].endswith("reversed")
    x, y = (b["r2"], b["r1"]) if rev else (b["r1"], b["r2"])
    # the map of the plane; enough to carry the velocities over
    A = np.array([a["r1"], a["r2"], np.cross(a["r1"], a["r2"])]).T
    B = np.array([x, y, np.cross(x, y)]).T
    Q = B @ np.linalg.inv(A)
    return pairs.replay(r, pairs.Lin(Q, rev, b["label"]))
