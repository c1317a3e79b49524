"""Nothing has to be built: looks that the parts the checks rely on are there and that the
reference solver agrees with itself."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numba, numpy as np, scipy  # noqa
from lhv import gen, oracle, run

for i, kind in enumerate(("kepler",) * 40):
    c = gen.case(1, ("setup", i), kind, "canon")
    v1 = oracle.solve(c["mu"], c["r1"], c["r2"], c["tof"], 0, c["pro"], c["low"])[0]
    if not np.linalg.norm(v1 - c["f"]["v1"]) < 1e-6 * np.linalg.norm(v1):
        sys.exit("the reference solver is broken")
print("ok", numba.__version__, run.PY)
