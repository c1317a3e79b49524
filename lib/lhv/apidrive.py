"""Child process: describes the public interface of the package as it is at run time.

python -m lhv.apidrive OUT MODE
"""

import inspect
import pickle
import sys

from .drive import setup


def main():
    lh = setup(sys.argv[2])
    out = {"registries": {}, "exported": [], "signatures": {}, "identity": {}}
    for n in ("ALL_SOLVERS", "ZERO_REV_SOLVERS", "MULTI_REV_SOLVERS", "ROBUST_SOLVERS", "NON_ROBUST_SOLVERS"):
        reg = getattr(lh, n)
        out["registries"][n] = [getattr(s, "__name__", repr(s)) for s in reg]
        out["identity"][n] = all(getattr(lh, getattr(s, "__name__", "?"), None) is s for s in reg)
    for n in sorted(dir(lh)):
        f = getattr(lh, n)
        if n.startswith("_") or not callable(f) or inspect.isclass(f):
            continue
        try:
            ps = inspect.signature(f).parameters
        except (TypeError, ValueError):
            continue
        if list(ps)[:2] != ["mu", "r1"] and "tof" not in ps:
            continue
        out["exported"].append(n)
        out["signatures"][n] = [(p.name, None if p.default is p.empty else repr(p.default), str(p.kind)) for p in ps.values()]
    pickle.dump(out, open(sys.argv[1], "wb"))


if __name__ == "__main__":
    main()
