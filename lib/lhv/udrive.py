"""Child process: calls library functions and records what they return.

python -m lhv.udrive JOB OUT ; JOB = pickle {mode, calls: [(module, function, args, kwargs)]}
"""

import pickle
import sys

from .drive import setup


def plain(x):
    import numpy as np

    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (tuple, list)):
        return [plain(v) for v in x]
    return x


def main():
    job = pickle.load(open(sys.argv[1], "rb"))
    setup(job["mode"])
    import importlib

    out = []
    mods = {}
    for mod, fn, args, kw in job["calls"]:
        if mod not in mods:
            mods[mod] = importlib.import_module(mod)
        try:
            out.append(("ok", plain(getattr(mods[mod], fn)(*args, **kw))))
        except Exception as e:
            out.append(("exc", type(e).__name__, str(e)[:200]))
    pickle.dump(out, open(sys.argv[2], "wb"))


if __name__ == "__main__":
    main()
