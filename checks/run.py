"""Entry point of every check:  run.py C01 [--replay FILE]"""

import importlib
import os
import sys

sys.dont_write_bytecode = True
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))


def main():
    pid = sys.argv[1]
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    from lhv import run

    mod = importlib.import_module("lhv.checks." + pid.lower())
    if "--replay" in sys.argv:
        import json

        doc = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        print(json.dumps(doc, indent=1))
        return mod.replay(doc["replay"]) if hasattr(mod, "replay") else 0
    rep = run.Report(pid)
    try:
        mod.check(rep)
    except run.Inconclusive as e:
        rep.inconclusive.append(str(e))
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
