"""Child process: counts the logical steps of every call and stops it beyond a budget.

python -m lhv.sdrive JOB OUT ; JOB = pickle {solvers, cases, budgets}

A step is one executed line of the package's own code (interpreted mode), so that the
verdict does not depend on the speed or the load of the machine.
"""

import pickle
import sys

from .drive import get_solver, setup


class Budget(BaseException):
    pass


def main():
    import numpy as np

    job = pickle.load(open(sys.argv[1], "rb"))
    lh = setup("py")
    root = lh.__file__.rsplit("/", 1)[0]
    mon = sys.monitoring
    steps = [0, 0]
    where = {}

    def line(code, no):
        if not code.co_filename.startswith(root):
            return mon.DISABLE
        steps[0] += 1
        if steps[0] > steps[1]:
            where[(code.co_name, no)] = where.get((code.co_name, no), 0) + 1
            raise Budget()

    mon.use_tool_id(3, "lhv")
    mon.register_callback(3, mon.events.LINE, line)
    out = []
    sink = open(sys.argv[2], "wb")
    for s, c, b in zip(job["solvers"], job["cases"], job["budgets"]):
        fn = get_solver(lh, s)
        r1, r2 = np.array(c["r1"], float), np.array(c["r2"], float)
        steps[0], steps[1] = 0, b
        e = {}
        mon.set_events(3, mon.events.LINE)
        try:
            res = fn(c["mu"], r1, r2, c["tof"], M=c["M"], is_prograde=c["pro"], is_low_path=c["low"], **c["kw"])
            e = {"k": "ok", "v1": [float(z) for z in res[0]]}
        except Budget:
            e = {"k": "budget"}
        except Exception as ex:
            e = {"k": "exc", "et": type(ex).__name__, "msg": str(ex)[:100]}
        finally:
            mon.set_events(3, 0)
        e["steps"] = steps[0]
        pickle.dump(e, sink)
        sink.flush()
    sink.close()


if __name__ == "__main__":
    main()
