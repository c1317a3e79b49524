"""Helpers shared by the checks."""

import math

import numpy as np

from .. import gen, run

TWO_PI = 2 * math.pi


def wrap(a):
    """Angle into (-pi, pi]."""
    return math.atan2(math.sin(a), math.cos(a))


def big():
    return run.tier() == "thorough"


def n_(quick, thorough):
    return max(thorough, 2 * quick) if big() else 2 * quick


def udisp(rep, mode, calls, metas, monitor, modname):
    """Run utility calls and hand each outcome to monitor(meta, outcome) -> None or str."""
    res = run.ucalls_split(mode, calls)
    for call, meta, out in zip(calls, metas, res):
        rep.count("calls_" + mode)
        rep.count(call[1])
        msg = monitor(meta, call, out)
        rep.seen((mode, call[1], repr(call[2])), {"call": call[1], "mode": mode, "args": repr(call[2])[:160], "out": repr(out)[:120]} if len(rep.samples) < 10 and rep.evaluations % 997 == 0 else None)
        if msg:
            rep.violate("%s %s: %s" % (call[1], mode, msg),
                        {"mode": mode, "call": [call[0], call[1], repr(call[2]), repr(call[3])], "out": out, "why": msg})
