"""Parent side: runs drivers, collects event logs, judges them in a process pool."""

import json
import multiprocessing as mp
import os
import pickle
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
LIB = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(LIB)
REPO = os.environ.get("LHV_REPO", "/repo")
NPROC = min(8, os.cpu_count() or 8)

SOLVERS = (
    "gauss1809", "battin1984", "jiang2016", "pan2016", "gooding1990", "der2011",
    "thorne2004", "avanzini2008", "arora2013", "vallado2013", "izzo2015",
    "negrete2024", "mcelreath2025", "delatorre2018",
)
MULTI = (
    "gooding1990", "der2011", "arora2013", "izzo2015", "negrete2024",
    "mcelreath2025", "delatorre2018",
)
ZERO_ONLY = tuple(s for s in SOLVERS if s not in MULTI)


class Inconclusive(Exception):
    pass


_scratch = None


def scratch():
    """One scratch directory per run, removed on exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="lhv-")
        import atexit

        d = _scratch
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return _scratch


def env(mode="py", **more):
    e = dict(os.environ)
    e["PYTHONPATH"] = REPO + "/src" + os.pathsep + LIB
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    if mode == "py":
        e["NUMBA_DISABLE_JIT"] = "1"
    else:
        e.pop("NUMBA_DISABLE_JIT", None)
    cache = os.path.join(scratch(), "numba")
    os.makedirs(cache, exist_ok=True)
    e["NUMBA_CACHE_DIR"] = e["LHV_CACHE"] = cache
    e.update({k: str(v) for k, v in more.items()})
    return e


_lock = threading.Lock()
_count = 0


def _fresh():
    global _count
    with _lock:
        _count += 1
        return _count


def drive(job, hang_s=90.0, start_s=240.0, max_hangs=3):
    """Run one driver job to completion; returns the list of events, one per case.

    A call still in flight after hang_s seconds is recorded as {k: 'hang'} (never as a
    failure) and the driver is restarted behind it.
    """
    base = os.path.join(scratch(), "job%d" % _fresh())
    n = len(job["cases"])
    events = [None] * n
    start = 0
    hangs = 0
    while start < n:
        job = dict(job, start=start)
        with open(base + ".in", "wb") as f:
            pickle.dump(job, f)
        open(base + ".out", "wb").close()
        with open(base + ".prog", "wb") as f:
            f.write(struct.pack("q", -1))
        with open(base + ".err", "wb") as err:
            p = subprocess.Popen(
                [PY, "-m", "lhv.drive", base + ".in", base + ".out", base + ".prog"],
                env=env(job["mode"]), stdout=err, stderr=err, cwd=scratch(),
            )
        last, t_last = -1, time.time()
        hung = None
        while True:
            try:
                p.wait(timeout=0.1)
                break
            except subprocess.TimeoutExpired:
                pass
            with open(base + ".prog", "rb") as f:
                cur = struct.unpack("q", f.read(8))[0]
            if cur != last:
                last, t_last = cur, time.time()
            # the first calls compile
            limit = start_s if cur <= start + 1 and job["mode"] != "py" else hang_s
            if time.time() - t_last > limit:
                p.kill()
                p.wait()
                hung = cur
                break
        with open(base + ".out", "rb") as f:
            while True:
                try:
                    e = pickle.load(f)
                except (EOFError, pickle.UnpicklingError):
                    break
                events[e["i"]] = e
        with open(base + ".prog", "rb") as f:
            cur = struct.unpack("q", f.read(8))[0]
        if hung is None and p.returncode == 0:
            break
        if cur < start:
            tail = open(base + ".err", errors="replace").read()[-1500:]
            raise Inconclusive("driver %s did not start: %s" % (job["mode"], tail))
        # events not flushed before the death are re-run
        first = next(i for i in range(start, n) if events[i] is None)
        if first < cur:
            job_cases = [dict(c) for c in job["cases"]]
            sub = drive(dict(job, cases=job_cases[first:cur], solvers=job["solvers"][first:cur],
                             start=0), hang_s, start_s, max_hangs)
            for j, e in enumerate(sub):
                events[first + j] = dict(e, i=first + j)
        events[cur] = {"i": cur, "k": "hang" if hung is not None else "crash",
                       "rc": p.returncode}
        hangs += 1
        start = cur + 1
        if hangs >= max_hangs:
            for i in range(start, n):
                events[i] = {"i": i, "k": "skipped"}
            break
    for ext in (".in", ".out", ".prog", ".err"):
        try:
            os.unlink(base + ext)
        except OSError:
            pass
    return events


def chunks(cases, k):
    size = max(1, -(-len(cases) // k))
    return [cases[i : i + size] for i in range(0, len(cases), size)]


def drive_all(jobs, workers=NPROC):
    """jobs: list of dicts; returns their event lists, in order.

    Compiled jobs of one solver are not split (each process has to compile).
    """
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(drive, jobs))


COST = {"pan2016": 40.0, "negrete2024": 2.0, "gauss1809": 3.0, "thorne2004": 0.6}

# which solvers share a compiling driver: about the same compilation time each
GROUPS = (("avanzini2008",), ("gauss1809",), ("negrete2024",), ("mcelreath2025",),
          ("izzo2015", "delatorre2018"), ("gooding1990", "arora2013", "thorne2004"),
          ("der2011", "pan2016", "vallado2013"), ("battin1984", "jiang2016"))


def jobs_for(solver_cases, mode):
    """solver_cases: {solver: cases}.  Interpreted work is spread evenly over NPROC
    drivers; compiled work stays with the driver that compiles the solver."""
    jobs = []
    if mode == "py":
        work = [(s, c) for s, cases in solver_cases.items() for c in cases]
        work.sort(key=lambda w: -COST.get(w[0], 0.3))
        for k in range(NPROC):
            part = work[k::NPROC]
            if part:
                jobs.append(dict(mode=mode, solvers=[w[0] for w in part], cases=[w[1] for w in part]))
        return jobs
    for group in GROUPS:
        part = [(s, c) for s in group for c in solver_cases.get(s, ())]
        if part:
            jobs.append(dict(mode=mode, solvers=[w[0] for w in part], cases=[w[1] for w in part]))
    return jobs


def observe(solver_cases, mode):
    """Drive everything; returns (solver, mode, case, event) records."""
    jobs = jobs_for(solver_cases, mode)
    res = drive_all(jobs)
    out = []
    for j, ev in zip(jobs, res):
        for s, c, e in zip(j["solvers"], j["cases"], ev):
            out.append((s, mode, c, e))
    return out


def pmap(fn, items, chunk=64):
    """Judge in a process pool (these processes never import the code under test)."""
    items = list(items)
    if not items:
        return []
    ctx = mp.get_context("fork")
    with ctx.Pool(NPROC) as p:
        return p.map(fn, items, chunksize=chunk)


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def tier():
    return os.environ.get("VERIF_TIER", "quick") or "quick"


class Report:
    """Collects what was observed, decides, writes the evidence file."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.cover = {}
        self.violations = []
        self.known = {}
        self.inconclusive = []
        self.assumptions = []
        self.rule = ""
        self.needs = {}

    def count(self, name, k=1):
        self.cover[name] = self.cover.get(name, 0) + k

    def seen(self, key, sample=None):
        """One evaluation of the deciding monitor on a non-trivial case."""
        self.evaluations += 1
        self.distinct.add(key)
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def need(self, name, at_least):
        """The run is inconclusive unless counter `name` reached this."""
        self.needs[name] = at_least

    def violate(self, what, replay):
        self.violations.append((what, replay))

    def finding(self, kf, n=1):
        self.known[kf] = self.known.get(kf, 0) + n

    def finish(self):
        for name, n in self.needs.items():
            got = self.evaluations if name == "evaluations" else self.cover.get(name, 0)
            if got < n:
                self.inconclusive.append("%s: observed %d, needs %d" % (name, got, n))
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples,
            "observed": self.cover,
            "known_findings_observed": self.known,
        }
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        doc = dict(
            property=self.pid, tier=tier(), seed=seed(), level="exploration",
            coverage=cov, assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2), violations=len(self.violations),
        )
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump(doc, f, indent=1, default=_js)
        for kf in known_for(self.pid):
            print("KNOWN-FINDING: property=%s %s: %s (seen %d times in this run)" % (
                self.pid, kf["id"], kf["what"], self.known.get(kf["id"], 0)))
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1f s" % (
            self.pid, tier(), seed(), self.evaluations, len(self.distinct),
            len(self.violations), time.time() - self.t0))
        if self.violations:
            rd = os.path.join(ev, "replay")
            os.makedirs(rd, exist_ok=True)
            shown = {}
            for what, replay in self.violations:
                key = what.split(":")[0]
                shown[key] = shown.get(key, 0) + 1
                if shown[key] > 3 or sum(shown.values()) > 30:
                    continue
                path = os.path.join(rd, "%s-%d-%d.json" % (self.pid, seed(), sum(shown.values())))
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, what=what, replay=replay), f, indent=1, default=_js)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  " + what)
            sys.stdout.flush()
            return 1
        if self.inconclusive:
            for r in self.inconclusive[:10]:
                print("INCONCLUSIVE property=%s %s" % (self.pid, r))
            return 3
        return 0


def _js(o):
    try:
        return o.item()
    except (AttributeError, ValueError):
        pass
    try:
        return list(o)
    except TypeError:
        return repr(o)


_known = None


def known_all():
    global _known
    if _known is None:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            _known = json.load(f)["findings"]
    return _known


def known_for(pid):
    return [k for k in known_all() if pid in k["properties"]]


def ucalls(mode, calls, timeout=600):
    """Run utility calls in one driver process; returns their recorded outcomes."""
    base = os.path.join(scratch(), "u%d" % _fresh())
    with open(base + ".in", "wb") as f:
        pickle.dump(dict(mode=mode, calls=calls), f)
    try:
        p = subprocess.run([PY, "-m", "lhv.udrive", base + ".in", base + ".out"],
                           env=env(mode), cwd=scratch(), capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("utility driver timed out after %d s" % timeout)
    if p.returncode != 0:
        raise Inconclusive("utility driver failed: " + p.stderr.decode(errors="replace")[-1500:])
    with open(base + ".out", "rb") as f:
        return pickle.load(f)


def ucalls_split(mode, calls, k=NPROC):
    with ThreadPoolExecutor(k) as ex:
        return [r for part in ex.map(lambda c: ucalls(mode, c), chunks(calls, k)) for r in part]
