"""Random benchmark reports and a parser for the section generated from them."""

import json
import math
import os
import re
import subprocess

from .. import run

SCRIPT = run.REPO + "/scripts/generate_benchmark_report.py"
START, END = "<!-- performance-comparison:start -->", "<!-- performance-comparison:end -->"
GROUPS = {
    "zero-rev-nominal": "Zero-revolution nominal cases",
    "zero-rev-general": "Zero-revolution general cases",
    "zero-rev-hyperbolic": "Zero-revolution hyperbolic cases",
    "multi-rev-m1": "One-revolution branch cases",
    "multi-rev-hard": "Near-minimum-energy multi-revolution cases",
    "robust-zero-rev": "Near-tangent robustness cases",
}
NAMES = ("vallado-book", "der-article-i-retrograde-high", "der-article-ii-retrograde-high", "retrograde-high",
         "m1-prograde-high", "m2-prograde-low", "battin-book", "curtiss-book", "gmat-prograde", "gmat-retrograde", "der-article-i-prograde-low",
         "der-article-ii-prograde-high", "prograde-high", "prograde-low", "retrograde-low", "m1-prograde-low",
         "m2-prograde-high", "near-tangent-prograde-high", "some-new-case", "x", "lunar-flyby")


STRANGERS = ("my_solver2020", "Izzo2015", "izzo2015_fast", "x", "_private", "solver_", "A1b2C3", "lambert", "__call__", "izzo2015b", "izzo_2015")

TITLES = {
    "battin-book": "Battin book", "curtiss-book": "Curtiss book", "vallado-book": "Vallado book",
    "gmat-prograde": "GMAT hyperbolic", "gmat-retrograde": "GMAT hyperbolic",
    "der-article-i-prograde-low": "Der article I", "der-article-i-retrograde-high": "Der article I",
    "der-article-ii-prograde-high": "Der article II", "der-article-ii-retrograde-high": "Der article II",
    "prograde-high": "Der article II", "prograde-low": "Der article II", "retrograde-high": "Der article II",
    "retrograde-low": "Der article II", "m1-prograde-high": "Near-minimum-energy", "m1-prograde-low": "Near-minimum-energy",
    "m2-prograde-high": "Near-minimum-energy", "m2-prograde-low": "Near-minimum-energy",
    "near-tangent-prograde-high": "Near tangent",
}
COLUMNS = ["Rank", "Solver", "Revolutions", "prograde", "Path", "Median (µs)", "Mean (µs)", "IQR (µs)", "Speedup", "Rounds"]


def scenario(name):
    return TITLES.get(name, name.replace("-", " ").title())


def reports(rng):
    """One to three benchmark JSON documents; a solver may have been measured twice on a case (two runs)."""
    groups = [str(g) for g in rng.permutation(list(GROUPS) + ["brand-new-group", "zz"])[: int(rng.integers(1, 6))]]
    entries = []
    for g in groups:
        cases = []
        for _ in range(int(rng.integers(1, 5))):
            c = {"name": str(rng.choice(NAMES)), "M": int(rng.integers(0, 3)),
                 "is_prograde": bool(rng.integers(2)), "is_low_path": bool(rng.integers(2))}
            if c not in cases:
                cases.append(c)
        for c in cases:
            names = [str(s) for s in rng.permutation(run.SOLVERS)[: int(rng.integers(1, 9))]]
            if rng.random() < 0.2:
                names += names[: int(rng.integers(1, 3))]
            for s in names:
                if rng.random() < 0.25:  # solvers of other people
                    s = str(rng.choice(STRANGERS))
                med = float(10 ** rng.uniform(-7, -1))
                k = rng.integers(8)
                if k == 0 and entries:
                    med = entries[-1]["stats"]["median"]  # ties happen
                if k == 1:
                    med = float(rng.integers(1, 5)) * 1e-6
                if rng.random() < 0.01:
                    med = 0.0  # under the resolution of the clock
                param = "<function %s at 0x%x>" % (s, int(rng.integers(2**40)))
                if rng.random() < 0.15:
                    param = s
                entries.append({
                    "group": g, "name": "test[%s]" % s,
                    "params": {"solver": param, "case": dict(c, regime=g)},
                    "stats": {"median": med, "mean": med * float(rng.uniform(0.8, 3)),
                              "iqr": med * float(rng.uniform(0, 0.5)), "rounds": int(rng.integers(1, 10**6))},
                    "_solver": s,
                })
    entries = [entries[i] for i in rng.permutation(len(entries))]
    nrep = int(rng.integers(1, 4)) if rng.random() < 0.85 else int(rng.integers(4, 13))
    docs = []
    for j in range(nrep):
        d = {"benchmarks": entries[j::nrep], "machine_info": {"system": "Linux", "python_version": "3.12.%d" % j,
             "cpu": {"brand_raw": str(rng.choice(["AMD EPYC 7763", "Intel(R) Xeon(R) @ 2.80GHz", "weird \\1 \\g<0> | `cpu`"]))}},
             "commit_info": {"id": "%040x" % int(rng.integers(2**60))}}
        if rng.random() < 0.15:
            del d["machine_info"]
        if rng.random() < 0.15:
            del d["commit_info"]
        docs.append(d)
    return entries, docs


SUFFIXES = ("_run", "", "_0f3a.dirty", " copy (1)", "_run.json", "_µs")


def write(docs, path):
    """The documents in files whose order by name is that of the list; results of other tools lie beside them."""
    os.makedirs(path)
    for j, d in enumerate(docs):
        d = dict(d, benchmarks=[{k: v for k, v in b.items() if k != "_solver"} for b in d["benchmarks"]])
        with open(os.path.join(path, "%04d%s.json" % (j, SUFFIXES[(j + len(docs)) % len(SUFFIXES)])), "w", encoding="utf-8") as f:
            json.dump(d, f, ensure_ascii=j % 2 == 0, indent=(None, 4)[len(docs) % 2])
    for name in ("0000_notes.txt", "0000_old.json.bak")[: len(docs) % 3]:
        with open(os.path.join(path, name), "w") as f:
            f.write("not a report")


def damage(rng, path):
    """Spoil one of the reports; what was done to it."""
    name = sorted(z for z in os.listdir(path) if z.endswith(".json"))[-1]
    name = os.path.join(path, name)
    with open(name, encoding="utf-8") as f:
        text = f.read()
    d = json.loads(text)
    k = int(rng.integers(6))
    if k == 0:
        text = text[: int(rng.integers(1, len(text)))]  # an interrupted run
    elif k == 1:
        text = ""
    elif k == 2:
        del d["benchmarks"]
    elif k == 3:
        d["benchmarks"].append({"group": "zz", "params": {"solver": "x"}})
    elif k == 4:
        d["benchmarks"].append({"group": "zz", "params": {"solver": "x", "case": {"name": "x", "M": 0, "is_prograde": True, "is_low_path": True}}, "stats": {"median": 1.0}})
    else:
        text = "not a report"
    with open(name, "w", encoding="utf-8") as f:
        f.write(text if k in (0, 1, 5) else json.dumps(d))
    return ("truncated", "empty", "no benchmarks", "no case", "no figures", "not a report")[k]


def state(path):
    """Everything under a directory."""
    out = {}
    for root, dirs, files in os.walk(path):
        for z in files:
            with open(os.path.join(root, z), "rb") as f:
                out[os.path.relpath(os.path.join(root, z), path)] = f.read()
    return out


def cli(bench, readme):
    p = subprocess.run([run.PY, SCRIPT, "--benchmarks-dir", bench, "--readme", readme], cwd=run.scratch(),
                       env=run.env("py"), capture_output=True, text=True, timeout=120)
    return p.returncode, p.stderr[-400:]


def parse(section):
    """[(group title, scenario title, row cells)] of a generated section.  A row outside
    of a table (a header, its separator, then rows without a gap) has a scenario of None."""
    out = []
    g = s = None
    table = 0  # 1 after a header, 2 within the rows
    for line in section.split("\n"):
        if line.startswith("#### "):
            s, table = line[5:], 0
        elif line.startswith("### "):
            g, s, table = line[4:], None, 0
        elif line.startswith("|"):
            cells = [c.strip() for c in line.strip().strip("|").split("|")]
            if cells == COLUMNS:
                table = 1
            elif all(set(c) <= set("-: ") and "-" in c for c in cells):
                table = 2 if table == 1 and len(cells) == len(COLUMNS) else 0
            else:
                out.append((g, s if table == 2 else None, cells))
        else:
            table = 0
    return out
