"""C22: the performance report accounts for every benchmark and ranks it rightly."""

import os
from collections import Counter

from .common import *
from .report_common import *


def judge(rep, entries, text):
    rows = parse(text.split(START)[1].split(END)[0])
    out = []
    if len(rows) != len(entries):
        out.append("%d rows for %d benchmarks" % (len(rows), len(entries)))
    key = lambda b: (b["params"]["case"]["name"], b["params"]["case"]["M"], b["params"]["case"]["is_prograde"], b["params"]["case"]["is_low_path"])
    want = Counter()
    sig = {}
    bycase = {}
    for b in entries:
        bycase.setdefault((b["group"], key(b)), []).append(b)
    us = lambda x: "%.1f" % (x * 1e6)
    exp = Counter()
    for (g, k), bs in bycase.items():
        meds = sorted(b["stats"]["median"] for b in bs)
        slow = meds[-1]
        for b in bs:
            m = b["stats"]["median"]
            lo = 1 + sum(1 for x in meds if x < m)
            hi = sum(1 for x in meds if x <= m)
            c = b["params"]["case"]
            st = b["stats"]
            row = (GROUPS.get(g, g.replace("-", " ").title()), scenario(k[0]), "`%s`" % b["_solver"], str(c["M"]), "Yes" if c["is_prograde"] else "No",
                   "low" if c["is_low_path"] else "high", us(m), us(st["mean"]), us(st["iqr"]), "%.1fx" % (slow / m if m else 1.0), str(st["rounds"]))
            exp[row] += 1
            sig.setdefault(row, set()).update(range(lo, hi + 1))
            rep.count("rows_checked")
    got = Counter()
    for g, s, c in rows:
        if len(c) != 10:
            out.append("row with %d cells: %r" % (len(c), c))
            continue
        row = (g, s) + tuple(c[1:])
        got[row] += 1
        if row in sig and not (c[0].isdigit() and int(c[0]) in sig[row]):
            out.append("rank %s of %r, must be in %s" % (c[0], row, sorted(sig[row])))
    for row in (exp - got):
        out.append("missing or wrong row: expected %r in group; got rows %r" % (row, [r for r in got if r[2] == row[2] and r[0] == row[0]][:3]))
    for row in (got - exp):
        out.append("row that stands for no benchmark: %r" % (row,))
    # ranks of one case are a permutation 1..n and follow the order of the medians
    seen = {}
    for g, s, c in rows:
        seen.setdefault((g, s, c[2], c[3], c[4]), []).append((int(c[0]) if c[0].isdigit() else -1, float(c[5])))
    cases = {}
    for (g, k), bs in bycase.items():
        cases.setdefault((GROUPS.get(g, g.replace("-", " ").title()), str(k[1]), "Yes" if k[2] else "No", "low" if k[3] else "high"), []).append((k[0], len(bs)))
    for (g, s, M, p, l), rk in seen.items():
        same = cases.get((g, M, p, l), [])
        if len(same) == 1 and sorted(r for r, _ in rk) != list(range(1, len(rk) + 1)):
            out.append("ranks of %s/%s M=%s prograde=%s %s are %r" % (g, s, M, p, l, rk))
        if len(same) == 1 and [m for _, m in rk] != sorted(m for _, m in rk):
            out.append("rows of %s/%s are not ordered by median: %r" % (g, s, rk))
    # scenarios: cases of one name are together; groups are alphabetical by their identifier
    order = []
    for g, s, c in rows:
        if not order or order[-1] != (g, s):
            order.append((g, s))
    if len(set(order)) != len(order):
        out.append("a scenario is split in two: %r" % order)
    gid = {GROUPS.get(g, g.replace("-", " ").title()): g for g in {b["group"] for b in entries}}
    gs = list(dict.fromkeys(g for g, _ in order))
    if [gid.get(g) for g in gs] != sorted(gid.values()):
        out.append("groups out of order: %r" % gs)
    return out


def check(rep):
    rep.rule = ("random benchmark JSON documents (1-3 files, known and unknown groups and cases, ties, plain and repr solver names) run "
                "through the command line; every benchmark must reappear as exactly one row with the right figures, rank and speed-up")
    rng = gen.rng_for(run.seed(), "C22")
    n = n_(300, 3000)
    jobs = []
    for i in range(n):
        e, docs = reports(rng)
        d = os.path.join(run.scratch(), "b%d" % i)
        write(docs, d)
        readme = d + ".md"
        with open(readme, "w", encoding="utf-8") as f:
            f.write("# title\n\ntext\n\n%s\n\nold\n%s\n\nend\n" % (START, END) if i % 2 else "# title\n")
        jobs.append((e, docs, d, readme))
    with run.ThreadPoolExecutor(run.NPROC) as ex:
        res = list(ex.map(lambda j: cli(j[2], j[3]), jobs))
    for (e, docs, d, readme), (rc, err) in zip(jobs, res):
        rep.count("reports")
        text = open(readme, encoding="utf-8").read()
        rep.seen(readme, {"benchmarks": len(e), "files": len(docs), "first_row": (parse(text) or [None])[0]} if rep.evaluations < 4 else None)
        if rc != 0 or START not in text:
            rep.violate("report: exit %d %s" % (rc, err), {"docs": docs})
            continue
        for msg in judge(rep, e, text)[:3]:
            rep.violate("report: " + msg, {"docs": docs, "readme": text})
        cid = docs[0].get("commit_info", {}).get("id", "unknown")
        if "`%s`" % cid[:12] not in text:
            rep.violate("report: commit of the measurements missing", {"docs": docs, "readme": text})
        cpu = docs[0].get("machine_info", {}).get("cpu", {}).get("brand_raw", "unknown CPU")
        if cpu not in text:
            rep.violate("report: machine of the measurements missing", {"docs": docs, "readme": text})
    # an empty directory is an error and leaves the document alone
    d = os.path.join(run.scratch(), "empty")
    os.makedirs(d)
    readme = d + ".md"
    open(readme, "w").write("# keep\n")
    rc, err = cli(d, readme)
    rep.seen("empty")
    if rc == 0 or open(readme).read() != "# keep\n":
        rep.violate("report: no benchmark files, exit %d, document changed: %r" % (rc, open(readme).read()), {"rc": rc, "err": err})
    # a results file which cannot be used must not disappear from the report silently
    jobs = []
    for i in range(n_(16, 150)):
        e, docs = reports(rng)
        d = os.path.join(run.scratch(), "s%d" % i)
        write(docs, d)
        what = damage(rng, d)
        readme = d + ".md"
        with open(readme, "w") as f:
            f.write("# keep\n")
        jobs.append((d, readme, what))
    with run.ThreadPoolExecutor(run.NPROC) as ex:
        res = list(ex.map(lambda j: cli(j[0], j[1]), jobs))
    for (d, readme, what), (rc, err) in zip(jobs, res):
        rep.count("spoiled_files")
        rep.seen(readme)
        if rc == 0:
            rep.violate("report: a results file which is %s is left out silently" % what, {"what": what, "files": {k: v.decode("utf-8", "replace") for k, v in state(d).items()}, "readme": open(readme).read()})
    rep.need("spoiled_files", n_(16, 150))
    rep.need("reports", n)
    rep.need("rows_checked", n)
