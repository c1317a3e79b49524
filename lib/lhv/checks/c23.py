"""C23: updating the README replaces the marked section and nothing else."""

import os
import re

from .common import *
from .report_common import *

BITS = ("lone \r return", "# Title", "", "text with `code` and | pipes |", "\\1 \\g<0> \\n back\\slashes", "µs – “quotes” ✓", "<!-- comment -->",
        "## Performance comparison", "<!-- vale off -->", "$$ \\vec{r_1} $$", "    indented  ", "form\x0cfeed\u2028separator\x85",
        "\tcode after a tab", "a\tb\t", "trailing spaces   ", "- item\n\t- nested", "bell \x07 vertical\x0b tab", "wide \u3000 and \xa0 spaces", "&amp; <br/> &#9;",
        "[link](https://example.org/a_(b)?c=d&e=%20f)", "> quote", "***", "{{ braces }} %s %(x)s {0} $1 ${x}", "last")


def doc(rng, k):
    """Text before the section, whether there is one, text after it, the document; k: 0 no section, 1 section, 2 section and
    stray markers, 3 no section and stray markers (a start marker without end, an end without start, or end before start)."""
    mk = lambda m: "\n".join(str(rng.choice(BITS)) for _ in range(int(rng.integers(0, m)))) + ("\n" if rng.integers(2) else "")
    pre, post = mk(12), mk(12)
    e, s = "`" + END + "` closes the section\n", "the section is opened with `" + START + "`\n"
    if k == 0:
        return pre + post, False, "", pre + post
    if k == 3:
        pre = pre + (e, s, e + mk(4) + s)[int(rng.integers(3))] + post
        return pre, False, "", pre
    old = "\n".join(str(rng.choice(BITS)) for _ in range(int(rng.integers(0, 10))))
    if pre and not pre.endswith("\n"):
        pre += "\n"
    body = START + "\n" + old + "\n" + END
    if k == 2:
        which = int(rng.integers(1, 16))
        pre += (e if which & 1 else "") + (s if which & 2 else "") + mk(4)
        if pre and not pre.endswith("\n"):
            pre += "\n"
        post = post.rstrip("\n") + "\n" + (e if which & 4 else "") + (s if which & 8 else "") + mk(4)
    return pre, True, "\n" + post, pre + body + "\n" + post


def strip_time(t):
    return re.sub(r"- Generated: .*", "- Generated: T", t)


def check(rep):
    rep.rule = ("random documents with and without the marked section, hostile text around it (regular-expression escapes, unicode, line endings of other systems), "
                "updated two or three times with different reports: text outside the section must be byte-identical, one section, idempotent")
    rng = gen.rng_for(run.seed(), "C23")
    n = n_(200, 2000)
    jobs = []
    for i in range(n):
        pre, body, post, text = doc(rng, i % 4)
        if i // 4 % 3 == 1:  # line endings of other systems are text as well
            pre, post, text = (z.replace("\n", "\r\n") for z in (pre, post, text))
        ds = []
        for j in range(2):
            e, docs = reports(rng)
            d = os.path.join(run.scratch(), "d%d_%d" % (i, j))
            write(docs, d)
            ds.append((d, e))
        readme = os.path.join(run.scratch(), "R%d.md" % i)
        if i // 12 % 4 == 1:  # the mark some editors start a document with
            pre, text = "\ufeff" + pre, "\ufeff" + text
        with open(readme, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        jobs.append((pre, body, post, text, ds, readme))

    def work(j):
        pre, body, post, text, ds, readme = j
        seq = []
        for d in (ds[0][0], ds[0][0], ds[1][0]):
            rc, err = cli(d, readme)
            seq.append((rc, err, open(readme, encoding="utf-8", newline="").read()))
        return seq

    with run.ThreadPoolExecutor(run.NPROC) as ex:
        res = list(ex.map(work, jobs))
    for (pre, body, post, text, ds, readme), seq in zip(jobs, res):
        rep.count("documents")
        rep.count("with_section" if body else "without_section")
        rep.count("foreign_line_endings", int("\r" in text))
        rep.count("stray_end_marker", int(text.count(END) > int(body)))
        rep.count("stray_start_marker", int(text.count(START) > int(body)))
        rep.seen(text, {"before": text[:200], "after": seq[0][2][:200]} if rep.evaluations < 3 else None)

        def bad(msg):
            rep.violate("readme: " + msg, {"before": text, "after": [s[2] for s in seq], "rc": [s[:2] for s in seq]})

        if any(s[0] for s in seq):
            bad("exit %r" % ([s[:2] for s in seq],))
            continue
        frames = []
        for k, (rc, err, t) in enumerate(seq):
            head = pre if body else text.rstrip()
            if not t.startswith(head):
                bad("text before the section changed in update %d: %r" % (k + 1, t[: len(head)][-80:]))
                break
            rest, tail = t[len(head):], post.lstrip("\r\n")
            if not rest.endswith(tail):
                bad("text after the section changed in update %d: %r, was %r" % (k + 1, rest[-80:], post[:80]))
                break
            sect = rest[: len(rest) - len(tail)]
            if sect.count(START) != 1 or sect.count(END) != 1 or sect.index(START) > sect.index(END):
                bad("update %d leaves %d start and %d end markers" % (k + 1, t.count(START), t.count(END)))
                break
            before, sect, after = sect[: sect.index(START)], sect[sect.index(START): sect.index(END)], sect[sect.index(END) + len(END):]
            if after.strip("\r\n") or (body and before) or (tail and not after.startswith(("\n", "\r\n"))):
                bad("update %d adds %r and %r around the section" % (k + 1, before, after))
                break
            if not body and (not before.startswith("\n") or "## Performance comparison" not in before):
                bad("the appended section has no heading of its own: %r" % before)
                break
            if body and "indented" in sect:
                bad("old section content survives")
                break
            frames.append((before, after))
            want = len((ds[0] if k < 2 else ds[1])[1])
            if len(parse(sect)) != want:
                bad("update %d shows %d rows of %d benchmarks" % (k + 1, len(parse(sect)), want))
                break
        else:
            if strip_time(seq[0][2]) != strip_time(seq[1][2]):
                bad("the same update applied twice changes the document")
            rep.count("idempotent")
            if frames[0] != frames[2]:
                bad("a later update changes text outside the section")
    # an update which fails leaves everything as it was, and no update touches another file
    fails = []
    for i in range(n_(32, 300)):
        pre, body, post, text = doc(rng, i % 4)
        e, docs = reports(rng)
        home = os.path.join(run.scratch(), "h%d" % i)
        os.makedirs(home)
        write(docs, os.path.join(home, "b"))
        raw = text.encode()
        what = "good"
        if i % 4 == 1:
            raw, what = raw + b"\xff\xfe not utf-8", "a document in another encoding"
        elif i % 4 == 2:
            raw, what = None, "no document"
        elif i % 4 == 3:
            what = "a report which is " + damage(rng, os.path.join(home, "b"))
        if raw is not None:
            with open(os.path.join(home, "README.md"), "wb") as f:
                f.write(raw)
        for other in ("README.md.txt", "CHANGELOG.md"):
            with open(os.path.join(home, other), "wb") as f:
                f.write(raw or b"other")
        fails.append((home, what, state(home)))
    with run.ThreadPoolExecutor(run.NPROC) as ex:
        res = list(ex.map(lambda j: cli(os.path.join(j[0], "b"), os.path.join(j[0], "README.md")), fails))
    for (home, what, was), (rc, err) in zip(fails, res):
        now = state(home)
        rep.seen(home)
        if what == "good":
            rep.count("other_files")
            was.pop("README.md"), now.pop("README.md", None)
        else:
            rep.count("failed_updates")
        wrong = [z for z in sorted(set(was) | set(now)) if was.get(z) != now.get(z)]
        if (rc == 0) != (what == "good") or wrong:
            rep.violate("readme: %s: exit %d, other contents of %r" % (what, rc, wrong), {"what": what, "err": err, "before": {k: repr(v) for k, v in was.items()}, "after": {k: repr(now.get(k)) for k in wrong}})
    rep.need("failed_updates", n_(32, 300) * 3 // 4)
    rep.need("other_files", n_(32, 300) // 4)
    rep.need("documents", n)
    rep.need("with_section", n // 3)
    rep.need("without_section", n // 3)
    rep.need("foreign_line_endings", n // 4)
    rep.need("stray_end_marker", n // 6)
    rep.need("stray_start_marker", n // 6)
