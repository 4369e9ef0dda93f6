"""L11 finding the file of a locale in the directories where locale files are kept."""
import os
from sldr import ldml as ldmlmod
from sldr import ldml_merge
from ..ldmlrun import *

PID = "L11"
RULE = ("random trees of one to four directories with files of many locales in them, in first-letter directories, in other places and under names "
        "which nearly match; every lookup's document is recognised by the mark its file carries and compared with the one the layout gives; "
        "non-trivial = two or more files could be taken for the one wanted")
ANCHORS = ["lib/sldr/ldml.py", "lib/sldr/ldml_merge.py"]
REQUIRES = {"found": 3000, "absent": 1500, "found among several": 1000, "found for merging": 1500, "flat before letter": 150, "listed": 10000,
            "not listed": 1500, "copied": 500}
LANGS = ["en", "fr", "abq", "sr", "zh", "EN", "Fr", "und", "root", "qaa"]
TAILS = ["", "_Latn", "_Cyrl", "_GB", "_Latn_GB", "_GB_x_a", "_Hans", "_latn", "_001"]
EXTS = [".xml", ".XML", ".xml~", ".txt", ".xml.bak", "xml", ".ldml"]


def gen(rng):
    pool = [rng.choice(LANGS) + rng.choice(TAILS) for _ in range(rng.randint(2, 6))]
    n = rng.randint(1, 4)
    files = []
    for d in range(n):
        for l in pool:
            if rng.random() < .35:
                files.append([d, l + ".xml"])
            if rng.random() < .35:
                files.append([d, "%s/%s.xml" % (l[0].lower(), l)])
            if rng.random() < .15:
                files.append([d, "%s/%s.xml" % (rng.choice(["x", l[:2] + "1", l[0].lower() + "/" + l[:2], "old", "sub/" + l[0].lower()]), l)])
            if rng.random() < .15:
                files.append([d, "%s%s%s" % (rng.choice(["", l[0].lower() + "/"]), l, rng.choice(EXTS[1:]))])
    seen = []
    for f in files:
        if f not in seen:
            seen.append(f)
    ask = []
    for l in pool + [rng.choice(LANGS) + rng.choice(TAILS) for _ in range(3)]:
        ask.append([l, rng.random() < .5])
    return dict(n=n, files=seen, ask=ask, order=rng.sample(range(n), n), trail=rng.random() < .3)


KINDS = {"tree": (gen, 900, 20000)}


def mark(doc):
    e = doc.root.find("localeDisplayNames/languages/language")
    return None if e is None else e.text


def check(case, mon):
    try:
        top = os.path.join(mon.tmp, "trees")
        real = {}
        for d in range(case["n"]):
            os.makedirs(os.path.join(top, "d%d" % d))
        for d, f in case["files"]:
            p = os.path.join(top, "d%d" % d, f)
            if os.path.isdir(p):
                continue
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            except OSError:
                continue
            m = "d%d/%s" % (d, f)
            with open(p, "w", encoding="utf-8") as o:
                o.write("<ldml><identity><version number='1'/><language type='q'/></identity><localeDisplayNames><languages>"
                        "<language type='q'>%s</language></languages></localeDisplayNames></ldml>" % m)
            real[m] = p
        sep = "/" if case["trail"] else ""
        dirs = [os.path.join(top, "d%d" % d) + sep for d in case["order"]]
        before = snapshot(top)
        for name, hyphen in case["ask"]:
            cands = ["d%d/%s.xml" % (d, name) for d in case["order"]]
            letter = ["d%d/%s/%s.xml" % (d, name[0].lower(), name) for d in case["order"]]
            both = [x for x in cands + letter if x in real]
            exp = both[0] if both else None
            got = ldmlmod.getldml(name.replace("_", "-") if hyphen else name, dirs)
            judge(mon, "", name, got, exp)
            if len(both) > 1:
                mon.event("found among several")
                if both[0] in cands and any(x in letter and case["order"].index(int(x[1])) < case["order"].index(int(both[0][1])) for x in both):
                    mon.event("flat before letter")
                mon.substantive(tuple(sorted(real)), name)
            # merging goes directory by directory
            byd = [x for p in zip(cands, letter) for x in p if x in real]
            exp = byd[0] if byd else None
            got = ldml_merge.getldml(name, dirs)
            judge(mon, " for merging", name, got, exp)
            if got is not None:
                mon.expect(isinstance(got, ldml_merge.LdmlMerge), "not-mergeable", name)
            got = ldml_merge.flattenlocale(name, dirs, rev="c")
            if mon.expect((got is None) == (exp is None), "flattened-other", lambda: "%s should be %r" % (name, exp)) and exp:
                mon.event("copied")
                mon.expect(mark(got) == exp, "flattened-other", lambda: "%s is %r should be %r" % (name, mark(got), exp))
        mon.expect(snapshot(top) == before, "files-changed", "")
        # all the files there are
        for i, d in enumerate(case["order"]):
            for ext in (None, ".xml", ".txt", "~"):
                e = ".xml" if ext is None else ext
                got = ldmlmod.iterate_files(dirs[i].rstrip("/")) if ext is None else ldmlmod.iterate_files(dirs[i].rstrip("/"), ext=ext)
                want = sorted(p for m, p in real.items() if m.startswith("d%d/" % d) and p.endswith(e))
                mon.event("listed", len(got))
                mon.event("not listed", sum(1 for m in real if m.startswith("d%d/" % d)) - len(want))
                mon.expect(list(got) == want, "listing", lambda: "%s: %r should be %r" % (e, got, want))
        mon.state("trees", sorted(real))
    finally:
        mon.cleartmp()
    mon.sample(dict(files=sorted(real), ask=case["ask"]))


def snapshot(top):
    return sorted((w[0], f, os.stat(os.path.join(w[0], f)).st_mtime_ns) for w in os.walk(top) for f in w[1] + w[2])


def judge(mon, what, name, got, exp):
    if exp is None:
        mon.event("absent" + what)
        mon.expect(got is None, "found-other" + what.replace(" ", "-"), lambda: "%s: nothing there, got %r" % (name, mark(got)))
    elif mon.expect(got is not None, "not-found" + what.replace(" ", "-"), lambda: "%s is in %r" % (name, exp)):
        mon.event("found" + what)
        mon.expect(mark(got) == exp, "wrong-file" + what.replace(" ", "-"), lambda: "%s: got %r, should be %r" % (name, mark(got), exp))
