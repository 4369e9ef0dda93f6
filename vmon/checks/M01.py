"""M01 flattening: each value is the one of the nearest locale in the fallback chain that states it."""
import os
from .. import ldmlgen as g
from ..ldmlrun import *
from ..family import *

PID = "M01"
RULE = ("families of locale files (truncation chains, declared parents, missing files, scripts, inherit marks, fonts, alphabetic and split "
        "directories) are written to disk and every locale is flattened; each entry of the written result is compared with the value found by "
        "walking the fallback chain in an independent model; non-trivial = at least one value inherited over two or more steps")
ANCHORS = ["lib/sldr/ldml_merge.py", "lib/sldr/ldml.py"]
REQUIRES = {"entry": 20000, "inherited": 5000, "inherited-far": 1000, "arrows": 300, "fonts-compared": 300, "collations": 500,
            "skipped-script": 50, "not-changed": 50, "fallback-element": 50, "declared-parent": 300}


def gen(rng):
    c = gen_family(rng, drafts=rng.choice([0, .3]), alts=rng.choice([0, 0, .2]), empties=rng.choice([0, .1, .3]), notes=rng.choice([0, 0, .2]))
    if rng.random() < .25:
        fs = dict(c["files"])
        l = rng.choice([n for n in fs if n != "root"] or ["root"])
        fb = [n for n in rng.sample(c["names"], min(2, len(c["names"]))) if n not in (l, "root")]
        if l != "root" and fb:
            fs[l][3].append(["fallback", {}, " ".join(fb), [], []])
            c["fallback"] = [l, fb]
    if rng.random() < .3:
        c["changed"] = rng.sample(c["names"], rng.randint(1, 2))
    return c


KINDS = {"family": (gen, 2500, 40000)}


def check(case, mon):
    files = files_of(case)
    conts = containers(files.values())
    trees = {n: drop_arrows(t) for n, t in files.items()}
    mon.event("arrows", sum(1 for t in files.values() for _, e in g.walk(t) if e[2] == "\u2191\u2191\u2191"))
    top = os.path.join(mon.tmp, "fam")
    dirs = write_family(case, top)
    far = 0
    try:
        for l in sorted(files):
            fb = case["fallback"][1] if case.get("fallback", [None])[0] == l else None
            if l in parents() or any(c in parents() for c in chain(l)):
                mon.event("declared-parent")
            us = usable(l, trees, fb)
            mon.event("skipped-script", len([c for c in chain(l, fb) if c in trees]) - len(us))
            mon.state("chains", l, us, fb)
            ch = set(case.get("changed", ()))
            d = flattenlocale(l, dirs=dirs, rev="f", changed=ch)
            if ch:
                first = (fb or [parent(l)]) + ["root"]
                if not ch & set(chain(l, fb)):
                    mon.expect(d is None, "flattened-though-unchanged", "%s %s" % (l, ch))
                    mon.event("not-changed")
                    continue
                if ch & set(first) and l != "root":
                    if not mon.expect(d is not None, "not-flattened-though-changed", "%s %s" % (l, ch)):
                        continue
                if d is None:
                    continue
            d.normalise()
            out = save(d)
            got = g.from_xml(out)
            want = {}
            level = {}
            for i, c in enumerate([l] + us):
                for p, v in entrymap(trees[c]).items():
                    # an entry of a nearer locale hides everything stated at the same place further away
                    if p in conts:
                        mon.event("empty-container")
                    elif p not in want:
                        want[p] = v
                        level[p] = i
            if fb:
                mon.event("fallback-element")
            have = {p: v for p, v in entrymap(got).items() if p not in conts}
            mon.event("entry", len(want))
            mon.event("inherited", sum(1 for i in level.values() if i))
            n = sum(1 for i in level.values() if i > 1)
            mon.event("inherited-far", n)
            far += n
            for p in want:
                if p not in have:
                    mon.violation("entry-missing", "%s: %r of %s" % (l, p, ([l] + us)[level[p]]))
                    break
                if have[p].get(None) != want[p].get(None) or sorted(map(str, have[p])) != sorted(map(str, want[p])) or have[p] != want[p]:
                    if None not in want[p]:
                        continue        # only alternates stated: which one leads is decided on load
                    mon.violation("entry-wrong", "%s: %r is %r, should be %r of %s" % (l, p, have[p], want[p], ([l] + us)[level[p]]))
                    break
            ex = [p for p in have if p not in want]
            mon.expect(not ex, "entry-from-nowhere", lambda: "%s: %r" % (l, ex[:2]))
            wf, wo = [], {}
            for c in [l] + us:
                f, o = fonts_of(trees[c])
                wf = inherit_fonts(wf, f)
                for k, v in o.items():
                    wo.setdefault(k, v)
            hf, ho = fonts_of(got)
            mon.event("fonts-compared", bool(wf))
            mon.expect(sorted(map(tupsort, hf)) == sorted(map(tupsort, wf)) and ho == wo, "resources-wrong",
                       lambda: "%s: %r %r should be %r %r" % (l, hf, ho, wf, wo))
            same_block(l, trees[l], got, mon)
            wc = {}
            for c in [l] + us:
                for k, v in collmap(trees[c]).items():
                    wc.setdefault(k, v)
            hc = collmap(got)
            mon.event("collations", len(wc))
            mon.expect(hc == wc, "collation-wrong", lambda: "%s: %r should be %r" % (l, hc, wc))
    finally:
        mon.cleartmp()
    if far:
        mon.substantive(case["fmt"], sorted(files))
    mon.sample(dict(files=sorted(files), layout=case["layout"], fallback=case.get("fallback")))


def tupsort(f):
    return (f[0], sorted(f[1]), f[2])


def same_block(l, mine, got, mon):
    """ identity and the locale's own collations are its own """
    def block(t, tag):
        return [g.unordered(normtree(drop_drafts(c, "unconfirmed")), SERIAL) for c in t[3] if c[0] == tag]
    d = g.deep_diff(["x", {}, None, block(mine, "identity"), []], ["x", {}, None, block(got, "identity"), []])
    mon.expect(d is None, "identity-changed", d or "")
