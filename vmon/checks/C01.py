"""C01 a tailoring means the same after it is read and written."""
import os, random, re
import icu
from .. import collmodel as m, chars, scriptrun

PID = "C01"
RULE = ("random tailorings (chains of all four strengths, resets before an element, resets to tailored elements, expansions, comments, white space, "
        "escaped syntax characters, \\u escapes, supplementary characters) are read and written back by the library; ICU compiles both rule texts and must "
        "order every pair of a string sample the same way at the same level; non-trivial = at least two chains or an escape, an expansion or a before")
ANCHORS = ["lib/sldr/collation.py", "scripts/icupretty"]
REQUIRES = {"tailoring": 800, "pairs": 500000, "key-pairs": 60000, "escape": 3000, "wrapped": 100, "tool": 60, "dot": 50}


def gen(rng):
    l, r, used, bases = m.tailoring(rng, m.HOSTILE)
    return dict(kind="ordered", text=l, icu=r, used=used, seed=rng.randrange(1 << 30), tool=rng.random() < .15)


def gen_dot(rng):
    """ Myanmar syllables for the option which adds the dot below to killed consonants """
    cs = rng.sample([chr(x) for x in range(0x1000, 0x1021)], rng.randint(3, 7))
    l, prev = "", None
    for i, a in enumerate(cs):
        for b in rng.sample(cs, rng.randint(0, 2)):
            if rng.random() < .4 or not l:
                l += "\n&" + a
            l += " %s %s" % (rng.choice(["<", "<<", "<<<"]), a + b + ("\u103A" if rng.random() < .7 else ""))
    return dict(kind="dot", text=l.strip() or "&\u1000 < \u1000\u1001\u103A", out=rng.random() < .5)


def gen_ind(rng):
    """ chains that do not refer to each other: the default order of writing """
    # what is not tailored may be an expansion
    l, r, used, bases = m.tailoring(rng, [x for x in m.PLAIN if not set(x) & set("xyz")], hostile=rng.random() < .3, independent=True,
                                    exp=("x", "y", "xz") if rng.random() < .3 else ())
    return dict(kind="default", text=l, icu=r, used=used, bases=bases, seed=rng.randrange(1 << 30))


def gen_esc(rng):
    return dict(kind="escape", text=chars.string(rng, rng.choice([1, 3, 8, 20])))


KINDS = {"ordered": (gen, 900, 14000), "dot": (gen_dot, 60, 800), "default": (gen_ind, 500, 8000), "escape": (gen_esc, 6000, 100000)}


def pretty(text, args, out, mon):
    """ The tailoring as the pretty printing tool writes it """
    mon.event("tool")
    try:
        p = os.path.join(mon.tmp, "in.txt")
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        args = [p] + args + (["-o", os.path.join(mon.tmp, "out.txt")] if out else [])
        rc, so, se = scriptrun.run("icupretty", args, mon.tmp)
        if not mon.expect(rc == 0, "tool-fails", lambda: "%r %r: %r %s" % (args, text, rc, se[-600:])):
            return None
        if out:
            with open(os.path.join(mon.tmp, "out.txt"), encoding="utf-8", newline="") as f:
                return f.read()
        return so
    finally:
        mon.cleartmp()


def check_dot(case, mon):
    ref = icu.RuleBasedCollator(case["text"])
    out = pretty(case["text"], ["--adddot"], True, mon)
    if out is None:
        return
    try:
        col = icu.RuleBasedCollator(out)
    except icu.ICUError as e:
        mon.violation("unreadable", "%r written as %r: %s" % (case["text"], out, e))
        return
    keys = [k for k in re.findall("[\u1000-\u103A]+", case["text"])]
    for a in keys:
        for b in keys:
            mon.expect(m.level(ref, a, b) == m.level(col, a, b), "dot:order", lambda: "%r written as %r: %r %r" % (case["text"], out, a, b))
        if a.endswith("\u103A"):
            mon.event("dot")
            x, y = a[:-1] + "\u1037\u103A", a + "\u1037"
            mon.expect(m.level(col, x, y) == 0, "dot:equal", lambda: "%r written as %r: %r %r" % (case["text"], out, x, y))


def check(case, mon):
    from sldr.collation import Collation, escape, unescape
    if case["kind"] == "escape":
        s = case["text"]
        for allchars in (False, True):
            e = escape(s, allchars)
            mon.event("escape")
            mon.expect(unescape(e) == s, "escape", lambda: "%r is escaped as %r, which reads as %r" % (s, e, unescape(e)))
            if e != s:
                mon.substantive("escape", s)
        return
    if case["kind"] == "dot":
        return check_dot(case, mon)
    try:
        ref = icu.RuleBasedCollator(case["icu"])
    except icu.ICUError:
        mon.skip("not a tailoring ICU accepts")
        return
    mon.event("tailoring")
    rng = random.Random(case["seed"])
    c = Collation()
    c.parse(case["text"])
    wrap = rng.choice([0, 0, 0, 10, 40])
    if wrap:
        mon.event("wrapped")
    if case["kind"] == "ordered":
        if case.get("tool"):
            out = pretty(case["text"], [], wrap, mon)
            if out is None:
                return
        else:
            out = c.asICU(wrap=wrap, ordering=lambda x: x[1].order)
        pool = m.HOSTILE
    else:
        out = c.asICU(wrap=wrap)
        pool = m.PLAIN
    try:
        col = icu.RuleBasedCollator(out)
    except icu.ICUError as e:
        mon.violation("unreadable", "%r written as %r: %s" % (case["text"], out, e))
        return
    ss = list(pool) + [a + b for a in rng.sample(pool, 5) + case["used"][:4] for b in rng.sample(pool, 4) + case["used"][:3]]
    ss = list(dict.fromkeys(ss))
    mon.event("pairs", len(ss) * len(ss))
    if any(t in case["text"] for t in ("before", "/", "\\")) or case["text"].count("&") > 1:
        mon.substantive(case["text"])
    # the same order, and the same level between neighbours
    for cl in (ref, col):
        cl.setStrength(icu.Collator.TERTIARY)
    k1 = {s: ref.getSortKey(s) for s in ss}
    k2 = {s: col.getSortKey(s) for s in ss}
    o = sorted(ss, key=lambda s: k1[s])
    for a, b in zip(o, o[1:]):
        x, y = (k1[a] > k1[b]) - (k1[a] < k1[b]), (k2[a] > k2[b]) - (k2[a] < k2[b])
        if x != y:
            mon.violation("order", "%r written as %r: %r and %r compare as %d, not %d" % (case["text"], out, a, b, y, x))
            return
        if x and m.level(ref, a, b) != m.level(col, a, b):
            mon.violation("level", "%r written as %r: %r and %r differ at level %d, not %d" % (case["text"], out, a, b, m.level(col, a, b), m.level(ref, a, b)))
            return
    mon.event("oracle:order")
    if case["kind"] == "default" and not any(v.exp for v in c.values()):
        # the library's own sort keys agree with the tailoring
        pl = [s for s in m.PLAIN if s not in "ကáɓɨक"] + case["used"]
        for a in pl:
            for b in rng.sample(pl, 6):
                if "က" in (a, b):     # its key is lost, see C04
                    continue
                mon.event("key-pairs")
                w, g = m.level(ref, a, b), c.sortKey(a).cmp(c.sortKey(b))
                if w != g:
                    mon.violation("sort-key", "%r: the sort keys of %r and %r differ at %d, not %d" % (case["text"], a, b, g, w))
                    return
