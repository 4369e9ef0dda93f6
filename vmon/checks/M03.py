"""M03 three way merging: each side's changes arrive, conflicts are decided and recorded, the operands stay as they are."""
import os, random, re
from .. import ldmlgen as g
from ..ldmlrun import *
from ..family import *
from .. import scriptrun

PID = "M03"
RULE = ("a base document and two independently edited versions (text and attribute edits, removals and additions at any depth, whole sections, ordered rule "
        "lists) are merged; every item of the result is compared with a per item three way model and the other operands are compared with their saved form "
        "before; non-trivial = changes from both sides and a conflict")
ANCHORS = ["lib/sldr/ldml_merge.py", "lib/sldr/ldml.py", "scripts/ldmlmerge"]
REQUIRES = {"used before": 1000, "comment copied": 2000, "comment copied to container": 1000, "item": 20000, "only-theirs": 3000, "only-ours": 3000, "conflict": 1000, "clash-recorded": 500, "edit-vs-delete": 500,
            "attribute": 500, "rules": 100, "both-added": 200, "null-merge": 100, "tool": 200}
NOTE = "fx:note"


def gen(rng):
    u = universe(rng, rng.choice([10, 25, 50, 80]))
    if rng.random() < .35:
        u[3][:] = [c for c in u[3] if c[0] != "segmentations"]
        u[3].append(["segmentations", {}, None, [["segmentation", {"type": "LineBreak"}, None, [["variables", {}, None, [
            ["variable", {"id": "$v%d" % i}, "r%d" % i, [], []] for i in rng.sample(range(1, 30), rng.randint(3, 8))], []]], []]], []])
    lv = [p for p, _ in leaves(u)]
    ops = {}
    p = rng.choice([.1, .25, .5])
    val = lambda s, b: g.near(rng, b) if b and rng.random() < .25 else rng.choice(["same%d" % rng.randint(0, 1), "%s%d" % (s, rng.randint(0, 999)), "%s line\n& two" % s, ""])
    dels = {}
    conts = sorted({x[:i] for x in lv for i in range(1, len(x))})
    for s in "to":
        dels[s] = rng.sample(conts, 1) if conts and rng.random() < .3 else []
    for i, k in enumerate(lv):
        b = [rng.choice(["b%d" % i, "b%d" % i, "same0", "b line\n%d" % i, "b line\nand\n%d" % i, "two words%d" % i, ""]), rng.choice([None, None, None, "n", "m"])] if rng.random() < .75 else None
        row = dict(b=b)
        for s in "to":
            v = list(b) if b else None
            if any(k[:len(c)] == c for c in dels[s]) and rng.random() < .9:
                v = None
            elif rng.random() < p:
                if b is None:
                    v = [val(s, None), rng.choice([None, None, "n"])]
                else:
                    w = rng.random()
                    if w < .3:
                        v = None
                    else:
                        if w < .85:
                            v[0] = val(s, b[0])
                        if w > .75:
                            v[1] = rng.choice([None, "n", "m", "o"])
            row[s] = v
        ops[i] = row
    c = dict(u=u, rows=[ops[i] for i in range(len(lv))], drafts=rng.random() < .6, default=rng.choice([None, "proposed"]),
                winner=rng.choice([None, None, "this", "other"]), nobase=rng.random() < .1, null=rng.random() < .08, fmt=rng.randint(0, 1 << 30))
    c["comments"] = rng.choice(["base", "other"]) if c["drafts"] and not c["nobase"] and not c["null"] and rng.random() < .3 else None
    if not c["nobase"] and rng.random() < .2:
        c.update(tool=rng.choice(["stdout", "file", "file", "over"]), drafts=True, default="proposed")
    return c


KINDS = {"threeway": (gen, 2500, 40000)}


def build(u, rows, side):
    it = iter(rows)

    def rec(e):
        kids = []
        for c in e[3]:
            if c[3]:
                n = rec(c)
                if n[3]:
                    kids.append(n)
            else:
                v = next(it)[side]
                if v is not None:
                    a = dict(c[1])
                    if v[1]:
                        a[NOTE] = v[1]
                    kids.append([c[0], a, v[0] or None, [], []])
        return [e[0], dict(e[1]), e[2], kids, []]
    t = rec(u)
    t[3].insert(0, ["identity", {}, None, [["language", {"type": "aa"}, None, [], []]], []])
    return t


def annotate(t, side, path=()):
    """ a comment on everything """
    for c in t[3]:
        p = path + (g.key_of(c),)
        if p[0][0] != "identity":
            c[4][:] = [remark(side, p)]
            annotate(c, side, p)


def remark(side, p):
    return "%s says %s" % (side, " ".join("/".join(re.findall("[a-zA-Z0-9]+", repr(x))) for x in p))


def comments(t, path=()):
    for c in t[3]:
        p = path + (g.key_of(c),)
        yield p, c[4]
        yield from comments(c, p)


def items(t):
    """ {leaf path: [text, note, comments]} """
    return {p: [g.norm_text(c[2]) or "", c[1].get(NOTE), c[4]] for p, c in leaves(t)}


def tool(case, xml, mon):
    """ The same merge by the command line tool """
    mon.event("tool")
    try:
        names = [os.path.join(mon.tmp, n) for n in ("this.xml", "other.xml", "base.xml")]
        for n, x in zip(names, xml):
            with open(n, "w", encoding="utf-8") as f:
                f.write(x)
        out = os.path.join(mon.tmp, "out.xml") if case["tool"] == "file" else names[0]
        args = [names[0], names[2], names[1]]
        if case["winner"]:
            args += ["-w", case["winner"]]
        if case["comments"]:
            args += ["-C", case["comments"]]
        if case["tool"] != "stdout":
            args += ["-o", out]
        before = scriptrun.snapshot(mon.tmp)
        rc, so, se = scriptrun.run("ldmlmerge", args, mon.tmp)
        if not mon.expect(rc == 0, "tool-fails", lambda: "%r: %r %s" % (args, rc, se[-800:])):
            return None
        after = scriptrun.snapshot(mon.tmp)
        res = so if case["tool"] == "stdout" else after.pop(os.path.basename(out)).decode("utf-8")
        mon.expect(all(after[n] == before[n] for n in after), "operand-changed", "a file the tool merges was changed")
        return res
    finally:
        mon.cleartmp()


def check(case, mon):
    u, rows = case["u"], case["rows"]
    u = tree(u)
    paths = [p for p, _ in leaves(u)]
    if case["null"]:
        rows = [dict(r, o=r["b"]) for r in rows]
        mon.event("null-merge")
    rng = random.Random(case["fmt"])
    T, O, B = [build(u, rows, s) for s in "tob"]
    if case["comments"]:
        annotate(O, "other")
        annotate(B, "base")
    xml = [g.to_xml(x, rng, shuffle_atts=True, shuffle_kids=SERIAL) for x in (T, O, B)]
    dt, do, db = [load(x, cls=LdmlMerge, usedrafts=case["drafts"]) for x in xml]
    dt.winner = case["winner"]
    if not case.get("tool"):
        for d in (dt, do, db):
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                mon.event("used before")
                rng.choice([d.normalise, lambda: d.normalise(addguids=False), lambda: d.normalise(usedrafts=case["drafts"]), lambda: save(d)])()
    so, sb, st, res = save(do), save(db), save(dt), True
    if case.get("tool"):
        out = tool(case, xml, mon)
        if out is None:
            return
    elif case["nobase"]:
        res = dt.merge(do, None, default=case["default"])
    else:
        res = dt.merge(do, db, default=case["default"], **({"copycomments": case["comments"]} if case["comments"] else {}))
    if not case.get("tool"):
        dt.normalise(usedrafts=case["drafts"])
        out = save(dt)
        if not case["comments"]:
            # comments record clashes, which are no changes
            mon.event("said unchanged", not res)
            a, b = [g.strip_comments(g.from_xml(x)) for x in (st, out)]
            mon.expect(res or a == b, "unsaid-change", lambda: "%s" % g.deep_diff(a, b))
    out = g.from_xml(out)
    have = items(out)
    com = g.all_comments(out)
    mon.expect(save(do) == so and save(db) == sb, "operand-changed", "by the merge")
    conts = {s: {p[:i] for p, r in zip(paths, rows) if r[s] is not None for i in range(1, len(p))} for s in "tob"}
    both = set()
    for p, r in zip(paths, rows):
        b, t, o = [None if r[s] is None else [g.norm_text(r[s][0]) or "", r[s][1]] for s in "bto"]
        if case["nobase"]:
            b = None
        mon.event("item")
        h = have.get(p)
        got = None if h is None else h[:2]
        d = lambda: "%r: base %r ours %r theirs %r gave %r" % (p, b, t, o, h)
        if case["winner"] == "other" and t is not None and t != b and not case["nobase"] and any(
                p[:i] in conts["b"] and p[:i] in conts["t"] and p[:i] not in conts["o"] for i in range(1, len(p))):
            mon.expect(got is None, "winner-ignored", d)
            continue
        if case["comments"] and r["t"] == r["b"] == r["o"] and b is not None and case["winner"] != "other":
            mon.event("comment copied")
            mon.expect(h is not None and h[2] == [remark(case["comments"], p)], "comment-not-copied", lambda: "%r has the comments %r, not %s's" % (p, h, case["comments"]))
        if t == b and o == b or t == o:
            mon.expect(got == t, "untouched-item-changed", d)
        elif t == b:
            both.add("o")
            mon.event("only-theirs")
            mon.expect(got == o, "their-change-lost", d)
        elif o == b:
            both.add("t")
            mon.event("only-ours")
            mon.expect(got == t, "our-change-lost", d)
        elif b is None:
            mon.event("both-added")
            mon.expect(got is not None and got[0] in (t[0], o[0]), "added-item-lost", d)
        elif t is None or o is None:
            mon.event("edit-vs-delete")
            want = None if o is None and case["winner"] == "other" else t if o is None else o
            mon.expect(got == want, "edit-vs-delete", d)
        else:
            mon.event("conflict")
            both.add("c")
            for i, what in ((0, "text"), (1, "attribute")):
                if what == "attribute" and case["drafts"] and t[0] != b[0]:
                    continue            # a text clash among drafts leaves the attributes as ours
                if what == "attribute" and not (b[i] == t[i] == o[i]):
                    mon.event("attribute")
                w = o[i] if t[i] == b[i] else t[i]
                dd = t[i] != o[i] and t[i] != b[i] and o[i] != b[i]
                if what == "attribute" and dd and o[i] is None:
                    continue            # one removed an attribute the other changed: either
                if what == "attribute" and dd and t[i] is None:
                    continue
                mon.expect(got is not None and got[i] == w, "conflict-" + what, d)
                if dd:
                    mon.event("clash-recorded")
                    mon.expect(any(nt(x) in nt(c) for x in [t[i]] for c in com if nt(o[i]) in nt(c)), "clash-not-recorded", d)
        mon.state("situations", case["drafts"], case["winner"], len(p), [None if x is None else [k == y for k, y in zip(x, b or [0, 0])] for x in (t, o)],
                  t == o, b is None)
    if case["comments"]:
        allof = {s: {p[:i] for p, r in zip(paths, rows) if r[s] is not None for i in range(1, len(p))} for s in "tob"}
        for p, cs in comments(out):
            if p in allof["t"] and p in allof["o"] and p in allof["b"]:
                mon.event("comment copied to container")
                mon.expect(cs == [remark(case["comments"], p)], "comment-not-copied", lambda: "%r has the comments %r, not %s's" % (p, cs, case["comments"]))
    ex = [p for p in have if p not in set(paths) and p[0][0] != "identity" and have[p][0]]
    mon.expect(not ex, "item-from-nowhere", lambda: repr(ex[:2]))
    # ordered lists
    order = lambda x: [c[1].get("id") for s in x[3] if s[0] == "segmentations" for a in s[3] for b in a[3] for c in b[3] if c[0] == "variable"]
    if order(u) and not case["nobase"]:
        mon.event("rules")
        full = order(u)
        ours, res = order(T), order(out)
        kept = [x for x in res if x in ours]
        mon.expect(kept == [x for x in ours if x in res], "rule-order", lambda: "ours %r result %r" % (ours, res))
        new = [x for x in res if x not in ours]
        mon.expect(new == [x for x in order(O) if x in new], "rule-order-theirs", lambda: "theirs %r result %r" % (order(O), res))
    # the result shares nothing with the operands
    for e in dt.root.iter():
        if e.text and not len(e):
            e.text = "scribble"
        e.set("scribble", "1")
    mon.expect(save(do) == so and save(db) == sb, "operand-shared", "editing the result changed an operand")
    if {"t", "o", "c"} <= both:
        mon.substantive(case["fmt"])
    mon.sample(dict(items=len(rows), drafts=case["drafts"], result=list(have.items())[:2]))


def nt(x):
    return (x or "").strip()


def tree(x):
    return [x[0], dict(x[1]), x[2], [tree(c) for c in x[3]], x[4]]
