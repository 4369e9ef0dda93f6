"""S02 filling a sheet from a document shows the document's values, and the sheet turns back into them."""
import os, random
from sldr.sheet import Sheet
from .. import ldmlgen as g, odsgen, sheetmodel as sm
from ..ldmlrun import *
from .S01 import TEMPLATE, convert, fill, script, sm_strip

PID = "S02"
RULE = ("random spreadsheets (single and attribute-only entries and tables; blank or already filled cells; written in the ways spreadsheet "
        "programs write cells) filled from random LDML documents holding some of their entries and others besides; and the shipped sheet. "
        "Non-trivial = at least 3 values shown, distinct by content")
ANCHORS = ["lib/sldr/sheet.py", "lib/sldr/ldml.py"]
REQUIRES = {"filled": 200, "shown": 1000, "back": 200, "untouched": 2000, "template": 3, "script": 50}


def gen_fill(rng):
    return dict(seed=rng.randint(0, 1 << 40), n=rng.choice([2, 6, 20]), fill=rng.choice([0, 0, .2, .8]), rich=rng.random() < .8,
                have=rng.choice([.2, .6, 1]), sheets=rng.choice([1, 1, 2, 3]))


KINDS = {"fill": (gen_fill, 900, 12000)}


def FIXED():
    return [dict(kind="template", seed=i, have=f) for i, f in enumerate([0, .3, .6, 1])]


def document(rng, items, have):
    """ A document with some of the items and some other entries: (tree, {path key: text}) """
    entries = {}
    for p in items:
        if rng.random() < have:
            v = rng.choice([x for x in sm.VALUES if x.strip()])
            if isinstance(p, tuple):
                k = sm.parts(p[0])
                k = k[:-1] + ((k[-1][0], ((p[1], rng.choice(["en", "Latn", "KE"])),)),)
                entries[k] = None
            else:
                entries[sm.parts(p)] = v
    for p in rng.sample(sm.TEXTS, 6):
        k = sm.parts(p % "zz" if "%s" in p else p)
        if p.endswith('%s"]') and k not in entries and k[-1][1][-1][1] == "zz":
            entries[k] = "other"
    root = ["ldml", {}, None, [], []]
    for k, v in entries.items():
        e = root
        for tag, att in k:
            for c in e[3]:
                if c[0] == tag and c[1] == dict(att):
                    break
            else:
                c = [tag, dict(att), None, [], []]
                e[3].append(c)
            e = c
        e[2] = v
    return root, entries


def shown(t):
    """ What a spreadsheet can show of a text """
    return t


def check(case, mon):
    rng = random.Random(case["seed"])
    sheets, models = [], []
    if case["kind"] == "template":
        mon.event("template")
        for name, rows in odsgen.read(TEMPLATE):
            if name in ("Core", "Basic"):
                models.append(fill(rows, rng, 0))
                rows = models[-1].rows
            sheets.append((name, rows))
    else:
        used = set()
        for name in sorted(rng.sample(["Core", "Posix", "Minimal", "Basic"], case["sheets"])):
            m = sm.Sheet(rng, case["fill"])
            m.used = used
            m.make(case["n"])
            m.blank()
            if m.open:
                m.single()
                m.blank()
            models.append(m)
            sheets.append((name, m.rows))
        if rng.random() < .5:
            sheets.insert(rng.randint(0, len(sheets)), ("Notes", sm.Sheet(rng, 1).make(4).rows))
    ods, out, back = (os.path.join(mon.tmp, f) for f in ("in.ods", "out.ods", "in.xml"))
    odsgen.write(ods, sheets, rng, rich=case.get("rich", True))
    tree, entries = document(rng, [p for m in models for _, _, p in m.items], case["have"])
    with open(back, "w", encoding="utf-8") as f:
        f.write(g.to_xml(tree))
    if rng.random() < .3:
        script(mon, "-o", out, ods, back)
    else:
        s = Sheet(None, ods, back)
        s.process()
        s.writeods(out)
    mon.event("filled")
    # the cells that should be shown
    want = [(n, [sm_strip(r) for r in rows]) for n, rows in sheets]
    byname = dict(want)
    cells = {}
    for (name, _), m in zip([x for x in sheets if x[0] in ("Core", "Posix", "Minimal", "Basic")], models):
        for r, c, p in m.items:
            if isinstance(p, tuple):
                k = sm.parts(p[0])
                v = [dict(x[-1][1])[p[1]] for x in entries if x[:-1] == k[:-1] and x[-1][0] == k[-1][0]]
                v = v[0] if v else None
            else:
                v = entries.get(sm.parts(p))
            if v is not None:
                row = byname[name][r]
                row.extend([""] * (c + 1 - len(row)))
                row[c] = v
                cells[name, r, c] = p
    got = dict(odsgen.read(out))
    mon.expect(list(got) == [n for n, _ in want], "sheets", "%r became %r" % ([n for n, _ in want], list(got)))
    for name, rows in want:
        have = got.get(name, [])
        if len(have) != len(rows):
            return mon.violation("rows", "%s has %d rows not %d" % (name, len(have), len(rows)))
        for r, (a, b) in enumerate(zip(rows, have)):
            for c in range(max(len(a), len(b))):
                x, y = (l[c] if c < len(l) else "" for l in (a, b))
                p = cells.get((name, r, c))
                mon.event("shown" if p else "untouched")
                if (g.norm_text(x) or "") != (g.norm_text(y) or ""):
                    return mon.violation("notshown" if p else "disturbed", "%s row %d column %d (%s) is %r not %r; row was %r, is %r" % (
                        name, r + 1, c + 1, p, y, x, a, b))
    # and back
    tot = {}
    for (name, _), m in zip([x for x in sheets if x[0] in ("Core", "Posix", "Minimal", "Basic")], models):
        tot.update(m.entries(byname[name]))
    xml = convert(mon, ods=out, byscript=rng.random() < .2)
    with open(xml, "rb") as f:
        res = {k: [g.norm_text(t) for t in v] for k, v in sm.leaves(g.from_xml(f.read())).items()}
    tot = {k: [g.norm_text(v) if v else None] for k, v in tot.items()}
    res = {k: v for k, v in res.items() if v != [None] or k in tot}
    mon.event("back")
    mon.expect(res == tot, "back", lambda: "only in the sheet %r; only in the document %r" % (
        [x for x in tot.items() if x not in res.items()][:3], [x for x in res.items() if x not in tot.items()][:3]))
    if len(cells) > 2:
        mon.substantive(sorted((k, repr(v)) for k, v in cells.items()))
    mon.sample(dict(kind=case["kind"], sheets=len(sheets), shown=len(cells)))
