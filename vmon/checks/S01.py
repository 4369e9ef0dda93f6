"""S01 a data entry sheet becomes an LDML document with exactly what the sheet says."""
import csv, os, random, runpy, sys
from lxml import etree
from sldr.sheet import Sheet
from .. import ldmlgen as g, odsgen, sheetmodel as sm
from ..ldmlrun import *

PID = "S01"
RULE = ("random sheets of single entries, attribute-only entries and the four kinds of table (hostile values, blanks, ragged rows, "
        "headings, repeats), as TSV files and as spreadsheets written in the ways spreadsheet programs write cells (runs of equal cells, "
        "styled pieces, runs of spaces, line breaks, annotations, numbers, several sheets); plus the shipped sheet filled in. "
        "Non-trivial = at least 3 entries, distinct by content")
ANCHORS = ["lib/sldr/sheet.py", "lib/sldr/ldml.py"]
REQUIRES = {"compared:tsv": 300, "compared:ods": 200, "entry": 3000, "template": 3, "script": 100}
TEMPLATE = os.path.join(os.path.dirname(g.LIB), "data", "LDML_entry.ods")


def gen_tsv(rng):
    return dict(seed=rng.randint(0, 1 << 40), n=rng.choice([2, 6, 20]), fill=rng.choice([.3, .7, 1]), ragged=rng.random() < .5)


def gen_ods(rng):
    return dict(seed=rng.randint(0, 1 << 40), n=rng.choice([2, 6, 20]), fill=rng.choice([.3, .7, 1]), rich=rng.random() < .8,
                sheets=rng.choice([1, 1, 2, 3]))


KINDS = {"tsv": (gen_tsv, 1000, 15000), "ods": (gen_ods, 700, 10000)}


def FIXED():
    return [dict(kind="template", seed=i, fill=f) for i, f in enumerate([0, .1, .3, .6, .9, 1])]


def compare(mon, kind, want, path, detail):
    with open(path, "rb") as f:
        out = f.read()
    try:
        got = {k: [g.norm_text(t) for t in v] for k, v in sm.leaves(g.from_xml(out)).items()}
    except etree.XMLSyntaxError as e:
        return mon.violation("ill-formed", "%s\n%s\n%s" % (e, detail, out.decode()[:1500]))
    want = {k: [g.norm_text(v) if v else None] for k, v in want.items()}
    # a group all of whose values are missing may be there without any
    got = {k: v for k, v in got.items() if v != [None] or k in want}
    mon.event("compared:" + kind)
    mon.event("entry", len(want))
    for k in want:
        if k not in got:
            mon.violation("lost", "%r (%r) is not in the document\n%s\n%s" % (k, want[k], detail, out.decode()[:1500]))
        elif got[k] != want[k]:
            mon.violation("changed", "%r is %r not %r\n%s\n%s" % (k, got[k], want[k], detail, out.decode()[:1500]))
        else:
            continue
        return
    more = [k for k in got if k not in want]
    mon.expect(not more, "invented", lambda: "%r = %r\n%s\n%s" % (more[0], got[more[0]], detail, out.decode()[:1500]))
    if len(want) > 2:
        mon.substantive(sorted(want.items(), key=repr))


def script(mon, *args):
    """ the command line tool, run in this process """
    old = sys.argv
    sys.argv = ["sheetldml"] + list(args)
    try:
        runpy.run_path(os.path.join(os.path.dirname(g.LIB), "scripts", "sheetldml"), run_name="__main__")
    except SystemExit as e:
        mon.expect(not e.code, "exit", "sheetldml %r left with %r" % (args, e.code))
    finally:
        sys.argv = old
    mon.event("script")


def convert(mon, tsv=None, ods=None, byscript=False):
    out = os.path.join(mon.tmp, "out.xml")
    if byscript:
        if tsv:
            script(mon, "-t", tsv, out)
        else:
            script(mon, ods, out)
        return out
    s = Sheet(tsv, ods, None)
    s.process()
    s.writeldml(out)
    return out


def fill(rows, rng, prob):
    """ fill in the shipped sheet as its rows say; returns the model """
    m = sm.Sheet(rng, prob)
    m.rows = [list(r) for r in rows]
    i = 0

    def put(r, c, p):
        row = m.rows[r]
        row.extend([""] * (c + 1 - len(row)))
        if row[c] == "" or rng.random() < prob:
            row[c] = m.value() if not isinstance(p, tuple) else rng.choice(["", "en", "Latn", "KE"])
        m.item(r, c, p)

    while i < len(rows):
        t = rows[i][1] if len(rows[i]) > 1 else ""
        if '[@type=""]' in t:       # worked out by the spreadsheet from other cells
            t = m.rows[i][1] = t.replace('""', '"aa"')
        if t.startswith("table") and "(" in t:
            kind, pats = t[:-1].split("(", 1)
            head, first = i, None
            i += 1
            while i < len(rows):
                r = rows[i]
                k = r[1] if len(r) > 1 else ""
                if (k == "") != (kind == "table2dx"):
                    break
                if kind == "table1d":
                    put(i, 3, pats.replace("$row", k))
                elif kind == "table2dx":
                    for n, p in enumerate(pats.split(",")):
                        if len(r) > 2 and r[2]:
                            put(i, 3 + n, p.replace("$row", r[2]))
                else:
                    for n, c in enumerate(rows[head][3:]):
                        if c == "":
                            break
                        put(i, 3 + n, pats.replace("$row", k).replace("$col", c))
                i += 1
            continue
        if t:
            put(i, 3, (t[:t.rindex("[@")], t[t.rindex("[@") + 2:-1]) if t.endswith("]") and "=" not in t[t.rindex("[@"):] else t)
        i += 1
    return m


def check(case, mon):
    rng = random.Random(case["seed"])
    if case["kind"] == "template":
        sheets, models = [], []
        for name, rows in odsgen.read(TEMPLATE):
            if name in ("Core", "Basic"):
                models.append(fill(rows, rng, case["fill"]))
                rows = models[-1].rows
            sheets.append((name, rows))
        p = os.path.join(mon.tmp, "in.ods")
        odsgen.write(p, sheets, rng, rich=True)
        want = {}
        for m in models:
            want.update(m.entries())
        mon.event("template")
        compare(mon, "template", want, convert(mon, ods=p), "shipped sheet")
        return
    if case["kind"] == "tsv":
        m = sm.Sheet(rng, case["fill"]).make(case["n"])
        p = os.path.join(mon.tmp, "in.tsv")
        rows = [list(r) for r in m.rows]
        w = max([len(r) for r in rows] + [1])
        for r in rows:
            if case["ragged"]:
                while r and r[-1] == "" and rng.random() < .7:
                    r.pop()
            else:
                r.extend([""] * (w - len(r)))
        with open(p, "w", newline="", encoding="utf-8") as f:
            csv.writer(f, dialect="excel-tab").writerows(rows)
        compare(mon, "tsv", m.entries(), convert(mon, tsv=p, byscript=rng.random() < .3), repr(rows)[:1500])
        mon.sample(dict(kind="tsv", rows=len(rows), entries=len(m.entries())))
        return
    names = ["Core", "Posix", "Minimal", "Basic"]
    sheets, models, used = [], [], set()
    for name in sorted(rng.sample(names, case["sheets"])):
        m = sm.Sheet(rng, case["fill"])
        m.used = used
        m.make(case["n"])
        m.blank()
        if m.open:
            m.single()
            m.blank()
        models.append(m)
        sheets.append((name, m.rows))
    if rng.random() < .5:
        other = sm.Sheet(rng, 1).make(4)
        sheets.insert(rng.randint(0, len(sheets)), (rng.choice(["Notes", "core", "Core2"]), other.rows))
    p = os.path.join(mon.tmp, "in.ods")
    odsgen.write(p, sheets, rng, rich=case["rich"])
    back = [(n, [sm_strip(r) for r in rows]) for n, rows in odsgen.read(p)]
    assert back == [(n, [sm_strip(r) for r in rows]) for n, rows in sheets], "spreadsheet writer"
    want = {}
    for m in models:
        want.update(m.entries())
    compare(mon, "ods", want, convert(mon, ods=p, byscript=rng.random() < .3), repr(sheets)[:1500])
    mon.sample(dict(kind="ods", sheets=[n for n, _ in sheets], entries=len(want)))


def sm_strip(r):
    r = list(r)
    while r and r[-1] == "":
        r.pop()
    return r
