"""L01 save -> reload fidelity, judged by an independent XML reader (libxml2)."""
import copy, os, random
from lxml import etree
from .. import ldmlgen as g
from ..ldmlrun import *

PID = "L01"
RULE = ("DTD-shaped random documents (hostile text: markup, ]]>, NBSP/NNBSP, astral, multi-line; foreign namespaces; "
        "comments; drafts) loaded and saved in both namespace placements, plus random in-memory edits before saving; "
        "non-trivial = more than 8 elements and distinct by written bytes")
ANCHORS = ["lib/sldr/ldml.py", "lib/sldr/py3xmlparser.py"]
SERIAL = g.serial_elements()
REQUIRES = {"compared:load": 100, "compared:edit": 100, "wellformed": 300, "corpus": 4}


def gen_load(rng):
    dd = rng.choice([None, None, "approved", "contributed", "suspect"])
    t = g.Gen(rng, size=rng.choice([10, 25, 60, 150]), drafts=rng.choice([0, .3]), ws=True, cr=rng.random() < .3,
              comments=rng.choice([0, .2]), default_draft=dd).document()
    if rng.random() < .3:
        t[3].append(["special", {}, None, [foreign(rng, 0)], []])
        g.prune_duplicates(t)
    return dict(tree=t, fmt=rng.randint(0, 1 << 30), usedrafts=rng.random() < .7, ns=g.gen_ns(rng),
                modes=[rng.random() < .5 for _ in range(rng.randint(1, 3))], via=rng.choice(["write", "file"]))


def gen_alts(rng):
    c = gen_load(rng)
    g.add_alternates(rng, c["tree"], rng.choice([1, 3, 8]))
    return c


def foreign(rng, d):
    tag = rng.choice(["fx:item", "fy:item", "fx:list", "sil:note", "fy:z"])
    att = {}
    for a in rng.sample(["id", "fx:id", "fy:id", "sil:x", "xml:lang", "xml:space"], rng.randint(0, 3)):
        att[a] = "preserve" if a == "xml:space" else rng.choice(g.NMT + ["a&b", "<'\">"])
    kids = [foreign(rng, d + 1) for _ in range(rng.choice([0, 0, 1, 2, 3]))] if d < 3 else []
    return [tag, att, g.gen_text(rng) if not kids and rng.random() < .8 else None, kids, []]


def gen_edit(rng):
    c = gen_load(rng)
    n = rng.randint(1, 6)
    c["edits"] = []
    for _ in range(n):
        r = rng.random()
        where = rng.random()
        if r < .5:
            c["edits"].append(["text", where, g.gen_text(rng, cr=True)])
        elif r < .75:
            c["edits"].append(["attr", where, rng.choice(["type", "id", "{%s}x" % g.SIL, "references"]),
                               rng.choice(g.HOSTILE + g.LINES + ["a\tb", "a\rb", " x ", "\u00a0"])])
        elif r < .9:
            c["edits"].append(["add", where, rng.choice(["cr", "{%s}note" % g.SIL, "{%s}text" % g.SIL, "fontname"]),
                               g.gen_text(rng, cr=True)])
        else:
            c["edits"].append(["comment", where, rng.choice(["edited", " <a> & b ", "é\n x"])])
    return c


KINDS = {"load": (gen_load, 2500, 40000), "alternates": (gen_alts, 1200, 15000), "edit": (gen_edit, 3000, 40000)}


def FIXED():
    d = os.path.join(os.path.dirname(g.LIB), "tests", "sldr")
    return [dict(kind="corpus", file=os.path.join(d, f), topns=t) for f in sorted(os.listdir(d)) if f.endswith(".xml")
            for t in (True, False)]


def write(doc, topns, via, mon):
    if via == "file":
        p = os.path.join(mon.tmp, "out.xml")
        doc.save_as(p, topns=topns)
        with open(p, "rb") as f:
            return f.read().decode("utf-8")
    return save(doc, topns)


def reparse(out, mon, what):
    try:
        t = g.from_xml(out)
    except etree.XMLSyntaxError as e:
        mon.violation("ill-formed", "%s: %s\n%s" % (what, e, out[:1500]))
        return None
    mon.event("wellformed")
    return t


def leaftext(e):
    """ mixed content is outside the format: text counts on leaves only """
    return [e[0], e[1], g.norm_text(e[2]) if not e[3] else None, [leaftext(c) for c in e[3]], e[4]]


def check(case, mon):
    if case["kind"] == "corpus":
        with open(case["file"], "rb") as f:
            src = f.read()
        a = leaftext(g.strip_comments(g.from_xml(src)))
        doc = Ldml(case["file"], usedrafts=False)
        out = save(doc, case["topns"])
        b = reparse(out, mon, case["file"])
        if b is None:
            return
        a = g.unordered(a, SERIAL)
        d = g.deep_diff(a, g.unordered(leaftext(g.strip_comments(b)), SERIAL))
        mon.event("corpus")
        mon.substantive(out)
        mon.expect(d is None, "differs:corpus", d or "")
        return
    rng = random.Random(case["fmt"])
    tree = case["tree"]
    xml = g.to_xml(tree, rng, shuffle_atts=True, shuffle_kids=SERIAL, cdata=.2, charref=rng.random() < .5, ns=case.get("ns"))
    doc = load(xml, usedrafts=case["usedrafts"])
    if case["kind"] in ("load", "alternates"):
        want = normtree(tree)
        if case["usedrafts"]:
            want = drop_drafts(want, default_draft(tree))
        want = g.unordered(want, SERIAL)
        for topns in case["modes"]:
            out = write(doc, topns, case["via"], mon)
            got = reparse(out, mon, "topns=%s" % topns)
            if got is None:
                return
            d = g.deep_diff(want, g.unordered(leaftext(got), SERIAL))
            mon.event("compared:load")
            mon.expect(d is None, "differs:load", d or "")
        if g.count(tree) > 8:
            mon.substantive(out)
        mon.sample(dict(kind="load", elements=g.count(tree), modes=case["modes"], head=out[:300]))
        return
    nodes = list(doc.root.iter())
    leaves = [n for n in nodes if not len(n)]
    for ed in case["edits"]:
        if ed[0] == "text":
            leaves[int(ed[1] * len(leaves))].text = ed[2]
        elif ed[0] == "attr":
            nodes[int(ed[1] * len(nodes))].set(ed[2], ed[3])
        elif ed[0] == "add":
            p = [n for n in nodes if len(n)]
            p = p[int(ed[1] * len(p))]
            c = p.makeelement(ed[2], {})
            c.text = ed[3]
            c.parent, c.document = p, doc
            p.append(c)
        else:
            n = nodes[int(ed[1] * len(nodes))]
            n.comments = list(getattr(n, "comments", [])) + [ed[2]]
    want = leaftext(g.from_elem(doc.root))
    if case["usedrafts"]:
        want = drop_drafts(want, doc.default_draft)
    for topns in case["modes"]:
        out = write(doc, topns, case["via"], mon)
        got = reparse(out, mon, "topns=%s" % topns)
        if got is None:
            return
        d = g.deep_diff(want, leaftext(got))
        mon.event("compared:edit")
        mon.expect(d is None, "differs:edit", d or "")
    if g.count(tree) > 8:
        mon.substantive(out)
