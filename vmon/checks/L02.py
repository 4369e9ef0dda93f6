"""L02 canonical output: fixed point, and a function of content only."""
import copy, random
from .. import ldmlgen as g
from ..ldmlrun import *

PID = "L02"
RULE = ("each document is written by the harness several times with shuffled siblings, attribute order, quoting, "
        "character references and insignificant white space; every variant goes through load+save (and load+save again, "
        "normalise+save again) and the recorded bytes are compared; non-trivial = some element has 2+ children that were permuted")
ANCHORS = ["lib/sldr/ldml.py"]
SERIAL = g.serial_elements()
REQUIRES = {"variant-pairs": 500, "fixpoints": 500}


def gen(rng):
    alts = rng.choice([0, 0, .3])
    G = g.Gen(rng, size=rng.choice([12, 30, 80, 160]), drafts=rng.choice([0, .3]), alts=alts, ws=False, cr=False,
              comments=rng.choice([0, .15]), default_draft=rng.choice([None, None, "approved", "suspect"]))
    t = ["ldml", {}, None, [], []]
    t = G.document()
    return dict(tree=t, fmt=rng.randint(0, 1 << 30), usedrafts=rng.random() < .7, n=rng.choice([2, 3]),
                topns=rng.random() < .7)


def gen_doc(rng):
    c = gen(rng)
    if rng.random() < .4:
        g.add_alternates(rng, c["tree"], rng.choice([1, 3, 10]))
    return c


def gen_siblings(rng):
    """ Many siblings that differ only in attribute values: enumerated, numeric, zone names, case pairs, missing """
    tag, parent, att = rng.choice([
        ("zone", ["dates", "timeZoneNames"], "type"), ("territory", ["localeDisplayNames", "territories"], "type"),
        ("key", ["localeDisplayNames", "keys"], "type"), ("day", ["dates", "calendars", "calendar", "days", "dayContext", "dayWidth"], "type"),
        ("month", ["dates", "calendars", "calendar", "months", "monthContext", "monthWidth"], "type"),
        ("era", ["dates", "calendars", "calendar", "eras", "eraAbbr"], "type"), ("currency", ["numbers", "currencies"], "type"),
        ("unit", ["units", "unitLength"], "type"), ("annotation", ["annotations"], "cp"),
        ("exemplarCharacters", ["characters"], "type"), ("field", ["dates", "fields"], "type"),
        ("listPattern", ["listPatterns"], "type")])
    pool = {"zone": ["Africa/Abidjan", "Asia/Bangkok", "Europe/Paris", "America/New_York", "Etc/GMT", "Foo/Bar", "Asia/Kolkata",
                     "asia/bangkok", "Zz", "Pacific/Auckland"],
            "day": ["sun", "mon", "tue", "wed", "thu", "fri", "sat", "xxx"],
            "month": [str(i) for i in range(1, 14)],
            "exemplarCharacters": ["auxiliary", "index", "numbers", "punctuation", "standard", "currencySymbol", "other", "zzz"]}
    vals = pool.get(tag, ["a", "A", "b", "B", "aa", "aB", "Ab", "AB", "1", "2", "10", "é", "É", "x_y", "zz", "USD", "usd"])
    enum = [v for n, v, _ in g.dtd().atts(tag) if n == att and v]
    if enum and rng.random() < .8:
        vals = rng.sample(enum[0], min(len(enum[0]), 12)) + ["other"]
    kids = []
    for v in rng.sample(vals, rng.randint(2, len(vals))):
        a = {att: v}
        if rng.random() < .2:
            a["references"] = rng.choice(["r1", "R1", "r2"])
        kids.append([tag, a, "t" + v if tag != "listPattern" else None, [], []])
    if rng.random() < .5:
        kids.append([tag, {}, "none", [], []])
    node = None
    for i, p in enumerate(reversed(parent)):
        at = {"type": "format"} if p in ("dayContext", "monthContext", "calendar", "unitLength") else {}
        if p in ("dayWidth", "monthWidth"):
            at = {"type": "wide"}
        node = [p, at, None, kids if i == 0 else [node], []]
    if rng.random() < .4:
        # elements the DTD does not know have no place of their own
        kids += [[x, {}, "t" + x if rng.random() < .7 else None, [], []] for x in rng.sample(["sil:b", "sil:a", "zzz", "zza", "sil:B", "aaa", "fx:a", "fx:b"], rng.randint(2, 6))]
    return dict(tree=["ldml", {}, None, [["identity", {}, None, [["language", {"type": "aa"}, None, [], []]], []], node], []],
                fmt=rng.randint(0, 1 << 30), usedrafts=rng.random() < .5, n=3, topns=True)


def gen_history(rng):
    c = gen(rng)
    g.add_alternates(rng, c["tree"], rng.choice([2, 6]))
    c["usedrafts"] = True
    c["ops"] = [[rng.choice(["change", "propose", "propose", "save"]), rng.randint(0, 1 << 20), rng.choice(g.DRAFTS[1:]), rng.choice([None, None, "p2", "b", "short"]), "v%d" % i]
                for i in range(rng.randint(2, 12))]
    return c


def history(case, mon):
    """ A document with proposals made, and promoted, in it: saved, it is as if it had been read from what was saved """
    rng = random.Random(case["fmt"])
    doc = load(g.to_xml(case["tree"], rng, shuffle_atts=True, shuffle_kids=SERIAL))
    done = 0
    for op, i, draft, alt, text in case["ops"]:
        if op == "save":
            save(doc, case["topns"])
            continue
        nodes = [n for n in doc.root.iter() if not len(n) and n is not doc.root and n.tag not in SERIAL and "}" not in n.tag and n.get("alt") is None]
        nodes = [n for n in nodes if all(x.tag not in ("identity", "special") for x in up(n))]
        if not nodes:
            return
        n = nodes[i % len(nodes)]
        if op == "change":
            doc.change_draft(n, draft)
        else:
            if any(c in v for x in up(n) for v in x.attrib.values() for c in "[]\"'") or any(not v or v.strip() != v for x in up(n) for v in x.attrib.values()):
                continue
            doc.ensure_path(doc.as_xpath(n, usedrafts=True), text=text, draft=draft, alt=alt)
        done += 1
        mon.event("edit:" + op)
    doc.normalise(usedrafts=True)
    out = save(doc, case["topns"])
    mon.event("saves")
    again = save(doc, case["topns"])
    mon.expect(again == out, "save-changes-document", lambda: firstdiff(out, again))
    rout = save(load(out), case["topns"])
    mon.event("fixpoints")
    mon.expect(rout == out, "edited-not-a-fixed-point", lambda: firstdiff(out, rout))
    if done:
        mon.substantive(out)


def up(n):
    while n is not None:
        yield n
        n = getattr(n, "parent", None)


KINDS = {"doc": (gen_doc, 2500, 40000), "siblings": (gen_siblings, 1500, 20000), "history": (gen_history, 1500, 20000)}


def check(case, mon):
    if case["kind"] == "history":
        return history(case, mon)
    rng = random.Random(case["fmt"])
    ud = case["usedrafts"]
    outs, xmls = [], []
    permuted = any(len(e[3]) > 1 for _, e in g.walk(case["tree"]))
    for i in range(case["n"]):
        xml = g.to_xml(case["tree"], rng if i else None, shuffle_atts=True, shuffle_kids=SERIAL, cdata=.2, charref=bool(i & 1),
                       compact=i == 2)
        doc = load(xml, usedrafts=ud)
        out = save(doc, case["topns"])
        mon.event("saves")
        again = save(doc, case["topns"])
        mon.expect(again == out, "save-changes-document", lambda: firstdiff(out, again))
        if case["fmt"] & 1:
            doc.normalise(usedrafts=ud)
        else:
            doc.normalise()
        nout = save(doc, case["topns"])
        mon.expect(nout == out, "normalise-not-idempotent", lambda: firstdiff(out, nout))
        rdoc = load(out, usedrafts=ud)
        rout = save(rdoc, case["topns"])
        mon.event("fixpoints")
        mon.expect(rout == out, "not-a-fixed-point", lambda: firstdiff(out, rout))
        outs.append(out)
        xmls.append(xml)
    for o in outs[1:]:
        mon.event("variant-pairs")
        mon.expect(o == outs[0], "depends-on-presentation", lambda: firstdiff(outs[0], o))
    if permuted:
        mon.substantive(outs[0])
    mon.sample(dict(variant=xmls[-1][:300], canonical=outs[0][:300]))


def firstdiff(a, b):
    la, lb = a.split("\n"), b.split("\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "line %d: %r vs %r" % (i + 1, x, y)
    return "length %d vs %d lines" % (len(la), len(lb))
