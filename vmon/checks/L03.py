"""L03 canonical order follows the DTD (and the time zone table)."""
import os, random, re
from .. import ldmlgen as g
from ..ldmlrun import *
from . import L02

PID = "L03"
RULE = ("shuffled DTD-shaped documents and sibling tables are loaded and saved; an offline checker walks the written bytes and "
        "compares every adjacent pair of siblings and attributes with orders read independently from sil.dtd and tzones.csv; "
        "non-trivial = at least one pair whose order is determined by the DTD")
ANCHORS = ["lib/sldr/ldml.py"]
SERIAL = g.serial_elements()
REQUIRES = {"pair:element": 1000, "pair:enum": 100, "pair:zone": 50, "pair:alpha": 500, "pair:attribute": 500}

_zones = None


def zones():
    global _zones
    if _zones is None:
        with open(os.path.join(g.LIB, "sldr", "tzones.csv"), encoding="utf-8") as f:
            _zones = [re.split(r"\s*,\s*", re.sub(r"#.*$", "", l.strip()))[0] for l in f]
        _zones = {z: i for i, z in enumerate(_zones)}
    return _zones


def gen_sib(rng):
    c = L02.gen_siblings(rng)
    if rng.random() < .35:
        z = rng.sample(sorted(zones()), 12)
        kids = [["zone", {"type": v}, None, [["exemplarCity", {}, "c", [], []]], []] for v in z if v]
        c["tree"][3][1] = ["dates", {}, None, [["timeZoneNames", {}, None, kids, []]], []]
    return c


def gen_unknown(rng):
    """ elements and attributes the DTD does not know come after those it does """
    c = L02.gen(rng)
    cand = [e for _, e in g.walk(c["tree"]) if e[3] and e[0] not in SERIAL and e[0] != "ldml"]
    for e in rng.sample(cand, min(len(cand), 3)):
        e[3].insert(0, [rng.choice(["aaNew", "zzNew", "sil:zz"]), {}, "x", [], []])
    g.prune_duplicates(c["tree"], True)
    return c


KINDS = {"doc": (L02.gen, 2000, 30000), "siblings": (gen_sib, 2000, 25000), "unknown": (gen_unknown, 500, 6000)}


def check(case, mon):
    rng = random.Random(case["fmt"])
    xml = g.to_xml(case["tree"], rng, shuffle_atts=True, shuffle_kids=SERIAL)
    doc = load(xml, usedrafts=case["usedrafts"])
    if case["fmt"] % 3 == 0:
        doc.normalise(usedrafts=case["usedrafts"])
    out = save(doc, case["topns"])
    tree = g.from_xml(out)
    d = g.dtd()
    judged = 0
    for path, e in g.walk(tree):
        order = {}
        for i, n in enumerate(d.childorder.get(e[0], [])):
            order.setdefault(n, []).append(i)
        for a, b in zip(e[3], e[3][1:]):
            if a[0] != b[0]:
                pa, pb = order.get(a[0]), order.get(b[0])
                if e[0] not in d.childorder:
                    continue
                judged += 1
                mon.event("pair:element")
                if pa is None:
                    mon.expect(pb is None, "unknown-before-known", "%s: %s before %s" % (e[0], a[0], b[0]))
                elif pb is not None:
                    mon.expect(min(pa) <= max(pb), "element-order", "in %s: %s before %s" % (e[0], a[0], b[0]))
                    mon.state("element-pairs", e[0], a[0], b[0])
            elif a[0] not in SERIAL:
                judged += siblings(d, a, b, mon, case["usedrafts"])
    attributes(d, out, mon)
    if judged:
        mon.substantive(out)
    mon.sample(dict(head=out[:400]))


def siblings(d, a, b, mon, ud):
    names = d.attnames(a[0])
    ka = [n for n in names if n in a[1] and ":" not in n and not (ud and n == "draft")]
    kb = [n for n in names if n in b[1] and ":" not in n and not (ud and n == "draft")]
    if ka != kb or set(a[1]) - set(names) or set(b[1]) - set(names) or any(":" in n for n in list(a[1]) + list(b[1])):
        return 0
    vals = {n: v for n, v, _ in d.atts(a[0])}
    for n in ka:
        x, y = a[1][n], b[1][n]
        if x == y:
            continue
        enum = vals.get(n) if n != "draft" else None
        if a[0] == "zone" and n == "type":
            z = zones()
            if x in z or y in z:
                mon.event("pair:zone")
                mon.state("zone-pairs", x, y)
                mon.expect(x in z and (y not in z or z[x] < z[y]), "zone-order", "%s before %s" % (x, y))
                return 1
        elif enum and (x in enum or y in enum):
            mon.event("pair:enum")
            mon.state("enum-pairs", a[0], n, x, y)
            mon.expect(x in enum and (y not in enum or enum.index(x) < enum.index(y)), "enumerated-order",
                       "%s/@%s %s before %s" % (a[0], n, x, y))
            return 1
        if enum or (a[0] == "zone" and n == "type"):
            return 0                    # neither value is known: no order is promised
        mon.event("pair:alpha")
        mon.expect(x.lower() <= y.lower(), "value-order", "%s/@%s %r before %r" % (a[0], n, x, y))
        return 1
    return 0


def attributes(d, out, mon):
    for m in re.finditer(r"^\s*<([\w:.-]+)((?:\s+[\w:.-]+=\"[^\"]*\")+)\s*/?>", out, re.M):
        names = d.attnames(m.group(1))
        at = [n for n in re.findall(r"([\w:.-]+)=\"", m.group(2)) if ":" not in n and n in names]
        for x, y in zip(at, at[1:]):
            mon.event("pair:attribute")
            mon.state("attribute-pairs", m.group(1), x, y)
            mon.expect(names.index(x) < names.index(y), "attribute-order", "%s: %s before %s" % (m.group(1), x, y))
