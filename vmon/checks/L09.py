"""L09 flattening a collation replaces every import by the rules it names."""
import os, random, shutil
from sldr.ldml_merge import flattenlocale
from .. import ldmlgen as g
from ..ldmlrun import *

PID = "L09"
RULE = ("families of locale files (languages whose names end alike, scripts and regions, root, subdirectories) with collations whose rules "
        "import each other under every spelling of a type, chained, repeated, missing, empty and in loops, flattened or copied with imports resolved. "
        "Non-trivial = the rules judged hold at least one import which exists, distinct by family and locale")
ANCHORS = ["lib/sldr/ldml_merge.py", "lib/sldr/ldml.py"]
REQUIRES = {"judged": 500, "import": 800, "nested": 150, "missing": 80, "loop": 30, "inherited": 50, "parallel name": 20}
LOCS = ["ms", "sms", "se", "nse", "fr", "fr_CA", "zh", "zh_Hant", "zh_Hant_HK", "az_Cyrl", "sr_Latn", "es", "root"]
KEYS = {"standard": "standard", "search": "search", "phonebk": "phonebook", "trad": "traditional", "dict": "dictionary", "pinyin": "pinyin",
        "private-kana": "private-kana", "compat": "compat", "stroke": "stroke", "gb2312": "gb2312han"}


def gen_family(rng):
    locs = rng.sample(LOCS, rng.randint(1, 6))
    if rng.random() < .3:
        locs = list(set(locs) | set(rng.choice([["ms", "sms"], ["se", "nse"], ["zh", "zh_Hant"], ["root"]])))
    locs.sort()
    keys = rng.sample(sorted(KEYS), rng.randint(1, 4))
    loops = rng.random() < .3
    fam = {}
    n = 0
    order = []
    for l in locs:
        fam[l] = {}
        for k in keys:
            if rng.random() < .7:
                order.append((l, k))
    rng.shuffle(order)
    for i, (l, k) in enumerate(order):
        items = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < .5:
                n += 1
                items.append("&%s < x%d" % (rng.choice("abcdefg"), n))
            elif r < .9:
                a = rng.choice(order) if loops or i == 0 else order[rng.randrange(i)]
                if not loops and (i == 0):
                    continue
                items.append(a)
            elif r < .95:
                items.append((rng.choice(LOCS), rng.choice(sorted(KEYS))))
            else:
                items.append(rng.choice(["[strength 2]", "[reorder Grek]", "[normalization on]", "# remark", "&[before 1] b < q"]))
        if items and items[-1] == "# remark":
            items.append("&a < z")
        fam[l][k] = [list(x) if isinstance(x, tuple) else x for x in items]
    return dict(fam=fam, rev=rng.choice("fffc"), seed=rng.randrange(10 ** 6), sub=rng.random() < .3, two=rng.random() < .3)


KINDS = {"family": (gen_family, 1500, 80000)}


def ancestors(l):
    if l == "root":
        return []
    res = []
    p = {"zh_Hant": ["root"], "zh_Hant_HK": ["zh_Hant", "root"], "az_Cyrl": ["root"], "sr_Latn": ["root"]}
    if l in p:
        return p[l]
    while "_" in l:
        l = l.rsplit("_", 1)[0]
        res.append(l)
    return res + ["root"]


class Undecided(Exception):
    pass


def tokens(s):
    return [x for x in (s or "").split()]


def expand(fam, own, loc, key, mon, stack):
    items = fam[loc][key]
    res = []
    for it in items:
        if isinstance(it, str):
            res.extend(tokens(it))
            continue
        l, k = it
        mon.event("import")
        if (l, k) in stack:
            mon.event("loop")
            raise Undecided
        if k in fam.get(l, {}):
            if len(stack) > 1:
                mon.event("nested")
            if (own == "sms" and l == "ms") or (own == "nse" and l == "se"):
                mon.event("parallel name")
            res.extend(expand(fam, own, l, k, mon, stack + [(l, k)]))
        elif any(k in fam.get(a, {}) for a in ancestors(l)):
            raise Undecided
        else:
            mon.event("missing")
    return res


def own_rules(fam, loc, key):
    """ what a document says itself, at any depth of imports: must always come out """
    return [t for it in fam[loc][key] if isinstance(it, str) for t in tokens(it)]


def issub(a, b):
    it = iter(b)
    return all(x in it for x in a)


def check(case, mon):
    fam = case["fam"]
    rng = random.Random(case["seed"])
    for n in os.listdir(mon.tmp):
        p = os.path.join(mon.tmp, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    dirs = [os.path.join(mon.tmp, "a"), os.path.join(mon.tmp, "b")] if case["two"] else [mon.tmp]
    for l, cols in fam.items():
        parts = l.split("_")
        ident = "<language type='%s'/>" % parts[0]
        for p in parts[1:]:
            ident += "<%s type='%s'/>" % ("script" if len(p) == 4 else "territory", p)
        body = ""
        for k, items in cols.items():
            txt = ""
            for it in items:
                txt += rng.choice(["", "\n", "  "])
                if isinstance(it, str):
                    txt += g.esc(it) if hasattr(g, "esc") else it.replace("&", "&amp;").replace("<", "&lt;")
                    txt += "\n" if it.startswith("#") else rng.choice(["\n", "\n\t", "\n\n"])
                else:
                    lang = "und" if it[0] == "root" else it[0].replace("_", "-")
                    txt += rng.choice(["[import %s-u-co-%s]", "[import  %s-u-co-%s]", "[import %s-u-co-%s ]"]) % (lang, it[1])
                    txt += rng.choice(["\n", " ", "\n\t"])
            cr = "<cr/>" if not txt else "<cr><![CDATA[%s]]></cr>" % txt.replace("&amp;", "&").replace("&lt;", "<") if rng.random() < .5 else "<cr>%s</cr>" % txt
            body += "<collation type='%s'>%s</collation>" % (KEYS[k], cr)
        d = rng.choice(dirs)
        if case["sub"] and rng.random() < .5:
            d = os.path.join(d, l[0])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, l + ".xml"), "w", encoding="utf-8") as f:
            f.write("<?xml version='1.0'?>\n<ldml><identity>%s</identity>%s</ldml>" % (ident, "<collations>%s</collations>" % body if body else ""))
    for l in sorted(fam):
        doc = flattenlocale(l, dirs=dirs, rev=case["rev"], flattencollation=True)
        got = {}
        for c in doc.root.findall("collations/collation"):
            cr = c.find("cr")
            got[c.get("type")] = tokens(cr.text if cr is not None else "")
        want = {}
        for k in KEYS:
            src = next((a for a in [l] + (ancestors(l) if case["rev"] == "f" else []) if k in fam.get(a, {})), None)
            if src is None:
                continue
            if src != l:
                mon.event("inherited")
            want[KEYS[k]] = (src, k)
        for t, toks in got.items():
            mon.expect("[import" not in toks, "import left", "%s of %s: %r" % (t, l, toks))
        for t, (src, k) in want.items():
            if any(isinstance(x, list) for x in fam[src][k]):
                mon.substantive(repr((fam, l, k)))
            if t not in got:
                if fam[src][k]:
                    mon.violation("collation lost", "%s of %s" % (t, l))
                continue
            try:
                exp = expand(fam, l, src, k, mon, [(src, k)])
            except Undecided:
                mon.skip("undecided")
                mon.expect(issub(own_rules(fam, src, k), got[t]), "own rules", lambda: "%s of %s: %r" % (t, l, got[t]))
                continue
            mon.event("judged")
            mon.expect(exp == got[t], "rules", lambda: "%s of %s (%s) should be %r is %r in %r" % (t, l, case["rev"], exp, got[t], fam))
    mon.sample(dict(locales=sorted(fam), imports=sum(isinstance(i, list) for c in fam.values() for v in c.values() for i in v)))
