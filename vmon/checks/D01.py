"""D01 what is written depends on what was read only, not on the hash seed of the process or on what it did before."""
import csv, json, os, random, shutil, tempfile
from .. import ldmlgen as g
from ..ldmlrun import *
from ..family import *
from ..hashpool import HashPool
from . import C01, C02, C03, L02, M02, M03, S01, T02, U01

PID = "D01"
RULE = ("documents, families of locales, three way merges, tailorings, alphabets, sheets, tables of language tags and sets of strings are processed by persistent processes "
        "which differ in the seed of string hashing, and again in a process in which nothing was done before; all bytes written must agree. Non-trivial = more than one element, locale, rule or item, distinct by input")
ANCHORS = ["lib/sldr/ldml.py", "lib/sldr/ldml_merge.py", "lib/sldr/collation.py", "lib/sldr/UnicodeSets.py", "lib/sldr/langtags_full.py", "lib/sldr/sheet.py"]
REQUIRES = {"compared": 4000, "fresh": 50, "case:doc": 200, "case:family": 80, "case:merge": 150, "case:altmerge": 150, "case:coll": 200, "case:alpha": 200, "case:tags": 100, "case:sets": 200, "case:sheet": 60}
_pool = None


def as_case(kind, fn):
    def gen(rng):
        c = fn(rng)
        if c is None:
            return None
        return dict(kind=kind, what=c, fresh=rng.random() < .04)
    return gen


def gen_doc(rng):
    c = rng.choice([L02.gen, L02.gen_siblings])(rng)
    return c


def gen_coll(rng):
    return rng.choice([C01.gen, C01.gen_ind])(rng)


def gen_alpha(rng):
    return rng.choice([C02.gen, C03.gen, C03.gen_exp])(rng)


def gen_altmerge(rng):
    """ the same entries in three documents, each with alternates of its own """
    names = ["proposed-%s" % c for c in "abcdefgh"] + ["variant", "short", "x-%d" % rng.randint(0, 99)]
    ids = rng.sample(["fr", "de", "en", "ru", "zh_Hant", "aa", "cop"], rng.randint(1, 4))
    drafts = [None, None, "approved", "contributed", "provisional", "unconfirmed"]
    docs = []
    base = {i: [rng.sample(names, rng.randint(0, 4)), "v%d" % rng.randint(0, 2)] for i in ids}
    for s in "tob":
        items = []
        for i in ids:
            own = rng.random() < .85
            al = base[i][0] + rng.sample(names, rng.randint(0, 4)) if rng.random() < .7 else rng.sample(names, rng.randint(0, 5))
            items.append([i, rng.choice([base[i][1], "v%d" % rng.randint(0, 2)]), rng.choice(drafts),
                          [[a, "a%d" % rng.randint(0, 2), rng.choice(drafts)] for a in (sorted(set(al)) if own else [])]])
        docs.append(items)
    return dict(docs=docs, default=rng.choice([None, "unconfirmed", "provisional"]), nobase=rng.random() < .2)


def gen_sets(rng):
    from .. import chars
    return dict(items=sorted({chars.string(rng, rng.choice([1, 1, 2, 3])) for _ in range(rng.randint(1, 30))}))


KINDS = {"doc": (as_case("doc", gen_doc), 500, 8000), "family": (as_case("family", lambda r: r.choice([M02.gen, M02.gen_alts])(r)), 200, 3000), "merge": (as_case("merge", M03.gen), 400, 8000),
         "coll": (as_case("coll", gen_coll), 500, 8000), "alpha": (as_case("alpha", gen_alpha), 500, 8000), "tags": (as_case("tags", T02.gen_build), 250, 4000),
         "altmerge": (as_case("altmerge", gen_altmerge), 400, 8000),
         "sets": (as_case("sets", gen_sets), 500, 8000), "sheet": (as_case("sheet", lambda r: S01.KINDS["tsv"][0](r)), 150, 2500)}


def remote(req):
    return globals()["do_" + req["kind"]](req["what"])


def do_doc(c):
    xml = g.to_xml(c["tree"], random.Random(c["fmt"]), shuffle_atts=True, shuffle_kids=L02.g.serial_elements())
    d = load(xml, usedrafts=True)
    res = [save(d)]
    d.normalise(usedrafts=True)
    return res + [save(d)]


def do_family(c):
    files = files_of(c)
    top = tempfile.mkdtemp(prefix="vmon-")
    try:
        dirs = write_family(c, top)
        flat = os.path.join(top, "flat")
        os.makedirs(flat)
        res = {}
        for l in sorted(files):
            d = flattenlocale(l, dirs=dirs, rev="f", flattencollation=True)
            d.normalise()
            res[l] = save(d)
            with open(os.path.join(flat, l + ".xml"), "w", encoding="utf-8") as f:
                f.write(res[l])
        for l in sorted(files):
            d = flattenlocale(l, dirs=[flat], rev="r")
            d.normalise()
            res[l + " unflattened"] = save(d)
        return res
    finally:
        shutil.rmtree(top, ignore_errors=True)


def do_merge(c):
    u, rng = M03.tree(c["u"]), random.Random(c["fmt"])
    xml = [g.to_xml(M03.build(u, c["rows"], s), rng, shuffle_atts=True, shuffle_kids=M03.SERIAL) for s in "tob"]
    dt, do, db = [load(x, cls=LdmlMerge, usedrafts=c["drafts"]) for x in xml]
    dt.winner = c["winner"]
    dt.merge(do, None if c["nobase"] else db, default=c["default"])
    res = [save(dt)]
    dt.normalise(usedrafts=c["drafts"])
    return res + [save(dt)]


def do_altmerge(c):
    xml = []
    for items in c["docs"]:
        d = lambda x: " draft='%s'" % x if x else ""
        xml.append("<ldml><identity><language type='en'/></identity><localeDisplayNames><languages>" + "".join(
            "<language type='%s'%s>%s</language>" % (i, d(dr), v) + "".join("<language type='%s' alt='%s'%s>%s</language>" % (i, a, d(ad), av) for a, av, ad in al)
            for i, v, dr, al in items) + "</languages></localeDisplayNames></ldml>")
    dt, do, db = [load(x, cls=LdmlMerge, usedrafts=True) for x in xml]
    dt.merge(do, None if c["nobase"] else db, default=c["default"])
    return [save(dt)]


def do_coll(c):
    from sldr.collation import Collation
    a = Collation()
    a.parse(c["text"])
    res = [a.asICU(wrap=30), a.asICU(ordering=lambda x: x[1].order), a.asICU(withkeys=True), a.asSimple()]
    a.minimise()
    return res + [a.asICU()]


def do_alpha(c):
    from sldr.collation import Collation
    lines = [" ".join("/".join(s) for s in grp) for grp in c["alpha"]]
    res = []
    for strict in (False, True):
        a = Collation()
        a.convertSimple(lines, strict=strict)
        res += [a.asICU(), a.asICU(ordering=lambda x: x[1].order), a.asSimple()]
        a.minimise()
        res += [a.asICU(), a.asSimple()]
    return res


def do_sets(c):
    from sldr import UnicodeSets as us
    from sldr.ldml_exemplars import UCD
    ucd = UCD()
    res = [us.list2us(c["items"], ucd)]
    return res + [sorted(us.us2list(x)) for x in res]


def do_tags(c):
    top = tempfile.mkdtemp(prefix="vmon-")
    try:
        fn = [os.path.join(top, x) for x in ("none", "iana", "likely", "supp")]
        T02.write_sources(c, *fn)
        L = T02.newtable(fn[0])
        L.readIana(fn[1])
        L.readLikelySubtags(fn[2])
        L.readSupplementalData(fn[3])
        return [L.generate_alltags(), {k: [str(v), repr(v)] for k, v in L.items()}]
    finally:
        shutil.rmtree(top, ignore_errors=True)


def do_sheet(c):
    from sldr.sheet import Sheet
    rng = random.Random(c["seed"])
    m = S01.sm.Sheet(rng, c["fill"]).make(c["n"])
    top = tempfile.mkdtemp(prefix="vmon-")
    try:
        p = os.path.join(top, "in.tsv")
        with open(p, "w", newline="", encoding="utf-8") as f:
            csv.writer(f, dialect="excel-tab").writerows(m.rows)
        s = Sheet(p, None, None)
        s.process()
        s.writeldml(os.path.join(top, "out.xml"))
        with open(os.path.join(top, "out.xml"), encoding="utf-8") as f:
            return f.read()
    finally:
        shutil.rmtree(top, ignore_errors=True)


def check(case, mon):
    global _pool
    if _pool is None:
        _pool = HashPool("vmon.checks.D01:remote")
    req = json.loads(json.dumps(case))
    res = _pool(req)
    first = res[0]
    if first[0] == "error":
        # what crashes everywhere is for other checks to judge
        mon.skip("fails everywhere" if all(r[0] == "error" for r in res) else "fails")
    names = list(_pool.seeds)
    if case["fresh"]:
        fresh = HashPool("vmon.checks.D01:remote", ("0",))
        try:
            res += fresh(req)
            names.append("0 in a new process")
            mon.event("fresh")
        finally:
            fresh.close()
    for s, r in zip(names[1:], res[1:]):
        mon.event("compared")
        if r[0] == "error" and first[0] == "error":
            continue
        mon.expect(r == first, "differs:" + case["kind"], lambda: "hash seed %s: %s" % (s, differ(first, r)))
    mon.substantive(case["kind"], json.dumps(case["what"], sort_keys=True))
    mon.state("size", case["kind"], len(json.dumps(first)) // 1000)
    mon.sample(dict(kind=case["kind"], size=len(json.dumps(first))))


def differ(a, b):
    a, b = json.dumps(a, ensure_ascii=False), json.dumps(b, ensure_ascii=False)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "...%s against ...%s" % (a[max(0, i - 120):i + 200], b[max(0, i - 120):i + 200])
