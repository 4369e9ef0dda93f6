"""Small language tag tables: generating them, writing them for the langtag package, and looking tags up in them independently of it."""
import json

LANGS = ["aa", "ab", "bb", "kmr", "yo", "ig", "zza", "qqq", "sr", "ta"]
SCRIPTS = ["Latn", "Arab", "Deva", "Cyrl", "Thai"]
REGIONS = ["ET", "IN", "TH", "NG", "001"]
NAMES = ["Afar", "B'b", "Gr\u00f6n'd", "l'\u00e9t\u00e9", "\u0e44\u0e17\u0e22", "a & <b>", "''", "Na\u02bcvi", "x y"]


def gen_table(rng, n=5):
    res = []
    for l in rng.sample(LANGS, n):
        scripts = rng.sample(SCRIPTS, rng.choice([1, 1, 2]))
        for i, s in enumerate(scripts):
            regs = rng.sample(REGIONS, rng.choice([1, 2, 3]))
            tag = l if not i else "%s-%s" % (l, s)
            e = dict(tag=tag, full="%s-%s-%s" % (l, s, regs[0]), tags=["%s-%s" % (tag, regs[0])] + ([] if i else ["%s-%s" % (l, s)]), script=s, region=regs[0])
            e["tags"] = [t for t in e["tags"] if t != e["full"]]
            if regs[1:]:
                e["regions"] = regs[1:]
            if len(l) == 2 and rng.random() < .7:
                e["iso639_3"] = l + "x"
            if rng.random() < .8:
                e["name"] = rng.choice(NAMES)
            r = rng.random()
            if r < .4:
                e["localname"] = rng.choice(NAMES)
            elif r < .8:
                e["localnames"] = rng.sample(NAMES, rng.choice([1, 2]))
            res.append(e)
    rng.shuffle(res)
    return res


def write(table, path):
    t = [dict(tag="_globalvar", variants=["simple"]), dict(tag="_phonvar", variants=["fonipa"])] + table
    if not any(e["tag"] == "en" for e in table):
        t.append(dict(tag="en", full="en-Latn-US", tags=["en-US", "en-Latn"], script="Latn", region="US", name="English"))
    with open(path, "w", encoding="utf-8") as f:
        json.dump(t, f)
    return dict(LANGTAGSPATH=path)


def find(table, tag, use639=False):
    """ The entry of the table a tag stands for: by one of its tags, by one of them with a further region, or by its three letter code """
    t = tag.replace("_", "-").lower()

    def exact(t):
        for e in table:
            if t in [x.lower() for x in [e["tag"], e["full"]] + e["tags"]]:
                return e
        if use639:
            for e in table:
                if e.get("iso639_3") and t.split("-")[0] == e["iso639_3"]:
                    r = exact("-".join([e["tag"].split("-")[0]] + t.split("-")[1:]))
                    if r is e:
                        return e
        return None
    e = exact(t)
    if e is None and "-" in t:
        b, r = t.rsplit("-", 1)
        if len(r) in (2, 3):
            e = exact(b)
            if e is not None and r.upper() not in e.get("regions", []) + [e["region"]]:
                e = None
    return e
