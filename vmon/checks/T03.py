"""T03 the IANA registry is read record by record."""
import os, random
import sldr.iana
from sldr.iana import Iana

PID = "T03"
RULE = ("random registries in the record-jar format of RFC 5646: all seven types, subtags, tags and ranges, repeated fields, folded fields (first and repeated, once and more, with colons), unicode, in any order of types, "
        "and the registry shipped. Non-trivial = a record with a repeated or folded field, distinct by record")
ANCHORS = ["lib/sldr/iana.py", "lib/sldr/language-subtag-registry.txt"]
REQUIRES = {"record": 20000, "folded": 2000, "folded repeat": 500, "colon": 500, "tag record": 1000, "repeated": 2000}
TYPES = ["language", "extlang", "script", "region", "variant", "grandfathered", "redundant"]
WORDS = ["Serbian", "a: b", "(retired)", "Norwegian Bokmål", "ɓàsàa", "see also: zh", "%%", "N'Ko", "Prefix: zh", "Subtag", "1994", "of", "the", "Type: x", "--", "ελ"]


def text(rng, a=1, b=5):
    return " ".join(rng.choice(WORDS) for _ in range(rng.randint(a, b)))


def gen(rng):
    recs, seen = [], set()
    for _ in range(rng.randint(0, 25)):
        t = rng.choice(TYPES)
        n = rng.choice([2, 3, 3, 4, 5, 8])
        s = "".join(rng.choice("abcdefghijkmnoqrstuvwz") for _ in range(n))
        if t in ("grandfathered", "redundant"):
            s = rng.choice(["i-", "zh-", "art-"]) + s
        elif t == "script":
            s = s.title()
        elif t == "region":
            s = s.upper()
        if rng.random() < .05:
            s = s + ".." + s[:-1] + "z"
        if (t, s) in seen:
            continue
        seen.add((t, s))
        f = [["Description", text(rng)] for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        f.append(["Added", "%d-10-16" % rng.randint(1999, 2030)])
        f += [["Prefix", rng.choice(["zh", "sr-Latn", "de", "sl-rozaj"])] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        for k in ("Deprecated", "Preferred-Value", "Suppress-Script", "Macrolanguage", "Scope"):
            if rng.random() < .2:
                f.append([k, rng.choice(["Latn", "2010-01-01", "macrolanguage", "zh"])])
        f += [["Comments", text(rng, 1, 9)] for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        if rng.random() < .3:
            rng.shuffle(f)
        # where the lines are broken
        recs.append([t, s, [[k, v, rng.choice([0, 0, 0, 1, 2, 3])] for k, v in f]])
    return dict(recs=recs, date=rng.random() < .9, crlf=rng.random() < .1, end=rng.choice(["", "%%\n"]), seed=rng.randrange(1 << 30))


KINDS = {"made": (gen, 3000, 80000)}


def FIXED():
    return [dict(kind="shipped")]


def jar(fname):
    """ RFC 5646 3.1.1, on its own: records between lines of %%, a field goes on in lines which start with white space """
    with open(fname, encoding="utf-8") as f:
        txt = f.read()
    for rec in ("\n" + txt + "\n").split("\n%%\n"):
        fields = []
        for l in rec.split("\n"):
            if not l.strip():
                continue
            if l[0] in " \t":
                fields[-1][1] += " " + l.strip()
            else:
                k, v = l.split(":", 1)
                fields.append([k.strip(), v.strip()])
        yield fields


def model(records):
    res = {}
    for fields in records:
        d = {}
        key = typ = None
        for k, v in fields:
            if k == "Type":
                typ = v
            elif k in ("Subtag", "Tag"):
                key = v
            else:
                d.setdefault(k.lower(), []).append(v)
        if typ is not None:
            res.setdefault(typ, {})[key] = d
    return res


def judge(got, want, mon):
    for t in TYPES:
        w = want.get(t, {})
        g = getattr(got, t, {})
        mon.expect(set(g) == set(w), "records", lambda: "%s: %r" % (t, sorted(set(g) ^ set(w))[:10]))
        for s, d in w.items():
            mon.event("record")
            if t in ("grandfathered", "redundant"):
                mon.event("tag record")
            e = {k: v if isinstance(v, list) else [v] for k, v in g.get(s, {}).items()}
            mon.expect(e == d, "fields", lambda: "%s %s: %r is not %r" % (t, s, e, d))
            for k, v in d.items():
                # one value as it is, several in their order
                mon.expect((k not in g.get(s, {})) or isinstance(g[s][k], list) == (len(v) > 1), "single or list", lambda: "%s %s %s: %r" % (t, s, k, g[s][k]))
                if len(v) > 1:
                    mon.event("repeated")
                    mon.substantive(t, s, repr(d))
                    mon.state("repeats", t, k, len(v))


def check(case, mon):
    if case["kind"] == "shipped":
        fn = os.path.join(os.path.dirname(sldr.iana.__file__), "language-subtag-registry.txt")
        want = model(jar(fn))
        judge(Iana(), want, mon)
        judge(Iana(fn), want, mon)
        mon.sample({t: len(d) for t, d in want.items()})
        return
    rng = random.Random(case["seed"])
    recs = []
    txt = "File-Date: 2025-02-06\n" if case["date"] else ""
    first = not case["date"]
    for t, s, fields in case["recs"]:
        rec = [["Type", t], ["Tag" if t in ("grandfathered", "redundant") else "Subtag", s]]
        txt += ("" if first else "%%\n") + "".join("%s: %s\n" % (k, v) for k, v in rec)
        first = False
        seen = set()
        for k, v, folds in fields:
            w = v.split(" ")
            at = set(rng.sample(range(1, len(w)), min(folds, len(w) - 1)))
            # a folded line never stands for something else
            txt += "%s: %s" % (k, w[0])
            for i, x in enumerate(w[1:], 1):
                txt += ("\n" + rng.choice(["  ", " ", "    "]) if i in at else " ") + x
            txt += "\n"
            if at:
                mon.event("folded")
                mon.substantive(t, s, k, v, sorted(at))
                if k in seen:
                    mon.event("folded repeat")
                if any(":" in x for x in w[min(at):]):
                    mon.event("colon")
            seen.add(k)
            rec.append([k, v])
        recs.append(rec)
    txt += case["end"]
    fn = os.path.join(mon.tmp, "registry")
    with open(fn, "w", encoding="utf-8", newline="\r\n" if case["crlf"] else "\n") as f:
        f.write(txt)
    want = model(recs)
    assert model(jar(fn)) == want
    judge(Iana(fn), want, mon)
    mon.sample([r[:2] for r in recs[:3]])
    mon.cleartmp()
