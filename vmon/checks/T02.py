"""T02 the table of equivalent language tags agrees with itself and with what it was read from."""
import os, random
import sldr.langtags_full as lf
from sldr.langtags_full import LangTag, LangTags

PID = "T02"
RULE = ("the equivalence table shipped, random tables (every closed set of equivalent script and region forms, further regions, variants and private use, several lines a language), and tables built from random "
        "IANA registries, likely subtags and supplemental data; every tag and derived tags (with a variant, with parts unknown to the table) analysed. Non-trivial = a line of two tags or more, distinct by its tags")
ANCHORS = ["lib/sldr/langtags_full.py"]
REQUIRES = {"line": 5000, "exact forms": 4000, "case:table": 100, "case:build": 100, "analysed": 10000, "with variant": 3000, "filled in": 3000, "unknown": 1500, "refused": 1500, "merged": 500, "likely": 300, "suppress script": 150, "extra": 200, "extra not needed": 80}
SHIPPED = os.path.join(os.path.dirname(lf.__file__), "langtags.txt")
SCRIPTS = ["Latn", "Cyrl", "Arab", "Deva", "Thai", "Hans", "Hant", "Brai", "Zyyy"]
REGIONS = ["US", "GB", "RU", "IN", "CN", "TW", "FR", "419", "001", "PE"]
VARS = ["baku1926", "1994", "rozaj", "biske", "x-twain", "x-1968", "1901-x-abc"]
CHUNKS = 16


def newtable(fname=None):
    # LangTags is a singleton; each table here is one of its own
    return type.__call__(LangTags, alltags=fname)


def langs(rng, n):
    res = set()
    while len(res) < n:
        res.add("".join(rng.choice("abcdefghijklmnopqrstuvwyz") for _ in range(rng.choice([2, 3, 3]))))
    return sorted(res - {"und"})


def gen_table(rng):
    lines = []
    for l in langs(rng, rng.randint(1, 8)):
        pairs = [(s, r) for s in rng.sample(SCRIPTS, rng.choice([1, 1, 2, 3])) for r in rng.sample(REGIONS, rng.choice([1, 1, 2]))]
        own = set(pairs)
        first, scripts, regions = True, set(), set()
        if rng.random() < .25:
            # a language of which only the region or the script is known, or nothing
            end = rng.choice(["", "-" + pairs[0][0], "-" + pairs[0][1], "-" + pairs[0][1]])
            lines.append([l] if not end else rng.choice([[l + end], [l, l + end], [l, l + end]]))
            continue
        suf = [""] + ["-" + v for v in rng.sample(VARS, rng.choice([0, 0, 1, 2]))]
        for v in suf:
            bare, ss, rs = rng.random() < .75, set(), set()
            for s, r in pairs:
                f = []
                hr, hs = s not in ss and rng.random() < .7, r not in rs and rng.random() < .7
                if bare and hr and hs:
                    f.append(l + v)
                    bare = False
                if hs:
                    f.append("%s-%s%s" % (l, r, v))
                    rs.add(r)
                if hr:
                    f.append("%s-%s%s" % (l, s, v))
                    ss.add(s)
                if rng.random() < .2 and v == "":
                    for r2 in rng.sample(REGIONS, 2):
                        if (s, r2) not in own:
                            own.add((s, r2))
                            f.append("%s-%s-%s" % (l, s, r2))
                f.append("%s-%s-%s%s" % (l, s, r, v))
                lines.append(f)
    rng.shuffle(lines)
    return dict(lines=lines, star=rng.random() < .5, seed=rng.randrange(1 << 30))


def gen_shipped(rng):
    return dict(part=rng.randrange(CHUNKS), seed=rng.randrange(1 << 30))


def gen_build(rng):
    out = []
    for l in langs(rng, rng.randint(1, 6)):
        ss = rng.sample(SCRIPTS, 3)
        rs = rng.sample(REGIONS, 4)
        # the truth about a language: its script and region, and what another script or region implies
        likely = []
        if rng.random() < .85:
            likely.append(["", ss[0] + "-" + rs[0]])
            if rng.random() < .5:
                likely.append([ss[1], ss[1] + "-" + rs[1]])
            if rng.random() < .4:
                likely.append([rs[2], ss[2] + "-" + rs[2]])
            if rng.random() < .3:
                likely.append([rs[3], ss[0] + "-" + rs[3]])
        supp = ss[0] if rng.random() < .5 else None
        other = [x for x in REGIONS if x not in rs]
        away = bool(likely) and bool(other) and rng.random() < .15        # in one region only, but not where it is likely
        out.append(dict(lang=l, likely=likely, supp=supp, desc=[rng.choice(["Name %s" % l, "Two: %s" % l]) for _ in range(rng.randint(1, 2))],
                        pop=[rng.choice(other)] if away else [rs[0]] if rng.random() < .4 else rs[:2] if rng.random() < .5 else [], scripts=[ss[0]] if rng.random() < .5 else []))
    return dict(langs=out, variants=[[v, rng.sample([o["lang"] for o in out] + ["zh-Latn"], rng.choice([0, 0, 1, 1]))] for v in rng.sample(["rozaj", "1994", "biske", "fonipa", "baku1926"], rng.randint(0, 4))],
                extras=[[l + "-" + e if e else l, "%s-%s-%s" % (l, e if e in SCRIPTS else rng.choice(SCRIPTS), e if e in REGIONS else rng.choice(REGIONS)), rng.choice(["", "yes", "CLDR"])]
                        for l in langs(rng, rng.randint(0, 4)) if l not in [o["lang"] for o in out] for e in [rng.choice(["", "", rng.choice(SCRIPTS), rng.choice(REGIONS)])]],
                order=rng.choice(["registry", "variants first", "variants last"]), seed=rng.randrange(1 << 30))


KINDS = {"table": (gen_table, 500, 12000), "shipped": (gen_shipped, 0, 60), "build": (gen_build, 500, 12000)}


def FIXED():
    return [dict(kind="shipped", part=i, seed=i) for i in range(CHUNKS)] + [dict(kind="defaults", part=i, seed=i) for i in range(4)]


def parts(t):
    x = LangTag(t)
    return x.lang, x.script, x.region, tuple(x.variants or ()), repr(sorted((x.extensions or {}).items()))


def oneline(L, ln, mon, rng, index):
    """ What holds of a line of the table """
    mon.event("line")
    last = ln[-1]
    o = L[last]
    if len(ln) > 1:
        mon.substantive(ln)
    mon.state("line", [tuple(x is not None and x != () and x != "[]" for x in parts(t)[1:]) for t in ln], len({parts(t)[0] for t in ln}))
    for t in ln:
        if index[t] == 1:
            mon.expect(L.get(t) is o, "equivalent", lambda: "%s is not what %s is" % (t, last))
    mon.expect(repr(o) == last, "full form", lambda: "%r of %r" % (o, ln))
    mon.expect(str(o) in ln, "short form", lambda: "%s of %r" % (o, ln))
    forms = o.allforms()
    mon.expect(set(forms) <= set(ln) and last in forms and str(o) in forms, "forms", lambda: "%r of %r" % (forms, ln))
    pp = [parts(t) for t in ln]
    if len({p[0] for p in pp}) == 1 and len({p[2] for p in pp} - {None}) <= 1 and len({p[3:] for p in pp}) == 1:
        mon.event("exact forms")
        mon.expect(set(forms) == set(ln), "exact forms", lambda: "%r of %r" % (forms, ln))
        mon.expect(str(o) == min(ln, key=len) or len(str(o)) <= min(len(t) for t in ln) + 1, "shortest", lambda: "%s of %r" % (o, ln))
    for t in ln:
        if index[t] > 1 or repr(LangTag(t)) != t:
            continue
        mon.event("analysed")
        mon.expect(LangTag(t).analyse(L) is o, "analysed", lambda: "%s: %r" % (t, LangTag(t).analyse(L)))


def derived(L, lines, ln, mon, rng, index):
    """ Tags which are not in the table mean what they say, more fully """
    pp = [parts(t) for t in ln]
    if len({(p[0],) + p[3:] for p in pp}) > 1:
        return
    t = rng.choice(ln)
    p = parts(t)
    if p[3] == () and p[4] == "[]" and repr(LangTag(t)) == t and index[t] == 1:
        v = rng.choice(["abcde", "zyxwv", "9abc", "abcde-zyxwv", "u-co-phonebk", "x-abc", "9abc-x-abc"])
        x = LangTag(t + "-" + v).analyse(L)
        full = parts(ln[-1])
        if t + "-" + v not in L:
            mon.event("with variant")
            added = parts("aa-" + v)
            mon.expect(parts(repr(x))[3:] == added[3:] and x.lang == p[0], "variant", lambda: "%s-%s -> %r" % (t, v, x))
            mon.expect((p[1] is None or x.script == p[1]) and (p[2] is None or x.region == p[2]), "variant parts", lambda: "%s-%s -> %r" % (t, v, x))
            if (p[1] or p[2]) and (p[1] or full[1]) == full[1] and (p[2] or full[2]) == full[2] and "-" not in p[0]:
                mon.event("filled in")
                mon.expect((x.script, x.region) == full[1:3], "variant full parts", lambda: "%s-%s -> %r, but it is in %r" % (t, v, x, ln))
            s = str(x)
            mon.expect(s.endswith("-" + v) and (s[:-1 - len(v)] in ln), "variant short form", lambda: "%s-%s -> %s, not equivalent in %r" % (t, v, s, ln))
    # a tag it conflicts with
    q = "-".join([p[0]] + [x for x in (rng.choice([None, p[1], "Qaaa"]), rng.choice(["QM", p[2] or "QM", None])) if x])
    q += rng.choice(["", "", "-abcde", "-u-co-phonebk", "-a-bcd-x-abc"])
    o, c = LangTag(t + rng.choice(["", "", "-9abc", "-u-kn", "-9abc-x-z"])).analyse(L).copy(), LangTag(q)
    was = (repr(o), str(o), o.allforms())
    had = (o.script, o.region, list(o.variants or []), {k: list(v) for k, v in (o.extensions or {}).items()})
    if not o.merge_equivalent(c):
        mon.event("refused")
        mon.expect((repr(o), str(o), o.allforms()) == was, "refused merge", lambda: "%s into %r: %r" % (q, was, o.allforms()))
    else:
        mon.event("merged")
        mon.expect(all(h is None or g == h for g, h in ((o.script, had[0]), (o.region, had[1]))) and (not had[2] or list(o.variants) == had[2]) and all((o.extensions or {}).get(k) == v for k, v in had[3].items()),
                   "merge changed", lambda: "%s into %r: %r" % (q, was, o))
        mon.expect((c.script is None or o.script == c.script) and (c.region is None or o.region == c.region), "merge", lambda: "%s into %r: %r" % (q, was, o.allforms()))
    # a language nobody knows
    u = "qq" + rng.choice("abcdefg")
    if not any(k == u or k.startswith(u + "-") for k in L):
        mon.event("unknown")
        q = "-".join([u] + list(x for x in p[1:3] if x) + rng.choice([[], ["1994"], ["rozaj", "1994"]]))
        if "-ZZ" not in q:
            x = LangTag(q).analyse(L)
            mon.expect(str(x) == q and repr(x) == q and q not in L, "unknown tag", lambda: "%s -> %s, %r" % (q, x, x))


def check(case, mon):
    rng = random.Random(case["seed"])
    k = case["kind"]
    try:
        if k == "shipped":
            with open(SHIPPED, encoding="utf-8") as f:
                lines = [[t.lstrip("*") for t in l.split() if t != "="] for l in f if l.strip()]
            L = newtable()
            mon.state("shipped", len(lines))
            judge(L, lines, lines[case["part"]::CHUNKS], mon, rng)
        elif k == "table":
            fn = os.path.join(mon.tmp, "t.txt")
            with open(fn, "w", encoding="utf-8") as f:
                for ln in case["lines"]:
                    f.write(" = ".join(("*" if case["star"] and rng.random() < .3 else "") + t for t in ln) + "\n")
            L = newtable(fn)
            judge(L, case["lines"], case["lines"], mon, rng)
            every = {t for ln in case["lines"] for t in ln}
            mon.expect(set(L) == every, "tags of the table", lambda: repr(set(L) ^ every))
            got = L.generate_alltags()
            mon.expect(sorted(g[-1] for g in got) == sorted(ln[-1] for ln in case["lines"]), "listing", lambda: repr(got))
        elif k == "defaults":
            L = type.__call__(LangTags, noalltags=True)
            consistent(L, mon, sorted(L)[case["part"]::4])
        else:
            build(case, mon, rng)
    finally:
        mon.cleartmp()


def judge(L, lines, some, mon, rng):
    index = {}
    for ln in lines:
        for t in set(ln):
            index[t] = index.get(t, 0) + 1
    for ln in some:
        if index[ln[-1]] > 1:
            mon.skip("line repeated")
            continue
        oneline(L, ln, mon, rng, index)
        derived(L, lines, ln, mon, rng, index)
    mon.sample(some[0])


def consistent(L, mon, keys=None):
    for t in (keys if keys is not None else list(L)):
        o = L[t]
        mon.event("key")
        mon.expect(L.get(str(o)) is o, "short form listed", lambda: "%s: %s of %r" % (t, o, o))
        mon.expect(L.get(repr(o)) is o, "full form listed", lambda: "%s: %r" % (t, o))
        forms = o.allforms()
        mon.expect(t in forms, "forms", lambda: "%s not in %r" % (t, forms))
        for f in forms:
            mon.expect(L.get(f) is o, "form listed", lambda: "%s of %r: %r" % (f, o, L.get(f)))


def write_sources(case, none, iana, likelyfn, supp):
    vs = ""
    for v, pre in case["variants"]:
        vs += "%%\nType: variant\nSubtag: " + v + "\nDescription: %s\nAdded: 2005-10-16\n" % v + "".join("Prefix: %s\n" % p for p in pre)
    ls = ""
    for o in case["langs"]:
        ls += "%%\nType: language\nSubtag: " + o["lang"] + "\n" + "".join("Description: %s\n" % d for d in o["desc"]) + "Added: 2005-10-16\n"
        if o["supp"]:
            ls += "Suppress-Script: %s\n" % o["supp"]
    ls += "%%\nType: script\nSubtag: Latn\nDescription: Latin\nAdded: 2005-10-16\n"
    tail = "" if case["order"] != "registry" else "%%\nType: grandfathered\nTag: i-klingon\nDescription: Klingon\nAdded: 1999-05-26\nDeprecated: 2004-02-24\nPreferred-Value: tlh\n"
    with open(iana, "w", encoding="utf-8") as f:
        f.write("File-Date: 2025-02-06\n" + (vs + ls if case["order"] == "variants first" else ls + vs + tail))
    likely = [(o["lang"] + ("-" + fr if fr else ""), o["lang"] + "-" + to) for o in case["langs"] for fr, to in o["likely"]]
    with open(likelyfn, "w", encoding="utf-8") as f:
        f.write("<supplementalData><likelySubtags>\n<likelySubtag from='und' to='en_Latn_US'/>" +
                "".join("<likelySubtag from='%s' to='%s'/>\n" % (a.replace("-", "_"), b.replace("-", "_")) for a, b in likely) + "</likelySubtags></supplementalData>")
    with open(supp, "w", encoding="utf-8") as f:
        f.write("<supplementalData><languageData>")
        for o in case["langs"]:
            f.write("<language type='%s'%s/>" % (o["lang"], " scripts='%s'" % " ".join(o["scripts"]) if o["scripts"] else ""))
        f.write("</languageData><territoryInfo>")
        for r in REGIONS:
            f.write("<territory type='%s'>%s</territory>" % (r, "".join("<languagePopulation type='%s'/>" % o["lang"] for o in case["langs"] if r in o["pop"])))
        f.write("</territoryInfo></supplementalData>")
    open(none, "w").close()
    return likely


def build(case, mon, rng):
    d = mon.tmp
    likely = write_sources(case, *[os.path.join(d, x) for x in ("none", "iana", "likely", "supp")])
    L = newtable(os.path.join(d, "none"))
    L.readIana(os.path.join(d, "iana"))
    for o in case["langs"]:
        x = L.get(o["lang"])
        if not mon.expect(x is not None, "language", o["lang"]):
            continue
        mon.expect(x.desc == o["desc"], "names", lambda: "%r: %r" % (o, x.desc))
        if o["supp"]:
            mon.event("suppress script")
            mon.expect(x.script == o["supp"] and str(x) == o["lang"] and L.get(o["lang"] + "-" + o["supp"]) is x, "suppress script", lambda: "%r: %r" % (o, x))
        else:
            mon.expect(repr(x) == o["lang"], "no script", lambda: "%r: %r" % (o, x))
    wantv = {}
    for v, pre in case["variants"]:
        for p in pre:
            wantv.setdefault(p, []).append(v)
    mon.expect({k: sorted(v) for k, v in L.variants.items()} == {k: sorted(v) for k, v in wantv.items()}, "variants of a prefix", lambda: "%r: %r" % (case["variants"], L.variants))
    mon.expect(sorted(L.global_variants) == sorted(v for v, p in case["variants"] if not p), "variants of any", lambda: "%r: %r" % (case["variants"], L.global_variants))
    consistent(L, mon)
    L.readLikelySubtags(os.path.join(d, "likely"))
    consistent(L, mon)
    for stage in ("likely", "all"):
        for a, b in likely:
            mon.event("likely")
            mon.substantive(a, b, stage)
            x = L.get(a)
            mon.expect(x is not None and repr(x) == b and L.get(b) is x, "likely subtags", lambda: "%s should be %s, is %r in %r" % (a, b, x, case["langs"]))
        if stage == "likely":
            with open(os.path.join(d, "extras"), "w", encoding="utf-8") as f:
                f.write("confirmed\tlangtag\tname\tlikely_subtag\n" + "".join("%s\t%s\tname\t%s\n" % (c, a, b) for a, b, c in case["extras"]))
            had = set(L)
            L.readExtras(os.path.join(d, "extras"))
            consistent(L, mon)
            for a, b, c in case["extras"]:
                mon.event("extra" if c != "CLDR" else "extra not needed")
                if c == "CLDR":
                    mon.expect(L.get(a) is None and L.get(b) is None, "extras CLDR has", lambda: "%s: %r" % (a, L.get(a)))
                else:
                    x = L.get(a)
                    mon.expect(x is not None and repr(x) == b and L.get(b) is x, "extras", lambda: "%s should be %s, is %r" % (a, b, x))
            mon.expect({t.split("-")[0] for t in set(L) - had} <= {a.split("-")[0] for a, b, c in case["extras"]}, "extras only", lambda: repr(sorted(set(L) - had)))
            L.readSupplementalData(os.path.join(d, "supp"))
            consistent(L, mon)
    for o in case["langs"]:
        if o["likely"] and len(o["pop"]) == 1 and o["pop"][0] not in repr(o["likely"]):
            mon.event("one region elsewhere")
            x = L.get(o["lang"] + "-" + o["pop"][0])
            mon.expect(x is not None and x.region == o["pop"][0], "only region", lambda: "%r: %r" % (o, x))
        if not o["likely"] and len(o["pop"]) == 1:
            mon.event("one region")
            x = L.get(o["lang"])
            mon.expect(x is not None and x.region == o["pop"][0] and L.get(o["lang"] + "-" + o["pop"][0]) is x, "only region", lambda: "%r: %r" % (o, x))
    mon.sample(dict(langs=[o["lang"] for o in case["langs"]], likely=likely[:4]))
