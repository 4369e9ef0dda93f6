"""T01 a language tag is its parts: read, printed, counted, copied and compared."""
import random
from sldr.langtags_full import LangTag

PID = "T01"
RULE = ("well-formed language tags of every mixture of parts (2 and 3 letter and private languages, extended language, script, region, variants of both shapes, extensions, "
        "private use with any subtags), in any case and with either separator, with parts marked as implied. Non-trivial = at least three kinds of parts, distinct by tag")
ANCHORS = ["lib/sldr/langtags_full.py"]
REQUIRES = {"tag": 8000, "extlang+script": 500, "digit variant": 800, "extension": 2000, "private use": 1200, "implied": 2500, "implied variant or extension": 3000, "pair": 6000}
AL = "abcdefghijklmnopqrstuvwxyz"
DG = "0123456789"


def word(rng, a, b, alpha=AL):
    return "".join(rng.choice(alpha) for _ in range(rng.randint(a, b)))


def gen_parts(rng):
    r = rng.random()
    p = dict(lang=None, ext=None, script=None, region=None, variants=[], exts=[])
    if r < .06:
        p["lang"] = "x-" + word(rng, 2, 3)
        p["script"] = word(rng, 4, 4).title()
    else:
        p["lang"] = word(rng, 2, 3)
        if rng.random() < .25:
            p["ext"] = word(rng, 3, 3)
        if rng.random() < .55:
            p["script"] = word(rng, 4, 4).title()
    if rng.random() < .55:
        p["region"] = word(rng, 2, 2).upper() if rng.random() < .75 else word(rng, 3, 3, DG)
    if rng.random() < .4:
        for _ in range(rng.choice([1, 1, 2, 3])):
            v = word(rng, 5, 8, AL + DG) if rng.random() < .6 else rng.choice(DG) + word(rng, 3, 3, AL + DG)
            if v not in p["variants"]:
                p["variants"].append(v)
    if rng.random() < .4:
        for s in rng.sample([c for c in AL + DG if c != "x"], rng.choice([1, 1, 2])):
            p["exts"].append([s, [word(rng, 2, 8, AL + DG) for _ in range(rng.randint(1, 4))]])
    if len(p["exts"]) > 1 and rng.random() < .4:     # the same in two extensions
        p["exts"][1][1][0] = p["exts"][0][1][0]
    if rng.random() < .3:
        p["exts"].append(["x", [word(rng, 1, 8, AL + DG) for _ in range(rng.randint(1, 4))]])
    return p


def gen(rng):
    a = gen_parts(rng)
    # another tag which differs in one part or not at all
    b = {k: v for k, v in a.items()}
    k = rng.choice(["none", "lang", "script", "region", "variants", "exts"])
    c = gen_parts(rng)
    if k != "none" and not (a["lang"].startswith("x-") or c["lang"].startswith("x-")):
        b[k] = c[k]
        if k in ("variants", "exts") and rng.random() < .3:      # the same in another order
            if k == "variants":
                b[k] = rng.sample(a[k], len(a[k]))
            else:
                b[k] = [[e, rng.sample(v, len(v))] for e, v in a[k]]
        if k == "lang":
            b["ext"] = c["ext"]
    return dict(a=a, b=b, seed=rng.randrange(1 << 30))


KINDS = {"tag": (gen, 20000, 600000)}


def FIXED():
    N = dict(ext=None, script=None, region=None, variants=[], exts=[])
    res = []
    for p in (dict(lang="en"), dict(lang="zh", ext="cmn", script="Hans", region="CN"), dict(lang="zh", ext="yue", script="Hant"), dict(lang="zh", ext="cmn", region="CN"),
              dict(lang="de", variants=["1996"]), dict(lang="de", region="CH", variants=["1901"]), dict(lang="sl", variants=["rozaj", "solba", "1994"]),
              dict(lang="en", exts=[["a", ["myext"]], ["b", ["another"]]]), dict(lang="de", exts=[["u", ["co", "phonebk"]], ["x", ["foobar"]]]),
              dict(lang="en", exts=[["t", ["jp"]], ["x", ["u", "a"]]]), dict(lang="qaa", script="Latn", region="001", variants=["fonipa"], exts=[["x", ["a", "b", "1"]]]),
              dict(lang="de", variants=["1901", "1996"], exts=[["u", ["kn", "co", "phonebk"]]])):
        p = dict(N, **p)
        res.append(dict(a=p, b=dict(p, script="Cyrl"), seed=len(res)))
    return res


def canon(p, script=True, region=True):
    res = [p["lang"]] + ([p["ext"]] if p["ext"] else [])
    if script and p["script"]:
        res.append(p["script"])
    if region and p["region"]:
        res.append(p["region"])
    res += p["variants"]
    for s, subs in sorted(p["exts"], key=lambda e: (e[0] == "x", e[0])):
        res += [s] + subs
    return "-".join(res)


def spell(p, rng):
    """ The tag as somebody may write it """
    order = [e for e in p["exts"] if e[0] != "x"]
    rng.shuffle(order)
    q = [p["lang"]] + [x for x in (p["ext"], p["script"], p["region"]) if x] + p["variants"]
    for s, subs in order + [e for e in p["exts"] if e[0] == "x"]:
        q += [s] + subs
    how = rng.choice(["lower", "as is", "as is", "upper", "mixed"])
    if how == "lower":
        q = [x.lower() for x in q]
    elif how != "as is":
        keep = p["lang"].startswith("x-")
        q = [x if keep and i == 0 else x.upper() if how == "upper" else "".join(rng.choice([c.upper(), c.lower()]) for c in x) for i, x in enumerate(q)]
    return rng.choice("-_-").join(q)


def facts(t):
    return (t.lang, t.script, t.region, list(t.variants or []), {k: list(v) for k, v in (t.extensions or {}).items()})


def meant(p):
    return (p["lang"] + ("-" + p["ext"] if p["ext"] else ""), p["script"], p["region"], p["variants"], dict(p["exts"]))


def check(case, mon):
    rng = random.Random(case["seed"])
    a, b = case["a"], case["b"]
    mon.event("tag")
    kinds = [k for k in ("ext", "script", "region", "variants", "exts") if a[k]]
    mon.state("shape", kinds, [len(v) == 4 for v in a["variants"]], [s for s, _ in a["exts"]])
    if a["ext"] and a["script"]:
        mon.event("extlang+script")
    if any(v[0] in DG and len(v) == 4 for v in a["variants"]):
        mon.event("digit variant")
    if a["exts"]:
        mon.event("extension")
    if any(s == "x" for s, _ in a["exts"]):
        mon.event("private use")
    if len(kinds) >= 2:
        mon.substantive(canon(a))
    txt = spell(a, rng)
    t = LangTag(txt)
    full = canon(a)
    mon.sample(txt)
    mon.expect(facts(t) == meant(a), "parts", lambda: "%s: %r" % (txt, facts(t)))
    mon.expect(repr(t) == full, "full form", lambda: "%s -> %r" % (txt, repr(t)))
    mon.expect(str(t) == full, "short form", lambda: "%s -> %s" % (txt, t))
    n = 1 + bool(a["script"]) + bool(a["region"]) + len(a["variants"]) + sum(1 + len(v) for _, v in a["exts"])
    mon.expect(len(t) == n, "length", lambda: "%s: %d" % (txt, len(t)))
    mon.expect(t.allforms() == [full], "forms", lambda: "%s: %r" % (txt, t.allforms()))
    u = LangTag(repr(t))
    mon.expect(facts(u) == facts(t) and repr(u) == repr(t), "reading again", lambda: "%s: %r" % (txt, repr(u)))
    # the same made of its parts
    w = LangTag(lang=meant(a)[0], script=a["script"], region=a["region"], variants=list(a["variants"]) or None, extensions={k: list(v) for k, v in a["exts"]} or None)
    mon.expect(repr(w) == full, "made of parts", lambda: "%r -> %r" % (a, repr(w)))
    # implied parts
    sc, rg = bool(a["script"]) and rng.random() < .5, bool(a["region"]) and rng.random() < .5
    both = rng.random() < .5
    if a["script"] or a["region"]:
        t.hidescript, t.hideregion, t.hideboth = sc, rg, both
        if sc or rg:
            mon.event("implied")
        forms = set()
        for s in ([True] if a["script"] else [False]) + ([False] if sc else []):
            for r in ([True] if a["region"] else [False]) + ([False] if rg else []):
                if s or r or both:
                    forms.add(canon(a, s, r))
        mon.expect(repr(t) == full, "full form", lambda: "%s -> %r (hidden %r)" % (txt, repr(t), (sc, rg, both)))
        mon.expect(set(t.allforms()) == forms, "forms", lambda: "%s (%r): %r is not %r" % (txt, (sc, rg, both), t.allforms(), forms))
        if a["script"] and a["region"]:
            mon.expect(str(t) in forms and len(str(t)) == min(len(f) for f in forms) or a["script"] and sc and rg and not both and str(t) in forms,
                       "short form", lambda: "%s (%r): %s" % (txt, (sc, rg, both), t))
    # implied variants and subtags of extensions
    if a["variants"] or a["exts"]:
        hv = [v for v in a["variants"] if rng.random() < .5][:3]
        room = 5 - len(hv)
        he = {}
        for k, vs in a["exts"]:
            for v in vs:
                if room and rng.random() < .45:
                    he.setdefault(k, []).append(v)
                    room -= 1
        w = LangTag(full)
        w.hidescript, w.hideregion, w.hideboth = sc, rg, True
        if hv:
            w.hidevariants = list(hv)
        if he:
            w.hideextensions = {k: list(v) for k, v in he.items()}
        if hv or he:
            mon.event("implied variant or extension")
        gone = [("", v) for v in hv] + sorted({(k, v) for k, vs in he.items() for v in vs})
        forms = set()
        for m in range(1 << len(gone)):
            out = {g for i, g in enumerate(gone) if m >> i & 1}
            b2 = dict(a, variants=[v for v in a["variants"] if ("", v) not in out],
                      exts=[e for e in ([k, [v for v in vs if (k, v) not in out]] for k, vs in a["exts"]) if e[1]])
            for s in ([True] if a["script"] else [False]) + ([False] if sc else []):
                for r in ([True] if a["region"] else [False]) + ([False] if rg else []):
                    forms.add(canon(b2, s, r))
        mon.expect(set(w.allforms()) == forms, "forms", lambda: "%s (implied %r %r): %r is not %r" % (full, hv, he, w.allforms(), forms))
    # copies
    c = t.copy()
    mon.expect(facts(c) == facts(t) and repr(c) == repr(t) and str(c) == str(t) and len(c) == len(t) and set(c.allforms()) == set(t.allforms()), "copy", lambda: "%s: %r" % (txt, c))
    mon.expect(t.matches(c) and c.matches(t), "copy matches", txt)
    before = (facts(t), str(t), repr(t))
    c.lang, c.script, c.region = "zz", "Zzzz", "ZZ"
    if c.variants:
        c.variants.append("changed")
    for v in (c.extensions or {}).values():
        v.append("changed")
    mon.expect((facts(t), str(t), repr(t)) == before, "copy shared", lambda: "%s: %r" % (txt, facts(t)))
    # pairs
    mon.event("pair")
    x, y = LangTag(spell(a, rng)), LangTag(spell(b, rng))
    same = meant(a) == meant(b)
    mon.expect(x.matches(y) == same and y.matches(x) == same, "match", lambda: "%r and %r: %s" % (x, y, x.matches(y)))
    mon.expect((x < y) == (canon(a) < canon(b)), "order", lambda: "%r < %r: %s" % (x, y, x < y))
    if same:
        mon.event("equal pair")
        mon.expect(hash(x) == hash(y), "hash", txt)
