"""Families of locale files: generation, the fallback chain model and the inheritance model."""
import copy, os, re
from lxml import etree
from . import ldmlgen as g
from .ldmlrun import *
from sldr.ldml_merge import LdmlMerge, flattenlocale

SERIAL = g.serial_elements()
FAMILIES = [["root", "aa", "aa_Latn", "aa_Latn_ET", "aa_ET"], ["root", "en", "en_001", "en_150", "en_AT", "en_GB"],
            ["root", "zh", "zh_Hant", "zh_Hant_HK", "zh_Hant_MO"], ["root", "no", "nb", "nn", "nb_NO"],
            ["root", "es", "es_419", "es_MX", "es_ES"], ["root", "pt", "pt_PT", "pt_AO", "pt_BR"],
            ["root", "uz", "uz_Arab", "uz_Arab_AF", "uz_Cyrl"], ["root", "qqq", "qqq_Cyrl_RU_x", "qqq_Cyrl"]]
SILF = "sil:font"
NOTES = ["fx:note", "fx:memo"]      # attributes outside the DTD are content like the text

_parents = None


def parents():
    """ Declared parents, read independently from the supplemental data """
    global _parents
    if _parents is None:
        _parents = {}
        doc = etree.parse(os.path.join(g.LIB, "sldr", "supplementalData.xml"))
        for p in doc.getroot().find("parentLocales").findall("parentLocale"):
            for l in p.get("locales").split():
                _parents.setdefault(l, p.get("parent"))
    return _parents


def parent(l):
    if l in parents():
        return parents()[l]
    return l.rpartition("_")[0] or "root"


def chain(l, fallback=None):
    """ Every locale whose data a locale may take, nearest first """
    res = []
    for f in fallback or [parent(l)]:
        while f != "root":
            if f not in res:
                res.append(f)
            f = parent(f)
    if l != "root":
        res.append("root")
    return res


def prune(e, drop):
    e[3][:] = [c for c in e[3] if c[0] not in drop and c[0] not in SERIAL]
    for c in e[3]:
        prune(c, drop)


def leaves(e, path=()):
    """ Leaf keys with their nodes """
    for c in e[3]:
        p = path + (g.key_of(c),)
        if c[3]:
            yield from leaves(c, p)
        else:
            yield p, c


def universe(rng, size):
    """ A document of distinct leaves; size is about the number of leaves """
    t = None
    for _ in range(6):
        G = g.Gen(rng, size=size * 2, drafts=0, alts=0, comments=0, hostile=.08, ws=False, default_draft=None, extra_atts=.35)
        n = G.document()
        prune(n, ("identity", "alias", "collations", "sil:external-resources", "fallback", "base", "cr"))
        g.prune_duplicates(n)
        if t is None:
            t = n
        else:
            g.combine(t, n)
        if sum(1 for _ in leaves(t)) >= size:
            break

    def clean(e):
        e[3][:] = [c for c in e[3] if c[0] != "special" or c[3]]
        for c in e[3]:
            clean(c)
        if e[3]:
            e[2] = None
            e[1].pop("draft", None)
            e[1].pop("alt", None)
    clean(t)
    return t


def subset(rng, t, keep, value, drafts=0, alts=0, empties=0, notes=0):
    """ A document holding some of the leaves of t, with values from value(oldtext) """
    kids = []
    for c in t[3]:
        if c[3]:
            n = subset(rng, c, keep, value, drafts, alts, empties, notes)
            if empties and rng.random() < empties:
                n[3] = []
            if n[3] or empties and rng.random() < empties:
                kids.append(n)
        elif rng.random() < keep:
            v = value(c[2])
            a = dict(c[1])
            if drafts and rng.random() < drafts:
                a["draft"] = rng.choice(g.DRAFTS)
            if notes and rng.random() < notes:
                a[rng.choice(NOTES)] = rng.choice("mn")
            kids.append([c[0], a, v, [], []])
            if alts and v and rng.random() < alts:
                for n in rng.sample(["proposed", "variant", "proposed-x7"], rng.randint(1, 2)):
                    kids.append([c[0], dict(c[1], alt=n, draft=rng.choice(g.DRAFTS[2:])), value(c[2]) or "z", [], []])
                    if notes and rng.random() < notes:
                        kids[-1][1][rng.choice(NOTES)] = rng.choice("mn")
    return [t[0], dict(t[1]), t[2], kids, []]


def gen_family(rng, arrows=.06, drafts=0, alts=0, scripts=True, extras=True, empties=0, notes=0):
    names = rng.choice(FAMILIES)
    u = universe(rng, rng.choice([10, 20, 40, 80]))
    ctr = [0]

    def value(old):
        r = rng.random()
        if r < arrows:
            return "\u2191\u2191\u2191"
        if r < .55:
            return old
        ctr[0] += 1
        if not old and r < .75:
            return old
        if old and r < .68:
            return g.near(rng, old)
        if old and r < .71:
            return None
        return rng.choice(["x%d" % ctr[0], "line %d\nmore" % ctr[0], "same", "<&%d" % ctr[0]])
    files = {}
    for n in names:
        if n not in ("root",) and rng.random() < .12:
            continue
        t = subset(rng, u, rng.choice([.15, .4, .8]) if n != "root" else .8, value, drafts, alts, empties, notes)
        t[3].insert(0, identity(rng, n, scripts))
        if extras and rng.random() < .45:
            t[3].append(resources(rng, n))
        if rng.random() < .5:
            t[3].append(collations(rng, n))
        files[n] = t
    return dict(files=[[n, t] for n, t in files.items()], fmt=rng.randint(0, 1 << 30), names=names,
                layout=rng.choice(["flat", "alpha", "split"]))


def identity(rng, n, scripts):
    p = n.split("_")
    k = [["language", {"type": p[0]}, None, [], []]]
    scr = [x for x in p[1:] if len(x) == 4]
    ter = [x for x in p[1:] if len(x) in (2, 3)]
    if scr:
        k.append(["script", {"type": scr[0]}, None, [], []])
    if ter:
        k.append(["territory", {"type": ter[0]}, None, [], []])
    if scripts and n != "root" and rng.random() < .3:
        k.append(["special", {}, None, [["sil:identity", {"script": scr[0] if scr else rng.choice(["Latn", "Latn", "Hans"])}, None, [], []]], []])
    return ["identity", {}, None, k, []]


def collations(rng, n):
    return ["collations", {}, None, [["collation", {"type": ty}, None, [["cr", {}, "&a<" + rng.choice(["b", "c", n]), [], []]], []]
                                      for ty in rng.sample(["standard", "search", "phonebook"], rng.randint(1, 3))], []]


def collmap(t):
    """ {collation type: tailoring} """
    return {c[1].get("type"): g.norm_text(x[2]) for s in t[3] if s[0] == "collations" for c in s[3] if c[0] == "collation"
            for x in c[3] if x[0] == "cr"}


def resources(rng, n):
    fonts = []
    for i in range(rng.randint(0, 3)):
        a = {"name": "%s F%d" % (n, i)}
        ty = rng.choice([None, "default", "heading", "heading emphasis", "ui", "default ui"])
        if ty:
            a["types"] = ty
        fonts.append(["sil:font", a, None, [["sil:url", {}, "http://x/%s%d" % (n, i), [], []]] if rng.random() < .6 else [], []])
    kids = fonts
    if rng.random() < .5:
        kids = kids + [["sil:kbd", {"id": "k1"}, None, [["sil:url", {}, "http://k/" + n, [], []]], []]]
    er = [["sil:external-resources", {}, None, kids, []]] if kids else []
    oth = [["sil:simple", {}, None, [["sil:x", {}, "s-" + n, [], []]], []]] if rng.random() < .3 or not er else []
    return ["special", {}, None, er + oth, []]


def files_of(case):
    return {n: t for n, t in case["files"]}


def write_family(case, top, trees=None):
    """ Write the files under top, as two search directories; returns the directories """
    import random
    rng = random.Random(case["fmt"])
    dirs = [os.path.join(top, "a"), os.path.join(top, "b")]
    for d in dirs:
        os.makedirs(d, exist_ok=True)
    for n, t in sorted((trees or files_of(case)).items()):
        d = dirs[0] if case["layout"] != "split" or rng.random() < .5 else dirs[1]
        if case["layout"] == "alpha":
            d = os.path.join(d, n[0].lower())
            os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, n + ".xml"), "w", encoding="utf-8") as f:
            f.write(t if isinstance(t, str) else g.to_xml(t, rng, shuffle_atts=True, shuffle_kids=SERIAL))
    return dirs


# ------------------------------------------------------------------------------------------- model
def script_of(t):
    idn = [c for c in t[3] if c[0] == "identity"]
    res = None
    for c in idn[0][3] if idn else []:
        if c[0] == "script":
            res = res or c[1].get("type")
    for c in idn[0][3] if idn else []:
        if c[0] == "special":
            for s in c[3]:
                if s[0] == "sil:identity" and s[1].get("script"):
                    return s[1]["script"]
    return res


def drop_arrows(e):
    """ A value of three up arrows means: inherit. The element, and parents left empty by that, are not there """
    had = False
    kids = []
    for c in e[3]:
        if c[3]:
            c2 = drop_arrows(c)
            if not c2[3]:
                had = True
                continue
            kids.append(c2)
        elif c[2] == "\u2191\u2191\u2191":
            had = True
        else:
            kids.append(c)
    return [e[0], e[1], e[2], kids, e[4]]


def containers(trees):
    """ The places that hold further entries in some file: an element there without any says nothing """
    res = set()

    def rec(e, path):
        for c in e[3]:
            if c[3]:
                res.add(path + (g.key_of(c),))
                rec(c, path + (g.key_of(c),))
    for t in trees:
        rec(t, ())
    return res


def entrymap(t, skip=("identity", "collations")):
    """ {leaf path: {alt: value}} outside the blocks """
    res = {}

    def rec(e, path):
        for c in e[3]:
            if not path and c[0] in skip:
                continue
            if c[0] == "sil:external-resources":
                continue
            p = path + (g.key_of(c),)
            if c[3]:
                rec(c, p)
            else:
                res.setdefault(p, {})[c[1].get("alt")] = (g.norm_text(c[2]) or "") + "".join("\0%s=%s" % (n, c[1][n]) for n in NOTES if n in c[1])
    rec(t, ())
    return res


def fonts_of(t):
    """ (font name -> (types, urls)), other resources """
    for s in t[3]:
        if s[0] == "special":
            for e in s[3]:
                if e[0] == "sil:external-resources":
                    f, o = [], {}
                    for c in e[3]:
                        if c[0] == SILF:
                            f.append((c[1]["name"], frozenset(c[1].get("types", "default").split()), tuple(x[2] for x in c[3])))
                        else:
                            o[g.key_of(c)] = tuple(x[2] for x in c[3])
                    return f, o
    return [], {}


def inherit_fonts(mine, theirs):
    """ A font of ours replaces the inherited ones for its roles; a default font replaces all inherited ones """
    res = list(mine)
    used = set().union(*[f[1] for f in mine]) if mine else set()
    if "default" in used:
        return res
    for n, ty, u in theirs:
        if ty - used:
            res.append((n, ty - used, u))
    return res


def usable(l, files, fallback=None):
    """ The locales that really contribute: those that exist and do not state another script """
    s = script_of(files[l])
    return [c for c in chain(l, fallback) if c in files and script_of(files[c]) in (None, s)]
