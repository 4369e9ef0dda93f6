"""R04 cldrimport: each locale's file is the union of its parts with its identity, and nothing else changes."""
import difflib, os, random
from .. import ldmlgen as g
from ..ldmlrun import *
from .. import langtags, scriptrun
from .L01 import leaftext, SERIAL
try:
    import langtag, sldr.ldml_merge         # what the tool imports, once for all its runs
except ImportError:
    pass

PID = "R04"
RULE = ("random sources of CLDR shape (main, collation, casing and segments, each with some of the locales, hostile documents with references and drafts, other files anywhere, damaged parts) imported "
        "into empty and filled places with every option, in one process and in several; each file is compared with the union of the parts. Non-trivial = at least two locales written, distinct by bytes")
ANCHORS = ["scripts/cldrimport", "lib/sldr/ldml_merge.py", "lib/sldr/ldml.py"]
REQUIRES = {"compared": 250, "several parts": 80, "references": 100, "known": 80, "unknown": 60, "removed": 12, "kept": 30, "seed": 25, "single": 40, "several": 40, "damaged": 8}
DIRS = ("main", "collation", "casing", "segments")
TOPS = dict(collation=("collations",), casing=("casingData",), segments=("segmentations",))


def gen_part(rng, loc, d):
    own = TOPS.get(d)
    t = None
    for _ in range(4 if own else 1):
        n = g.Gen(rng, size=rng.choice([10, 25, 60]), drafts=rng.choice([0, .3]), alts=rng.choice([0, .3]), ws=True, comments=rng.choice([0, .2]), default_draft=None).document()
        other = [x for k in TOPS.values() for x in k]
        n[3][:] = [c for c in n[3] if c[0] not in ("identity", "alias") and (c[0] in own if own else c[0] not in other)]
        if t is None:
            t = n
            if t[3]:
                break
        elif n[3]:
            t = n
            break
    if own and not t[3]:
        if d == "collation":
            t[3].append(["collations", {}, None, [["collation", dict(type="standard"), None, [["cr", {}, "&a<b%d" % rng.randrange(9), [], []]], []]], []])
        elif d == "casing":
            t[3].append(["casingData", {}, None, [["casingItem", dict(type="x"), "lowercase", [], []]], []])
        else:
            t[3].append(["segmentations", {}, None, [["segmentation", dict(type="WordBreak"), None, [["variables", {}, None, [["variable", dict(id="$A"), "[a%d]" % rng.randrange(9), [], []]], []]], []]], []])
    g.prune_duplicates(t, keepalt=True)
    refs = [0]

    def mark(e):
        e[1].pop("references", None)
        for c in e[3]:
            mark(c)
    mark(t)
    g.prune_duplicates(t, keepalt=True)

    def alternates(e):
        for c in list(e[3]):
            if c[3]:
                alternates(c)
            elif c[0] not in SERIAL and not c[1].get("alt") and rng.random() < .15:
                for a in rng.sample(["proposed", "variant", "proposed-x7"], rng.randint(1, 2)):
                    e[3].append([c[0], dict(c[1], alt=a, draft="provisional"), "other %d" % rng.randrange(99) if c[2] else c[2], [], []])
    if rng.random() < .4:
        alternates(t)
        g.prune_duplicates(t, keepalt=True)

    def ref(e):
        if rng.random() < .1:
            e[1]["references"] = rng.choice(["R1", "R2 R3", "a&b"])
            refs[0] += 1
        for c in e[3]:
            ref(c)
    if rng.random() < .5:
        for c in t[3]:
            ref(c)
    b = loc.split("_")
    i = ["identity", {}, None, [["version", dict(number="$Revision: %d $" % rng.randrange(99)), None, [], []], ["language", dict(type=b[0]), None, [], []]], []]
    for x in b[1:]:
        i[3].append(["script" if len(x) == 4 else "territory", dict(type=x), None, [], []])
    t[3].insert(0, i)
    return t, refs[0]


def gen(rng):
    table = langtags.gen_table(rng, rng.randint(1, 4))
    locs = []
    for e in table:
        locs += rng.sample([t.replace("-", "_") for t in [e["tag"], e["tag"], e["full"]] + e["tags"]], rng.choice([1, 1, 2]))
    locs += rng.sample(["root", "nox", "nox_Cyrl_RS", "en"], rng.choice([0, 1, 2]))
    locs = list(dict.fromkeys(locs))
    rng.shuffle(locs)
    parts = []
    for l in locs:
        for d in rng.choice([["main"], ["main"], ["collation"], ["main", "collation"], ["casing", "segments"], DIRS, ["main", "segments"]]):
            t, n = gen_part(rng, l, d)
            parts.append([d, l, t, n])
    old = [[rng.choice(locs + ["gone", "gone_Latn", "zz", "old_ET"]), rng.choice([None, None, None, "q"])] for _ in range(rng.choice([0, 1, 3]))]
    return dict(table=table, parts=parts, fmt=rng.randrange(1 << 30), old=old, remove=rng.random() < .5, seed=rng.random() < .3, topns=rng.random() < .5,
                single=rng.random() < .6, stray=rng.random() < .4, damaged=rng.randrange(len(parts)) if rng.random() < .08 else None)


KINDS = {"import": (gen, 240, 9000)}


def check(case, mon):
    try:
        run(case, mon, mon.tmp)
    finally:
        mon.cleartmp()


def put(top, name, data):
    p = os.path.join(top, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8"))


def plain(e):
    """ without references """
    return [e[0], {k: v for k, v in e[1].items() if k != "references"}, e[2], [plain(c) for c in e[3]], e[4]]


def run(case, mon, top):
    src, out = os.path.join(top, "common"), os.path.join(top, "out")
    os.makedirs(out)
    env = langtags.write(case["table"], os.path.join(top, "langtags.json"))
    table = case["table"]
    if not any(e["tag"] == "en" for e in table):
        table = table + [dict(tag="en", full="en-Latn-US", tags=["en-US", "en-Latn"], script="Latn", region="US")]
    rng = random.Random(case["fmt"])
    locs = {}
    for n, (d, l, t, refs) in enumerate(case["parts"]):
        x = g.to_xml(t, rng, shuffle_atts=True, shuffle_kids=SERIAL, cdata=.2).encode("utf-8")
        if n == case["damaged"]:
            x = x[:len(x) * 2 // 3]
        put(src, "%s/%s.xml" % (d, l), x)
        locs.setdefault(l, []).append((d, t))
        if refs:
            mon.event("references")
    if case["stray"]:
        put(src, "main/README.txt", "no")
        put(src, "supplemental/supplementalData.xml", "<supplementalData/>")
        put(src, "annotations/aa.xml", "<ldml/>")
        put(out, "a/notes.txt", "keep")
        put(out, "README", "keep")
    for l, d in case["old"]:
        put(out, "%s/%s.xml" % (d or l[0], l), "<ldml><identity><language type='%s'/></identity><characters><exemplarCharacters>[old]</exemplarCharacters></characters></ldml>" % l)
    before, insrc = scriptrun.snapshot(out), scriptrun.snapshot(src)
    args = [src, out] + ["-s"] * case["single"] + ["--seed"] * case["seed"] + ["-t"] * case["topns"] + ["-r"] * case["remove"]
    mon.event("single" if case["single"] else "several")
    rc, so, se = scriptrun.run("cldrimport", args, top, env=env)
    mon.expect(scriptrun.snapshot(src) == insrc, "source-changed", "the files imported were changed")
    got = scriptrun.snapshot(out)
    if case["damaged"] is not None:
        mon.event("damaged")
        mon.expect(rc not in (0, None), "damage-not-reported", lambda: "%r: %r %s %s" % (args, rc, so[-300:], se[-300:]))
        x = [n for n in before if n not in got]
        mon.expect(not x, "removed-on-failure", lambda: "%r" % x)
        return
    if not mon.expect(rc == 0, "tool-fails", lambda: "%r: %r %s %s" % (args, rc, so[-300:], se[-700:])):
        return
    if case["seed"]:
        mon.event("seed")
    want = {}
    for l, parts in locs.items():
        parts.sort(key=lambda p: DIRS.index(p[0]))
        t = normtree(plain(parts[0][1]))
        for _, p in parts[1:]:
            t[3] += [c for c in normtree(plain(p))[3] if c[0] != "identity"]
        if len(parts) > 1:
            mon.event("several parts")
        a = dict(source="cldr")
        if case["seed"]:
            a = dict(source="cldrseed", draft="unconfirmed")
        e = langtags.find(table, l)
        mon.event("known" if e else "unknown")
        if e:
            a.update(script=e["script"], defaultRegion=e["region"])
        i = [c for c in t[3] if c[0] == "identity"][0]
        i[3].append(["special", {}, None, [["sil:identity", a, None, [], []]], []])
        t = drop_drafts(t, "unconfirmed")
        n = "%s/%s.xml" % (l[0], l)
        want[n] = t
        if not mon.expect(n in got, "not-written", n):
            continue
        d = g.deep_diff(g.unordered(t, SERIAL), g.unordered(leaftext(g.from_xml(got[n].decode("utf-8"))), SERIAL))
        mon.event("compared")
        mon.expect(d is None, "differs", lambda: "%s: %s\n%s" % (n, d, got[n].decode("utf-8")[:2500]))
    for n in sorted(set(before) | set(got)):
        if n in want:
            continue
        b, l = n.split("/")[0], os.path.splitext(n.split("/")[-1])[0]
        if case["remove"] and n in before and n.endswith(".xml") and "/" in n and b == l[0] and l not in locs:
            mon.event("removed")
            mon.expect(n not in got, "not-removed", n)
        else:
            mon.event("kept")
            mon.expect(got.get(n) == before.get(n), "other-file-changed", n)
    args2 = [a for a in args if a != "-s"] + ["-s"] * (not case["single"])
    rc, so, se = scriptrun.run("cldrimport", args2, top, env=env)
    mon.expect(rc == 0, "tool-fails", lambda: "second: %r: %r %s %s" % (args2, rc, so[-300:], se[-700:]))
    again = scriptrun.snapshot(out)
    x = sorted(n for n in set(got) | set(again) if got.get(n) != again.get(n))
    mon.expect(not x, "again", lambda: "%s\n%s" % (x, "\n".join(list(difflib.unified_diff(*[z.get(x[0], b"").decode("utf-8").split("\n") for z in (got, again)], lineterm="", n=1))[:60])))
    if len(want) > 1:
        mon.substantive(repr(sorted(got.items())))
    mon.sample(dict(parts=[p[:2] for p in case["parts"]], options=args[2:], files=sorted(got)))
