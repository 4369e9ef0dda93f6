"""E03 exemplars follow the documented rules for marks, frequency and index."""
import collections, random
from .. import exmodel as x
from .. import chars

PID = "E03"
RULE = ("random texts over 14 script profiles (productive, shared, stacked and Indic marks, joiners, numbers with marks, rare letters), with random settings and "
        "optionally exemplars listed beforehand, are analysed; the returned sets are compared with those of an independent implementation of the documented rules; "
        "non-trivial = a mark was split off, or main and auxiliary are both populated, or a listed multigraph occurs")
ANCHORS = ["lib/sldr/ldml_exemplars.py"]
REQUIRES = {"compared": 1500, "rule:matra": 100, "rule:same": 100, "rule:productive": 100, "rule:always": 100, "both-main-and-aux": 200, "listed": 200}


def gen(rng):
    return dict(kind="text", words=x.words(rng), opts=x.options(rng))


def gen_listed(rng):
    ws = x.words(rng, 15)
    listed = {}
    items = x.pick_listed(rng, ws)
    for it in items:
        listed.setdefault(rng.choice(["main", "main", "auxiliary", "index", "punctuation"]), []).append(it)
    if "index" in listed:
        listed["index"] = [i.upper() if x.nfd(i.upper()).lower() == i else i for i in listed["index"]]
    return dict(kind="listed", words=ws, opts=x.options(rng), listed=listed)


KINDS = {"text": (gen, 3500, 60000), "listed": (gen_listed, 1500, 25000)}


def check(case, mon):
    from sldr import UnicodeSets
    from sldr.ldml_exemplars import UCD
    ws, opts = case["words"], case["opts"]
    text = " ".join(ws)
    listed = case.get("listed") or {}
    allitems = set(x.nfd(i) for l in listed.values() for i in l)
    if x.awkward(text) or any(x.awkward(i) for i in allitems):
        mon.skip("nukta after another mark or on a digit")
        return
    dom = x.main_script(ws)
    if dom is None:
        mon.skip("no dominant script")
        return
    ucd = UCD()
    presets = {k: UnicodeSets.list2us([x.nfc(i) for i in v], ucd) for k, v in listed.items()}
    e = x.run(ws, opts, presets)
    cl = collections.Counter()
    for w in ws:
        cl.update(x.clusters(w, allitems))
    want, counts, undecided, feats = x.analyse(cl, opts["many_bases"], opts["frequent"])
    mon.event("compared")
    for k, v in feats.items():
        if v:
            mon.event("rule:" + k)
    if want["main"] and want["auxiliary"]:
        mon.event("both-main-and-aux")
    if any(len(i) > 1 and (i, "") in cl for i in allitems):
        mon.event("listed")
    if any(feats.values()) or want["main"] and want["auxiliary"] or allitems:
        mon.substantive(tuple(sorted(cl.items())), tuple(sorted(opts.items())), tuple(sorted(allitems)))
    mon.state("features", tuple(sorted((k, min(v, 3)) for k, v in feats.items())), dom)
    got = x.sets(e)
    und = set(x.nfc(u) for u in undecided)
    undi = set(x.nfc(x.nfd(u).upper()) for u in undecided)
    for k in got:
        w = set(x.nfc(s) for s in want[k] if x.keep(s, dom))
        g = set(got[k])
        diff = w ^ g
        if k in ("main", "auxiliary"):
            diff -= und
        elif k == "index":
            diff -= undi
        mon.expect(not diff, "set:" + k, lambda: "%s: missing %s, unexpected %s" % (k, ascii(sorted((w - g) & diff)), ascii(sorted((g - w) & diff))))
    mon.expect(e.script == dom, "script", lambda: "script %s, most frequent is %s" % (e.script, dom))
