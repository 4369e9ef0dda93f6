"""R02 ldmlnormalize: each LDML file of a file or directory is rewritten as itself in normal form, and nothing else is touched."""
import os, random
from .. import ldmlgen as g
from ..ldmlrun import *
from .. import scriptrun
from .L01 import gen_load, leaftext, SERIAL

PID = "R02"
RULE = ("single files and directories (files at the top and in folders, both extensions, other files anywhere, damaged and empty files) of hostile documents, "
        "normalised in place or elsewhere, twice; each file written is compared with the document it came from, with the library's own saving of that file alone "
        "and with the second run. Non-trivial = at least two documents written, distinct by bytes")
ANCHORS = ["scripts/ldmlnormalize", "lib/sldr/ldml.py"]
REQUIRES = {"written": 400, "stray": 60, "damaged": 30, "in place": 60, "elsewhere": 40, "file": 40, "directory": 80}


def gen(rng):
    one = rng.random() < .35
    docs = []
    for i in range(1 if one else rng.randint(1, 6)):
        c = gen_load(rng)
        docs.append(dict(tree=c["tree"], fmt=c["fmt"], name="%s%s%s" % (rng.choice("abx"), rng.choice([i, i, ""]), rng.choice([".xml", ".xml", ".ldml"])),
                         sub=rng.choice([None, None, "a", "b", "x"]),
                         damaged=rng.random() < .1))
    docs = list({(d["sub"], d["name"]): d for d in docs}.values())
    if one:
        docs[0]["damaged"] = rng.random() < .1
        docs[0]["name"] = rng.choice(["a.xml", "a.ldml", "odd.txt", "noext"])
    stray = [] if one else [[rng.choice(["README", "a.txt", "sub.d/notes.md", "a/x.xml.bak", "b/.hidden", ".gitignore", "x/data.json"]), "text \u00e9 <x>"]
                            for _ in range(rng.choice([0, 0, 1, 2]))]
    return dict(one=one, docs=docs, stray=stray, place=rng.random() < .5, seed=rng.randrange(10 ** 6))


KINDS = {"tree": (gen, 400, 12000)}


def put(top, name, data):
    p = os.path.join(top, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)
    return p


def check(case, mon):
    top = mon.tmp
    try:
        src = os.path.join(top, "src")
        out = src if case["place"] else os.path.join(top, "out")
        good, bad = {}, []
        for d in case["docs"]:
            rng = random.Random(d["fmt"])
            x = g.to_xml(d["tree"], rng, shuffle_atts=True, shuffle_kids=SERIAL, cdata=.2, charref=rng.random() < .5).encode("utf-8")
            n = d["name"] if not d["sub"] or case["one"] else os.path.join(d["sub"], d["name"])
            if d["damaged"]:
                x = x[:max(30, len(x) * 2 // 3)]
                bad.append(n)
                mon.event("damaged")
            else:
                good[n] = d
            put(src, n, x)
            if not case["place"]:
                os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True)
        for n, t in case["stray"]:
            put(src, n, t.encode("utf-8"))
            if not case["place"]:
                os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True)
            mon.event("stray")
        os.makedirs(out, exist_ok=True)
        before = scriptrun.snapshot(src)
        mon.event("in place" if case["place"] else "elsewhere")
        mon.event("file" if case["one"] else "directory")
        n1 = case["docs"][0]["name"]
        args = [os.path.join(src, n1) if case["one"] else src]
        if not case["place"]:
            args.append(os.path.join(out, "else.xml") if case["one"] else out)
        alone = {}
        for n in good:
            r = []
            Ldml(os.path.join(src, n)).serialize_xml(r.append)
            alone[n] = "".join(r).encode("utf-8")
        rc, so, se = scriptrun.run("ldmlnormalize", args, top)
        if not mon.expect(rc == 0, "tool-fails", lambda: "%r: %r %s %s" % (args, rc, so[-300:], se[-700:])):
            return
        got = scriptrun.snapshot(out)
        name = (lambda n: n) if case["place"] or not case["one"] else (lambda n: "else.xml")
        for n, d in sorted(good.items()):
            if not mon.expect(name(n) in got, "not-written", lambda: "%s: %r" % (n, sorted(got))):
                continue
            b = got.pop(name(n))
            mon.event("written")
            mon.expect(b == alone[n], "not-as-alone", lambda: "%s\n%s\n----\n%s" % (n, b.decode("utf-8")[:2000], alone[n].decode("utf-8")[:2000]))
            want = g.unordered(drop_drafts(normtree(d["tree"]), default_draft(d["tree"])), SERIAL)
            diff = g.deep_diff(want, g.unordered(leaftext(g.from_xml(b.decode("utf-8"))), SERIAL))
            mon.expect(diff is None, "differs", lambda: "%s: %s" % (n, diff))
        for n in bad:
            mon.expect(n in so, "damage-not-reported", lambda: "%s: %s" % (n, so[-300:]))
        if case["place"]:
            for n in sorted(set(bad + [s[0] for s in case["stray"]])):
                mon.expect(got.pop(n, None) == before[n], "other-file-changed", n)
        else:
            mon.expect(scriptrun.snapshot(src) == before, "input-changed", "the files read were changed")
        mon.expect(not got, "file-from-nowhere", lambda: "%r" % sorted(got))
        first = scriptrun.snapshot(out)
        a2 = [os.path.join(out, name(n1)) if case["one"] else out]
        if not (case["one"] and bad):
            rc, so, se = scriptrun.run("ldmlnormalize", a2, top)
            mon.expect(rc == 0, "tool-fails", lambda: "second: %r: %r %s %s" % (a2, rc, so[-300:], se[-700:]))
            again = scriptrun.snapshot(out)
            x = [n for n in set(first) | set(again) if first.get(n) != again.get(n)]
            mon.expect(not x, "not-stable", lambda: "%s\n%s\n----\n%s" % (x, first.get(x[0], b"")[:2000], again.get(x[0], b"")[:2000]))
        if len(good) > 1:
            mon.substantive(repr(sorted(first.items())))
        mon.sample(dict(files=sorted(before), damaged=bad, place=case["place"]))
    finally:
        mon.cleartmp()
