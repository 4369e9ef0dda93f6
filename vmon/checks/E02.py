"""E02 exemplars depend on the text only."""
import random
from .. import exmodel as x
from ..hashpool import HashPool

PID = "E02"
RULE = ("each random text is processed as given, in another order, in one piece, in the other normal forms, twice over, and in processes with other hash seeds; "
        "all returned sets, the script and the counts must agree; non-trivial = at least two words and one mark")
ANCHORS = ["lib/sldr/ldml_exemplars.py"]
REQUIRES = {"variant:order": 1000, "variant:joined": 1000, "variant:NFC": 1000, "variant:NFD": 1000, "variant:twice": 1000, "variant:hash": 100}
_pool = None


def gen(rng):
    return dict(kind="text", words=x.words(rng, rng.choice([5, 20, 40])), opts=x.options(rng), seed=rng.randrange(1 << 30))


def gen_hash(rng):
    c = gen(rng)
    c["kind"] = "hash"
    return c


KINDS = {"text": (gen, 2500, 40000), "hash": (gen_hash, 500, 6000)}


def observe(ws, opts, how="words"):
    e = x.run(ws, opts, how=how)
    return dict(main=e.main, auxiliary=e.auxiliary, index=e.index, punctuation=e.punctuation, digits=e.digits, script=e.script,
                graphemes=sorted(x.members(e.graphemes)), frequency=sorted(x.members(e.frequency)))


def remote(req):
    r = observe(req["words"], req["opts"])
    e = x.run(req["words"], req["opts"])
    r["lists"] = [e.graphemes, e.frequency]
    return r


def check(case, mon):
    global _pool
    ws, opts = case["words"], case["opts"]
    if x.main_script(ws) is None:
        mon.skip("two scripts are equally frequent")
        return
    if case["kind"] == "hash":
        if _pool is None:
            _pool = HashPool("vmon.checks.E02:remote")
        res = _pool(dict(words=ws, opts=opts))
        mon.event("variant:hash", len(res) - 1)
        for s, r in zip(_pool.seeds[1:], res[1:]):
            mon.expect(r == res[0], "hash-seed", lambda: diff(res[0], r) + " for hash seed " + s)
        if res[0][0] == "error":
            mon.violation("crash", res[0][1])
        mon.substantive("hash", tuple(ws))
        return
    rng = random.Random(case["seed"])
    a = observe(ws, opts)
    if len(ws) > 1 and any(x.is_mark(c) for w in ws for c in x.nfd(w)):
        mon.substantive(tuple(ws))
    variants = {}
    w2 = ws[:]
    rng.shuffle(w2)
    variants["order"] = observe(w2, opts)
    variants["NFC"] = observe([x.nfc(w) for w in ws], opts)
    variants["NFD"] = observe([x.nfd(w) for w in w2], opts)
    if any(x.is_specific(c) for w in ws for c in x.nfd(w)):
        # without a letter of some script the added spaces may have the most frequent script
        variants["joined"] = observe(w2, opts, how=rng.choice([" ", "\n", " \u2003 "]))
    tw = [w for w in ws for _ in (0, 1)]
    twice = observe(tw, opts)
    for k, v in variants.items():
        mon.event("variant:" + k)
        mon.expect(v == a, "same:" + k, lambda: diff(["ok", a], ["ok", v]))
    mon.event("variant:twice")
    mon.expect(all(twice[k] == a[k] for k in a if k != "frequency"), "same:twice", lambda: diff(["ok", a], ["ok", twice]))
    mon.state("sizes", len(a["main"]), len(a["auxiliary"]))


def diff(a, b):
    if a[0] != "ok" or b[0] != "ok":
        return "%s / %s" % (a[1] if a[0] != "ok" else "ok", b[1] if b[0] != "ok" else "ok")
    return "; ".join("%s: %s / %s" % (k, ascii(a[1][k]), ascii(b[1][k])) for k in a[1] if a[1][k] != b[1][k])
