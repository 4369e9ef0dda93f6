"""E04 reports beside the exemplars: letters of one case only, candidates for multigraphs, normal forms of the sets."""
import collections, random
import icu
from .. import exmodel as x
from .. import chars

PID = "E04"
RULE = ("random texts over 14 script profiles and hostile characters, with words in capitals, title case and lower case, are processed with and without counting multigraphs; the letters reported as "
        "of one case and the counts of candidates are compared with a recount of the text, and the sets before and after with each other; non-trivial = letters of one case and of both")
ANCHORS = ["lib/sldr/ldml_exemplars.py"]
REQUIRES = {"text": 800, "one case": 3000, "both cases": 800, "candidates": 30000, "form": 800, "recomposed": 50}
FORMS = {"NFC": icu.Normalizer2.getNFCInstance, "NFD": icu.Normalizer2.getNFDInstance, "NFKC": icu.Normalizer2.getNFKCInstance, "NFKD": icu.Normalizer2.getNFKDInstance}


def recase(rng, w):
    r = rng.random()
    return w.upper() if r < .2 else w[:1].upper() + w[1:] if r < .4 else w.title() if r < .45 else w


def gen(rng):
    ws = x.words(rng, rng.choice([3, 10, 30, 60]))
    if rng.random() < .3:
        ws += [rng.choice(["\uff41\uff42", "\ufb01n", "\u3392", "\u2460", "\u00b2", "\u1e9b\u0323", "\ufdfa", "\u01c6", "\uff76\uff9e"]) for _ in range(3)]
    ws = [recase(rng, w) for w in ws]
    listed = {}
    if rng.random() < .3:
        for it in x.pick_listed(rng, ws):
            listed.setdefault(rng.choice(["main", "auxiliary"]), []).append(it)
    return dict(kind="text", words=ws, opts=x.options(rng), listed=listed, form=rng.choice(sorted(FORMS)))


def gen_raw(rng):
    """ any characters at all """
    return dict(kind="raw", words=[chars.string(rng, rng.choice([2, 6, 20])) for _ in range(rng.randint(0, 12))], opts=x.options(rng), listed={},
                form=rng.choice(sorted(FORMS)))


KINDS = {"text": (gen, 1800, 30000), "raw": (gen_raw, 800, 20000)}


def check(case, mon):
    ws, opts = case["words"], case["opts"]
    mon.event("text")
    from sldr.UnicodeSets import list2us
    from sldr.ldml_exemplars import UCD
    preset = {k: list2us([x.nfc(m) for m in v], UCD()) for k, v in case["listed"].items()}
    e = x.run(ws, opts, preset)
    e2 = x.run(ws, opts, preset, maxmultigraphs=True)
    got = x.sets(e)
    mon.expect(got == x.sets(e2), "counting-changes-sets", lambda: "%s: %r, counting %r" % (ascii(ws), got, x.sets(e2)))
    listed = set()
    for v in case["listed"].values():
        listed.update(x.nfd(m) for m in v)
    seen = collections.defaultdict(set)
    cand = collections.Counter()
    for w in ws:
        trace = []
        x.clusters(w, listed, trace)
        t = x.nfd(w)
        for start, cs, cl in trace:
            if cs:
                seen[cl].add(cs)
            for n in range(1, 5):
                if start + n <= len(t):
                    cand[t[start:start + n]] += 1
    want = {k: "only_" + next(iter(v)) for k, v in seen.items() if len(v) == 1}
    mon.event("one case", len(want))
    mon.event("both cases", len(seen) - len(want))
    mon.event("candidates", len(cand))
    awk = any(x.awkward(w) for w in ws)
    if not awk:
        mon.expect(e.non_casing_chars == want, "one-case", lambda: "%s: %s" % (ascii(ws), diff(e.non_casing_chars, want)))
        have = {k.text: v for k, v in e2.all_potential_multigraphs.items() if v}
        mon.expect(have == dict(cand), "candidates", lambda: "%s: %s" % (ascii(ws), diff(have, cand)))
    else:
        mon.event("awkward")
    # another normal form
    n = FORMS[case["form"]]()
    dom = e.script
    raw = {k: set(getattr(e, "_" + k)) for k in got}      # also what is not written, being of another script
    e.normalize(case["form"])
    for k, v in x.sets(e).items():
        mon.event("form")
        w = set(x.nfc(str(n.normalize(m))) for m in raw[k])
        w = set(m for m in w if x.keep(m, dom))
        if w != set(got[k]):
            mon.event("recomposed")
        mon.expect(set(v) == w, "normal-form", lambda: "%s of %s %s: %s not %s" % (case["form"], k, ascii(got[k]), ascii(v), ascii(sorted(w))))
    if want and len(want) < len(seen):
        mon.substantive(tuple(sorted(want)))
    mon.sample(dict(words=ws[:4], one_case=dict(list(want.items())[:4]), candidates=len(cand)))


def diff(a, b):
    return ascii([(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:4])
