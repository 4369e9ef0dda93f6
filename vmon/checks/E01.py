"""E01 everything in a text is accounted for in its exemplars, exactly once."""
import collections, random
import icu
from .. import exmodel as x
from .. import chars

PID = "E01"
RULE = ("random texts over 14 script profiles and hostile characters are processed and analysed; a ledger reconciles the reported graphemes and counts with the text, "
        "and checks that each letter, mark, number and punctuation character is covered by the returned sets, that nothing else is in them, that they do not overlap and that they are "
        "ordered; non-trivial = at least two different clusters")
ANCHORS = ["lib/sldr/ldml_exemplars.py"]
REQUIRES = {"text": 1500, "covered": 5000, "graphemes": 5000, "digit": 200, "punct": 300, "index": 1000, "ignorable": 100}


def gen(rng):
    return dict(kind="text", words=x.words(rng, rng.choice([3, 10, 30, 60])), opts=x.options(rng))


def gen_raw(rng):
    """ any characters at all """
    return dict(kind="raw", words=[chars.string(rng, rng.choice([2, 6, 20])) for _ in range(rng.randint(0, 12))], opts=x.options(rng))


KINDS = {"text": (gen, 3000, 50000), "raw": (gen_raw, 2500, 50000)}


def FIXED():
    return [dict(kind="raw", words=w, opts=dict(frequent=1, many_bases=5)) for w in ([], [""], [" "], ["\u0301"], ["\u200d"], ["\u3164"], ["a\u200c\u200d"], ["A"], ["\u01c5"], ["1\u0301"], [","])]


def check(case, mon):
    ws, opts = case["words"], case["opts"]
    text = " ".join(ws)
    mon.event("text")
    try:
        e = x.run(ws, opts)
        got = x.sets(e)
        graphemes, frequency, script = e.graphemes, e.frequency, e.script
    except Exception as ex:
        mon.violation("crash", "%r for %s" % (ex, ascii(ws)))
        return
    dom = x.main_script(ws)
    if dom is None:
        dom = script        # a tie: any of them will do
        if dom not in set(x.script(c) for c in x.nfd(text)):
            mon.violation("script", "script %s does not occur" % dom)
    mon.expect(script == dom, "script", lambda: "script %s, most frequent is %s" % (script, dom))
    cl = [c for w in ws for c in x.clusters(w)]
    if len(set(cl)) > 1:
        mon.substantive(tuple(sorted(set(cl))))
    keep = lambda s: x.keep(s, dom)

    # 1. graphemes: exactly the clusters of the text other than punctuation, most frequent first, with their counts
    want = collections.Counter(x.nfc(b + t) for b, t in cl if not x.is_punct(b[0]) and keep(b + t))
    mon.event("graphemes", len(want))
    g = set(x.members(graphemes))
    if True:
        mon.expect(g == set(want), "graphemes", lambda: "missing %s unexpected %s" % (ascii(sorted(set(want) - g)), ascii(sorted(g - set(want)))))
        freq = {}
        for it in x.members(frequency):
            s, _, n = it.rpartition(":")
            freq[s] = freq.get(s, 0) + int(n)
        # two clusters with different bases can have the same text only if a nukta is involved
        mon.expect(freq == dict(want), "frequency", lambda: "counts %s, text has %s" % (ascii(sorted((k, v) for k, v in freq.items() if want.get(k) != v)), ascii(sorted((k, v) for k, v in want.items() if freq.get(k) != v))))

    # 2. coverage: every character of every cluster is in a set of the right kind
    chars_of = {k: set("".join(x.nfd(s) for s in v)) for k, v in got.items()}
    alpha = chars_of["main"] | chars_of["auxiliary"]
    seen = set()
    for b, t in set(cl):
        if not keep(b):
            continue
        if x.is_punct(b[0]):
            mon.event("punct")
            ok = all(c in chars_of["punctuation"] for c in b)
            seen.update(b)
        elif x.is_number(b[0]) and not t:
            mon.event("digit")
            ok = all(c in chars_of["digits"] for c in b)
            seen.update(b)
        else:
            need = [c for c in b + t if keep(c)]
            mon.event("covered", len(need))
            ok = all(c in alpha for c in need)
            seen.update(b + t)
        mon.expect(ok, "covered", lambda: "%s is not covered by %s" % (ascii(b + t), ascii(got)))
    # 3. soundness and kind of each set
    for k in ("main", "auxiliary", "punctuation", "digits"):
        for s in got[k]:
            d = x.nfd(s)
            # a mark on its own is kept whatever the script of its base
            mon.expect(set(d) <= set("".join(b + t for b, t in cl)), "in-text", lambda: "%s exemplar %s is not in the text" % (k, ascii(s)))
            mon.expect(s == x.nfc(s), "nfc", lambda: "%s exemplar %s is not NFC" % (k, ascii(s)))
            mon.expect(keep(s), "script-only", lambda: "%s exemplar %s is not in script %s" % (k, ascii(s), dom))
            mon.expect(not any(x.is_upper(c) for c in d), "lowercase", lambda: "%s exemplar %s has an uppercase letter" % (k, ascii(s)))
    for s in got["punctuation"]:
        mon.expect(x.is_punct(s[0]), "punct-kind", lambda: "punctuation exemplar %s" % ascii(s))
    for s in got["digits"]:
        mon.expect(x.is_number(s[0]), "digit-kind", lambda: "digit exemplar %s" % ascii(s))
    for s in got["main"] + got["auxiliary"]:
        mon.expect(not x.is_punct(x.nfd(s)[0]), "letter-kind", lambda: "main or auxiliary exemplar %s is punctuation" % ascii(s))
        mon.expect(not (len(s) == 1 and x.is_number(s)) or any(t and b == s for b, t in cl), "letter-kind", lambda: "main or auxiliary exemplar %s is a number that never has a mark" % ascii(s))
    for s in got["main"]:
        mon.expect(not x.is_ignorable(s[0]) or x.is_mark(s[0]), "ignorable", lambda: "main exemplar %s is default ignorable" % ascii(s))
    mon.event("ignorable", sum(1 for s in got["auxiliary"] if x.is_ignorable(s[0])))
    # 4. no overlap
    for ka in got:
        for kb in got:
            if ka >= kb or "index" in (ka, kb) or "digits" in (ka, kb):     # a digit may also carry marks
                continue
            both = set(got[ka]) & set(got[kb])
            mon.expect(not both, "disjoint", lambda: "%s in both %s and %s" % (ascii(sorted(both)), ka, kb))
    # 5. the index is the uppercase of main, without isolated marks
    wi = set(x.nfc(x.nfd(s).upper()) for s in got["main"] if not x.is_mark(x.nfd(s)[0]))
    wi = set(s for s in wi if keep(s))
    mon.event("index", len(wi))
    # (an exemplar of another script whose uppercase starts with a character of no script is only seen in the index)
    odd = set(s for s in got["index"] if not x.is_specific(s[0]) and s not in wi and any(x.is_specific(c) and x.script(c) != dom for c in s))
    mon.expect(set(got["index"]) - odd == wi, "index", lambda: "index %s, uppercase of main %s" % (ascii(sorted(set(got["index"]) - wi)), ascii(sorted(wi - set(got["index"])))))
    # 6. sorted for readers
    coll = icu.Collator.createInstance()
    bare = "".join(c for c in x.nfd(text) if not x.is_mark(c) or x.ccc(c) or not x.is_ignorable(c)).replace("\u200d", "").replace("\u200c", "")
    for k in () if x.awkward(text) or x.nfd(bare) != bare else got:
        raw = getattr(e, k)
        order = items(raw)
        keys = [coll.getSortKey(x.nfd(s)) for s in order]
        mon.expect(keys == sorted(keys), "sorted", lambda: "%s is not in collation order: %s" % (k, ascii(raw)))
        mon.expect(len(set(order)) == len(order), "repeated", lambda: "%s lists an exemplar twice: %s" % (k, ascii(raw)))
    mon.state("shape", dom, tuple(min(len(v), 4) for v in got.values()))


def items(us):
    """ the members in the order they are written: single characters, escapes and {strings} """
    import re
    res = []
    for m in re.finditer(r"\{((?:\\.|[^\\}])*)\}|(\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{8}|\\.|[^\s\\])", us[1:-1], re.S):
        s = m.group(1) if m.group(1) is not None else m.group(2)
        res.append(re.sub(r"\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\(.)", lambda q: q.group(3) if q.group(3) else chr(int(q.group(1) or q.group(2), 16)), s, flags=re.S))
    return res
