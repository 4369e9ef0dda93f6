"""R05 icubreaktext: each line of a text cut where the breaks of its language are, with nothing lost."""
import os, random, unicodedata
import icu
from .. import scriptrun

PID = "R05"
RULE = ("texts of words, sentences, numbers and punctuation of many scripts (with and without spaces between words), combining marks, emoji sequences, supplementary and control characters, "
        "cut at each of the four kinds of break for many languages; each line written is compared with ICU's own breaks. Non-trivial = a line cut twice or more, distinct by text, kind and language")
ANCHORS = ["scripts/icubreaktext"]
REQUIRES = {"line": 2500, "cut": 20000, "supplementary": 400, "kind:lb": 30, "kind:gb": 30, "kind:wb": 30, "kind:sb": 30, "to standard output": 30, "mark": 300}
MAKE = {"lb": icu.BreakIterator.createLineInstance, "gb": icu.BreakIterator.createCharacterInstance,
        "wb": icu.BreakIterator.createWordInstance, "sb": icu.BreakIterator.createSentenceInstance}
LANGS = ["en", "th", "my", "km", "lo", "ja", "zh", "zh-Hant", "fr", "de", "el", "fi", "sv", "ar", "hi", "he", "qqq", "und", "en-US", "sr_Latn", "ja-u-lb-strict", "ja-u-lb-loose", "zh_Hant_TW@lb=strict", "en-u-ss-standard", "de@ss=standard", "ko-u-lw-keepall"]
BITS = ["Hello", "world", "don't", "e.g.", "Mr.", "3.14", "1,000", "$5", "co-operate", "na\u00efve", "e\u0301a\u0308o", "x\u0300\u0301\u0302", "\u0e2a\u0e27\u0e31\u0e2a\u0e14\u0e35\u0e0a\u0e32\u0e27\u0e42\u0e25\u0e01",
        "\u1019\u103c\u1014\u103a\u1019\u102c\u1005\u102c", "\u17a2\u1780\u17d2\u179f\u179a\u1781\u17d2\u1798\u17c2\u179a", "\u0e9e\u0eb2\u0eaa\u0eb2\u0ea5\u0eb2\u0ea7", "\u65e5\u672c\u8a9e\u306e\u6587\u7ae0", "\u30ab\u30bf\u30ab\u30ca", "\u4e2d\u6587\u3002", "\uff01", "\u0915\u094d\u0937\u093f\u0924\u093f", "\u0633\u0644\u0627\u0645",
        "\u05e9\u05dc\u05d5\u05dd", "\U0001d400\U0001d401", "\U00010330\U00010331\U00010332", "\U00011103\U00011127\U0001112c", "\U0001f469\u200d\U0001f469\u200d\U0001f467", "\U0001f1eb\U0001f1f7\U0001f1ec\U0001f1e7", "\U0001f44d\U0001f3fd", "\U00020000\U00020001",
        "\u1100\u1161\u11a8", "\ud55c\uad6d\uc5b4", "a\u200bb", "a\u00a0b", "a\u2060b", "soft\u00adhyphen", "(", ")", "\u201c", "\u201d", ".", "!", "?", "...", ";", "a|b", "|", "http://a.b/c?d=e", "#tag", "\u2028x", "\u0085y", "\t", "--", "\u2014", "\u0378", "%", "\u200f", "K2", "\u00bf", "\ufe0f"]


def line(rng):
    n = rng.choice([0, 1, 2, 5, 12, 30])
    out = ""
    for _ in range(n):
        out += rng.choice(BITS if rng.random() < .8 else [chr(rng.choice([rng.randint(0x21, 0x2ff), rng.randint(0x300, 0xd7ff), rng.randint(0xe000, 0xfffd), rng.randint(0x10000, 0x1f9ff)])) for _ in range(3)])
        out += rng.choice([" ", " ", "", "", "  ", ". ", "? "])
    return out


def gen(rng):
    return dict(seed=rng.randint(0, 1 << 40), n=rng.choice([1, 8, 25]), type=rng.choice(sorted(MAKE)), lang=rng.choice(LANGS), stdout=rng.random() < .3,
                end=rng.random() < .8, default=rng.random() < .5)


KINDS = {"text": (gen, 500, 9000)}


def FIXED():
    return []


def breaks(l, kind, lang):
    """ The pieces, by ICU: its positions count UTF-16 units """
    it = MAKE[kind](icu.Locale.createFromName(lang))
    data = l.encode("utf-16-le", "surrogatepass")
    it.setText(icu.UnicodeString(l))
    res, last = [], 0
    b = it.nextBoundary()
    while b != icu.BreakIterator.DONE:
        res.append(data[2 * last:2 * b].decode("utf-16-le"))
        last = b
        b = it.nextBoundary()
    return res


def check(case, mon):
    rng = random.Random(case["seed"])
    try:
        lines = [line(rng) for _ in range(case["n"])]
        src, dst = os.path.join(mon.tmp, "in.txt"), os.path.join(mon.tmp, "out.txt")
        with open(src, "w", encoding="utf-8", newline="") as f:
            f.write("\n".join(lines) + ("\n" if case["end"] or not lines[-1] else ""))
        args = [src, "-l", case["lang"]] + ([] if case["type"] == "lb" and case["default"] else ["-t", case["type"]]) + ([] if case["stdout"] else ["-o", dst])
        rc, out, err = scriptrun.run("icubreaktext", args, mon.tmp, seed=case["seed"] % 1000 if rng.random() < .05 else None, env=dict(PYTHONIOENCODING="utf-8"))
        mon.event("kind:" + case["type"])
        if not mon.expect(rc == 0, "failed", lambda: "%r: %s" % (args, err[-400:])):
            return
        if case["stdout"]:
            mon.event("to standard output")
        else:
            with open(dst, encoding="utf-8", newline="") as f:
                out = f.read()
        got = out.split("\n")
        if not mon.expect(got.pop() == "" and len(got) == len(lines), "lines", lambda: "%d lines from %d: %r" % (len(got), len(lines), out[:300])):
            return
        for l, o in zip(lines, got):
            mon.event("line")
            l = l.strip()
            want = breaks(l, case["type"], case["lang"])
            mon.event("cut", len(want))
            if len(want) > 1:
                mon.substantive(l, case["type"], case["lang"])
            if any(ord(c) > 0xffff for c in l):
                mon.event("supplementary")
            mon.expect(o.replace("|", "") == l.replace("|", ""), "text", lambda: "%r became %r" % (l, o))
            mon.expect(o == "|".join(want), "breaks", lambda: "%s in %s: %r cut as %r, not %r" % (case["type"], case["lang"], l, o, "|".join(want)))
            mon.event("mark", sum(unicodedata.category(c) == "Mn" for c in l))
        mon.sample(dict(type=case["type"], lang=case["lang"], line=lines[0][:60]))
    finally:
        mon.cleartmp()
