"""U01 writing a list of strings as a Unicode set and reading it back."""
import random, re
import icu
from .. import chars
from ..core import *

PID = "U01"
RULE = ("lists of NFC strings over hostile pools (set syntax, backslashes before escape letters, white space, isolated marks, format, private use "
        "and supplementary characters) are written as a Unicode set and read back by the library and by ICU; non-trivial = a string that needs braces, escaping or both")
ANCHORS = ["lib/sldr/UnicodeSets.py"]
REQUIRES = {"roundtrip": 2000, "needs-escape": 1000, "needs-brace": 1000, "icu-read": 2000}


def gen(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 20])
    return dict(kind="list", items=[icu_nfc(chars.string(rng, rng.choice([1, 2, 4, 8]))) for _ in range(n)])


def gen_tricky(rng):
    """ backslash runs and things that look like escapes """
    alpha = "\\\\\\\\[]{}uUx0041n -^&"
    return dict(kind="tricky", items=["".join(rng.choice(alpha) for _ in range(rng.randrange(1, 8))) for _ in range(rng.randrange(1, 5))])


_n = None
MARKS = (icu.UCharCategory.NON_SPACING_MARK, icu.UCharCategory.COMBINING_SPACING_MARK, icu.UCharCategory.ENCLOSING_MARK)


def icu_nfc(s):
    global _n
    if _n is None:
        _n = icu.Normalizer2.getInstance(None, "nfc", icu.UNormalizationMode2.COMPOSE)
    return str(_n.normalize(s))


KINDS = {"list": (gen, 12000, 200000), "tricky": (gen_tricky, 8000, 150000)}


def FIXED():
    # each Basic Multilingual Plane character that is assigned, plus a sample beyond, by itself and after a base
    res = []
    odd = [c for c in range(0x10000, 0x110000) if icu.Char.charType(chr(c)) in (icu.UCharCategory.FORMAT_CHAR,) + MARKS]
    cps = odd + [c for c in list(range(1, 0xD800)) + list(range(0xE000, 0xFFFE)) + list(range(0x10000, 0x110000, 97)) if icu.Char.isdefined(chr(c))]
    for i in range(0, len(cps), 400):
        res.append(dict(kind="plane", items=[icu_nfc(chr(c)) for c in cps[i:i + 400]] + [icu_nfc("a" + chr(c)) for c in cps[i:i + 400:7]]))
    return res


def check(case, mon):
    from sldr import UnicodeSets as us
    from sldr.ldml_exemplars import UCD
    ucd = UCD()
    items = case["items"]
    text = us.list2us(items, ucd)
    want = set(items)
    mon.event("roundtrip")
    mon.event("strings", len(items))
    for s in items:
        if len(s) > 1:
            mon.event("needs-brace")
        if any(c in chars.SYNTAX for c in s) or "\\u" in us.list2us([s], ucd).lower():
            mon.event("needs-escape")
    if want:
        mon.substantive(tuple(sorted(want)))
    try:
        got = us.us2list(text)
    except Exception as e:
        mon.violation("read-crash", "%r reading %r written for %r" % (e, text, items))
        got = None
    if got is not None:
        mon.expect(set(got) == want, "roundtrip", lambda: "missing %r extra %r in %r" % (sorted(want - set(got))[:5], sorted(set(got) - want)[:5], text))
        # the strings of the set must be usable as a list too
        mon.expect(len(list(got)) == len(want), "count", lambda: "%d strings read for %d" % (len(list(got)), len(want)))
    try:
        ic = set(str(x) for x in icu.UnicodeSet(text))
    except Exception as e:
        mon.violation("icu-rejects", "%r reading %r written for %r" % (e, text, items))
        return
    mon.event("icu-read")
    mon.expect(ic == want, "icu-reads", lambda: "missing %r extra %r in %r" % (sorted(want - ic)[:5], sorted(ic - want)[:5], text))
    # characters that would be invisible, lost or attached to something else in a file must be visible escapes
    for c in set(text):
        if c != " " and (c in chars.SPACES + chars.WHITE or icu.Char.charType(c) in (icu.UCharCategory.PRIVATE_USE_CHAR, icu.UCharCategory.FORMAT_CHAR)
                         or icu.Char.hasBinaryProperty(c, icu.UProperty.DEFAULT_IGNORABLE_CODE_POINT)):
            mon.violation("unescaped", "U+%04X written unescaped in %r" % (ord(c), text))
    plain = re.sub(r"\\.", "x", text, flags=re.S)
    for a, b in zip(plain, plain[1:]):
        mon.expect(a not in " [{" or icu.Char.charType(b) not in MARKS, "isolated-mark", lambda: "U+%04X written after %r in %r" % (ord(b), a, text))
    # writing what was read is stable as a set
    again = us.us2list(us.list2us(sorted(got or ()), ucd))
    mon.expect(set(again) == set(got or ()), "rewrite", lambda: "%r" % text)
    mon.state("shape", len(items), tuple(sorted(set((len(s), any(c in chars.SYNTAX for c in s)) for s in items))))
