"""Independent model of exemplar extraction, written from the documented rules (docstrings, comments and tests)."""
import collections
from fractions import Fraction
import icu
from icu import Char, UProperty, Normalizer2, UNormalizationMode2
from . import chars

_forms = {}


def norm(form, s):
    if form not in _forms:
        _forms[form] = Normalizer2.getInstance(None, "nfc", UNormalizationMode2.COMPOSE if form == "NFC" else UNormalizationMode2.DECOMPOSE)
    return str(_forms[form].normalize(s))


def nfd(s):
    return norm("NFD", s)


def nfc(s):
    return norm("NFC", s)


CATS = "Cn Lu Ll Lt Lm Lo Mn Me Mc Nd Nl No Zs Zl Zp Cc Cf Co Cs Pd Ps Pe Pc Po Sm Sc Sk So Pi Pf".split()


def cat(c):
    return CATS[Char.charType(c)]


def is_mark(c):
    return cat(c)[0] == "M"


def is_number(c):
    return cat(c) in ("Nd", "No")


def is_wb_letter(c):
    return Char.getIntPropertyValue(c, UProperty.WORD_BREAK) in (1, 3)


def is_punct(c):
    return cat(c)[0] == "P" and not is_wb_letter(c)


def script(c):
    return icu.Script.getScript(c).getShortName()


def is_specific(c):
    return script(c) not in ("Zyyy", "Zinh")


def is_ignorable(c):
    return bool(Char.hasBinaryProperty(c, UProperty.DEFAULT_IGNORABLE_CODE_POINT))


def is_upper(c):
    return bool(Char.isUUppercase(c))


def is_allowed(c):
    return is_number(c) or not is_upper(c) and (is_specific(c) or is_wb_letter(c) or bool(Char.isUAlphabetic(c)))


def ccc(c):
    return Char.getCombiningClass(c)


def lower(c):
    return c.lower() if is_upper(c) else c


ZWJ, ZWNJ = "\u200d", "\u200c"


def clusters(text, listed=(), trace=None):
    """ [(base, trailers)] in order. trace gets (start, case, cluster) for each step """
    text = nfd(text)
    maxlen = max([1] + [len(x) for x in listed])
    i, res = 0, []
    trace = [] if trace is None else trace
    while i < len(text):
        start = i
        for n in range(maxlen, 0, -1):
            m = text[i:i + n]
            if len(m) == n and m in listed:
                nxt = text[i + n:i + n + 1]
                if nxt and nxt not in listed and (is_mark(nxt) or nxt in (ZWJ, ZWNJ)):
                    continue
                res.append(("".join(map(lower, m)), ""))
                i += n
                trace.append((start, None, None))
                break
        else:
            c = text[i]
            i += 1
            case = "upper" if is_upper(c) else "lower" if Char.isULowercase(c) else None
            if is_punct(c):
                res.append((c, ""))
                trace.append((start, None, None))
                continue
            c = lower(c)
            if not is_allowed(c):
                trace.append((start, None, None))
                continue
            base, trail = c, ""
            while i < len(text):
                t = text[i]
                if t == ZWNJ:
                    trail += t
                    i += 1
                    break
                if t != ZWJ and not is_mark(t):
                    break
                if t != ZWJ and ccc(t) == 7 and not trail:
                    base += t
                else:
                    trail += t
                i += 1
            res.append((base, trail))
            trace.append((start, case, base + trail))
    return res


def awkward(text):
    """ shapes for which the rules do not say what belongs to the base: a nukta after some other mark, or on a digit """
    t = nfd(text)
    for i, c in enumerate(t):
        if is_mark(c) and ccc(c) == 7 and (i == 0 or is_mark(t[i - 1]) and ccc(t[i - 1]) != 7 or is_number(t[i - 1]) or t[i - 1] == ZWJ or is_punct(t[i - 1])):
            return True
    return False


def main_script(ws):
    """ -> most frequent script in the texts, or None if that is not determined """
    n = collections.Counter(script(c) for w in ws for c in nfd(w))
    spec = {k: v for k, v in n.items() if k not in ("Zyyy", "Zinh")} or n
    if not spec:
        return ""
    top = max(spec.values())
    best = [k for k, v in spec.items() if v == top]
    return best[0] if len(best) == 1 else None


def analyse(cl, many=5, frequent=1):
    """ cl: Counter of (base, trailers) -> dict of sets main, auxiliary, index, punctuation, digits; undecided: texts exactly at the threshold """
    cl = collections.Counter(cl)
    res = dict(main=set(), auxiliary=set(), index=set(), punctuation=set(), digits=set())
    for b, t in list(cl):
        if is_punct(b[0]):
            res["punctuation"].add(b)
            del cl[(b, t)]
        elif is_number(b[0]) and not t:
            res["digits"].add(b)
            del cl[(b, t)]
    bases = collections.defaultdict(set)
    for b, t in cl:
        for m in t:
            if is_mark(m):
                bases[m].add(b)
    same = set()
    bysets = collections.defaultdict(list)
    for m, s in bases.items():
        bysets[frozenset(s)].append(m)
    for ms in bysets.values():
        if len(ms) > 1:
            same.update(ms)
    matra = lambda m: not (ccc(m) == 7 or 0x300 <= ord(m) <= 0x36F) or is_ignorable(m)
    productive = lambda m: m in bases and len(bases[m]) > many
    always = set()
    stacked = False

    def split(pred):
        nonlocal cl
        new, did = collections.Counter(), False
        for (b, t), n in cl.items():
            if b == "":
                new[(b, t)] += n
                continue
            for m in t:
                if pred(m):
                    new[("", m)] += n
                    did = True
            new[(b, "".join(m for m in t if not pred(m)))] += n
        cl = new
        return did
    again = True
    while again:
        again = split(matra)
        again |= split(lambda m: m in same)
        again |= split(productive)
        for b, t in cl:
            for x, y in zip(t, t[1:]):
                if ccc(x) == ccc(y):
                    always.add(y)
        again |= split(lambda m: m in always)
    feats = dict(matra=sum(1 for b, t in cl if b == "" and matra(t)), same=len(same), productive=sum(1 for m in bases if productive(m)), always=len(always))
    counts = collections.Counter()
    for (b, t), n in cl.items():
        if b == "" and t not in bases and not is_mark(t):
            res["auxiliary"].add(t)
        elif b and is_ignorable(b[0]):
            res["auxiliary"].add(b + t)
        else:
            counts[b + t] += n
    undecided = set()
    if counts:
        thr = Fraction(sum(counts.values()), len(counts)) * Fraction(frequent) / 100
        for t, n in counts.items():
            if abs(n - thr) < Fraction(1, 10 ** 9):
                undecided.add(t)
            if t == "\u0640" or n <= thr:
                res["auxiliary"].add(t)
            else:
                res["main"].add(t)
    for t in res["main"]:
        if not is_mark(t[0]):
            res["index"].add(nfd(t).upper())
    return res, counts, undecided, feats


# ------------------------------------------------------------------------------------ workload

PROFILES = [
    (chars.LATIN[:6], chars.MARKS[:3]),
    (chars.LATIN, chars.MARKS),
    (chars.LATIN + chars.LATIN.upper(), chars.MARKS[:5]),
    (chars.LATINX + chars.LATIN, chars.MARKS[:8]),
    (chars.DEVA, chars.DEVAMARK),
    (chars.DEVA, chars.DEVAMARK + ZWJ + ZWNJ),
    ("\u0c95\u0cb0\u0ca8", "\u0ccd\u200d\u0cbe\u0ccd"),
    ("\u0627\u0628\u062a\u062b\u0640", "\u064b\u064e\u0651\u0670"),
    ("\u05d1\u05f3\u05d2\u05f4", "\u05b0\u05bc"),
    (chars.OTHER, chars.MARKS[:4]),
    ("\U0001e900\U0001e922\U0001e901\U0001e923", "\U0001e944\U0001e94a"),
    ("\u1000\u1001\u1002", "\u1031\u102c\ufe00\u103b"),
    ("\u1ea1\u1eb7\u1ead\u01a1\u1edd\u0103\u00e2ae", chars.MARKS[:5]),
    ("".join(chars.ALL), chars.MARKS + chars.DEVAMARK + chars.IGNORABLE),
]


def words(rng, maxwords=30):
    bases, marks = rng.choice(PROFILES)
    if rng.random() < .5:
        bases = "".join(rng.sample(bases, rng.randint(1, min(len(bases), 8))))
    if rng.random() < .5:
        marks = "".join(rng.sample(marks, rng.randint(1, min(len(marks), 3))))
    dens = rng.choice([0, .2, .4, .7])
    res = []
    for _ in range(rng.randint(1, maxwords)):
        w = ""
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < .04:
                w += rng.choice(chars.PUNCT + "\u201c\u201d\u2018\u2019\u0964-")
            elif r < .07:
                w += rng.choice(chars.DIGITS)
            elif r < .09:
                w += chars.anychar(rng)
            elif r < .12:
                w += rng.choice(chars.IGNORABLE)
            else:
                w += rng.choice(bases)
            while rng.random() < dens:
                w += rng.choice(marks)
        if rng.random() < .1 and w:
            w = w[0].upper() + w[1:] if len(w[0].upper()) == 1 else w
        res.append(w)
    return res


def options(rng):
    return dict(frequent=rng.choice([1, 1, 10, 50, 80, 100]), many_bases=rng.choice([1, 2, 4, 5, 5]))


def pick_listed(rng, ws):
    """ exemplars for a document to list beforehand: letters, multigraphs and marks that do and do not occur """
    text = nfd(" ".join(ws)).lower()
    res = set()
    for _ in range(rng.randint(0, 8)):
        i = rng.randrange(len(text)) if text else 0
        s = text[i:i + rng.choice([1, 1, 2, 2, 3])].strip()
        if s and " " not in s and not any(cat(c)[0] in "CZ" for c in s):
            res.add(s)
    if rng.random() < .3:
        res.update("abcde")
    return sorted(res)


def run(ws, opts, listed=None, how="words", **kw):
    from sldr.ldml_exemplars import Exemplars
    e = Exemplars()
    e.many_bases, e.frequent = opts["many_bases"], opts["frequent"]
    for k, v in (listed or {}).items():
        setattr(e, k, v)
    for w in (ws if how == "words" else [how.join(ws)]):
        e.process(w, **kw)
    e.analyze()
    return e


def sets(e):
    return {k: members(getattr(e, k)) for k in ("main", "auxiliary", "index", "punctuation", "digits")}


def members(text):
    return [str(x) for x in icu.UnicodeSet(text)] if text != "[]" else []


def keep(s, dom):
    """ whether the exemplar is in the dominant script """
    c = nfc(s)[0]
    return script(c) == dom or not is_specific(c)
