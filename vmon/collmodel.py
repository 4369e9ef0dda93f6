"""What the monitors of the C series share: tailorings with an intended meaning, ICU as the judge of what a tailoring means,
and an independent reading of the DUCET file."""
import os, re
import icu
from .core import LIB

LEVELS = ((1, icu.Collator.PRIMARY), (2, icu.Collator.SECONDARY), (3, icu.Collator.TERTIARY))
SYNTAX = '!"#$%&()*+,-./:;<=>?@[\\]^_`{|}~'
LETTERS = list("abcdefghijklmnopqrstuvwxyz")
PLAIN = LETTERS + list("ABCD") + ["ch", "ng", "ngb", "ɓ", "ɨ", "á", "क", "က"]
HOSTILE = PLAIN + ["á", "é", "ख", "ʼ", "-", "'", ".", "́", "1", "\U00010330", "\U0001e900", "\U0001e922", "\\", "/", "&", "<", "=", "[", "]",
                   "#", "|", "*", "@", "\"", "~", "á", "क्ष", "ꞌ", "တ", "一", "丁", "\U00020000", "가", "\ue000", "a-b", "x/y", "<<", "#1"]


def level(col, a, b):
    """ 1, 2, 3 or 0: the strength of the difference; negative if a comes first """
    for n, st in LEVELS:
        col.setStrength(st)
        d = col.compare(a, b)
        if d:
            return d * n
    return 0


def icuesc(s):
    """ A literal in ICU rule syntax, written independently of the library """
    return "".join("\\" + c if c in SYNTAX or c == "'" else c for c in s)


def uesc(rng, s):
    """ The same literal with some characters as \\u escapes, which LDML readers decode """
    res = ""
    for c in s:
        h = "%x" % ord(c)
        if rng.random() < .5:
            h = h.upper()
        if ord(c) < 0x10000 and rng.random() < .7:
            res += "\\u" + h.zfill(4)
        else:
            res += "\\U" + h.zfill(8)
    return res


def tailoring(rng, pool, hostile=True, comments=True, independent=False, exp=("a", "b", "e", "x", "z", "xy")):
    """ (text for the library, text for ICU, elements, bases). """
    lib, ref = [], []
    used, bases = [], []
    nchain = rng.choice([1, 1, 2, 3, 5])
    levels = rng.choice([(1, 1, 2, 3, 4), (1, 1, 2, 3, 4), (1, 4), (3, 4), (1,)])
    for n in range(nchain):
        cand = [p for p in pool if p not in used and p not in bases] if independent else [p for p in pool if p not in used or rng.random() < .3]
        cand = [p for p in cand if len(p) == 1 or p in used]
        if independent:     # and no two bases with the same primary weight
            cand = [p for p in cand if p in LETTERS]
        if not cand:
            break
        base = rng.choice(cand)
        if bases and not independent and rng.random() < .25:
            base = rng.choice(bases)
        bases.append(base)
        before = rng.random() < .2
        l = r = "&"
        if before:
            l = r = l + "[before 1]" + rng.choice(["", " "])
        esc = (lambda s: uesc(rng, s) if hostile and rng.random() < .3 else icuesc(s))
        l += esc(base)
        r += icuesc(base)
        for k in range(rng.randint(1, rng.choice([2, 4, 8]))):
            cand = [p for p in pool if p not in used and p not in bases]
            if not cand:
                break
            x = rng.choice(cand)
            used.append(x)
            st = 1 if before and k == 0 else rng.choice(levels)
            op = "<<<"[:st] if st < 4 else "="
            l += (rng.choice([" ", "", " ", "\n", "\t"]) if hostile else " ") + op + (rng.choice([" ", " ", ""]) if hostile else " ") + esc(x)
            r += " " + op + " " + icuesc(x)
            if exp and rng.random() < .12 and not before:
                e = rng.choice(exp + (("-", "ख") if hostile and not independent else ()))
                l += rng.choice(["/", "/", " / ", "/ "]) + esc(e)
                r += "/" + icuesc(e)
        if comments and rng.random() < .15:
            l += rng.choice([" # note", "\n# a comment & more < stuff", " # a & b < c = d"])
        lib.append(l)
        ref.append(r)
    return "\n".join(lib), "\n".join(ref), used, bases


_ducet = None


def ducet():
    """ {string: [(level 1, 2, 3), ...]} and the set of basic plane characters whose code point is the first four digits of a longer one """
    global _ducet
    if _ducet is None:
        res, clob = {}, set()
        with open(os.path.join(LIB, "sldr", "allkeys.txt"), encoding="utf-8") as f:
            for l in f:
                l = l.split("#")[0].strip()
                if not l or l.startswith("@"):
                    continue
                a, b = l.split(";")
                cps = a.split()
                res["".join(chr(int(c, 16)) for c in cps)] = [tuple(int(w, 16) for w in re.split(r"\.", e[1:])) for e in re.findall(r"\[([^\]]*)\]", b)]
                if any(len(c) > 4 for c in cps):
                    # what the reader of the file takes this line for
                    clob.add("".join(chr(int(x, 16)) for x in re.findall(r"[0-9A-Fa-f]{4}", a)))
        _ducet = res, clob
    return _ducet


def derived(c):
    cp = ord(c)
    if 0x4E00 <= cp < 0xA000:
        base = 0xFB40
    elif 0x3400 <= cp < 0x4DB6 or 0x20000 <= cp < 0x2A6D7 or 0x2A700 <= cp < 0x2EBE1:
        base = 0xFB80
    else:
        base = 0xFBC0
    return [(base + (cp >> 15), 0x20, 2), ((cp & 0x7FFF) | 0x8000, 0, 0)]


def uca(s):
    """ Sort key by level of a string: longest contiguous match, zeros left out """
    d, _ = ducet()
    res = [[], [], []]
    i = 0
    while i < len(s):
        for j in range(min(len(s), i + 8), i, -1):
            if s[i:j] in d:
                els = d[s[i:j]]
                i = j
                break
        else:
            els = derived(s[i])
            i += 1
        for e in els:
            for n in range(3):
                if e[n]:
                    res[n].append(e[n])
    return res


# ------------------------------------------------------------------------------------------------ alphabets
CASED = LETTERS + ["ch", "ng", "sh", "ngb", "dz", "mbw", "ɓ", "ɨ", "ǝ", "ɐ", "ɛ", "ŋ", "ɔ"]
LONG = CASED + [chr(c) for c in list(range(0x3B1, 0x3C2)) + list(range(0x3C3, 0x3CA)) + list(range(0x430, 0x439)) + list(range(0x43A, 0x450)) + list(range(0x561, 0x587))]
EXPANDING = ["æ", "œ"]
ACCENTED = {"a": "áàâ", "e": "éè", "i": "í", "o": "óö", "u": "úü", "n": "ñ", "c": "ç"}
UNCASED = ["क", "ख", "ग", "ا", "ب", "א", "ב"]


def variants(s):
    """ The case variants of a lower case string, in order """
    return list(dict.fromkeys(s[:i].upper() + s[i:].lower() for i in range(len(s) + 1)))


def alphabet(rng, pool, first=None, maxn=12, accents=True):
    """ groups of lists of equal letters: the first two levels of an alphabet; [[["a", "A"], ["á", "Á"]], ...] """
    n = rng.randint(2, maxn)
    items = sorted(rng.sample(pool, min(n, len(pool))))
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        i, j = rng.randrange(len(items)), rng.randrange(len(items))
        items.insert(j, items.pop(i))
    if first is not None:
        items = [first] + [x for x in items if x != first]
    res = []
    for x in items:
        g = [variants(x)]
        if accents:
            if x in ACCENTED:
                for a in rng.sample(ACCENTED[x], rng.randint(0, len(ACCENTED[x]))):
                    g.append(variants(a))
            elif rng.random() < .12 and x.upper() != x:
                g.append([x + "́", x.upper() + "́"] if len(x) == 1 else [v + "́" for v in variants(x)])
        res.append(g)
    if accents:
        if rng.random() < .3:       # letters listed at other levels than their default ones
            i = 1
            while i < len(res):
                r = rng.random()
                if r < .12:         # a letter at the second or third level of another
                    g = res.pop(i)
                    if r < .06:
                        res[i - 1].extend(g)
                    else:
                        res[i - 1][-1].extend(g[0])
                        res[i - 1].extend(g[1:])
                    continue
                if r < .3 and len(res[i]) > 1:      # an accented letter as a letter
                    j = rng.randrange(1, len(res[i]))
                    res.insert(rng.choice([i + 1, len(res)]), [res[i].pop(j)])
                i += 1
    return res


def spell(rng, alpha):
    """ One way of writing the alphabet as the lines of a simple list: with the kludges for case """
    lines = []
    for g in alpha:
        if len(g) == 1 and len(g[0]) == 2 and g[0][0].lower() == g[0][1].lower() and rng.random() < .2:
            lines.append(" ".join(g[0]))            # x X means x/X
            continue
        line = []
        for s in g:
            r = rng.random()
            if s != variants(s[0]):
                line.append("/".join(s))
            elif len(s) > 1 and r < .25 and "́" not in s[0]:
                line.append(s[0])                   # x means x/X, ng means ng/Ng/NG
            elif len(s) > 2 and r < .6:
                line.append(s[0] + "/" + s[-1])     # ng/NG means ng/Ng/NG
            else:
                line.append("/".join(s))
        if len(line) == 2 and line[0].lower() == line[1].lower():
            line = ["/".join(s) for s in g]
        lines.append(" ".join(line))
    return lines


def sequence(alpha):
    """ [(string, level at which it differs from the one before)] """
    return [(x, 1 if j == 0 and k == 0 else 2 if k == 0 else 3) for g in alpha for j, s in enumerate(g) for k, x in enumerate(s)]
