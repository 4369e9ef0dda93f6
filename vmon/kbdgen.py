""" Random keyboards: maps, transforms, reorders, backspaces, and the file(s) they are written in. """
import itertools, os
from xml.sax.saxutils import quoteattr
from . import kbdmodel

POOLS = ["abcdefgh", "kwxyz^'`", "\u0915\u0916\u0917\u094d\u093f\u0902\u093c", "\u1780\u1781\u17c1\u17d2\u17b6\u17c6", "ab\u0301\u0300\u0327\U00010400\U0001d165", "a[]{}\\&-|$:.+*?", "\u200b\u200da ;/<>\"'&"]
SYNTAX = "[]{}\\&-|^$:"


def lit(rng, c):
    """ a way of writing the character in Unicode set notation """
    o = ord(c)
    if rng.random() < .75 and c not in " \t\n":
        return "\\" + c if c in SYNTAX else c
    f = ["\\U%08x" % o, "\\x{%x}" % o]
    if o <= 0xFFFF:
        f += ["\\u%04x" % o] * 2
    if o > 0x20:
        f.append("\\u{%X}" % o)
    return rng.choice(f)


def text(rng, s):
    """ a way of writing text that is not a set """
    res, i = "", 0
    while i < len(s):
        c = s[i]
        if rng.random() < .1 and i + 1 < len(s):
            res += "\\u{%x %x}" % (ord(c), ord(s[i + 1]))
            i += 2
            continue
        if c in "\\":
            res += rng.choice(["\\\\", "\\u{5c}", "\\u005C"])
        elif rng.random() < .75:
            res += c
        else:
            res += lit(rng, c)
        i += 1
    return res


class Not(list):
    """ everything in the alphabet but the characters left out """
    def __init__(self, out, alphabet):
        super().__init__(x for x in alphabet if x not in out)
        self.out = list(out)


def seqtext(rng, seq):
    """ a sequence of sets of characters and strings """
    res = ""
    for s in seq:
        if len(s) == 1 and len(s[0]) == 1 and not isinstance(s, Not) and rng.random() < .8:
            res += lit(rng, s[0])
        else:
            neg, s = isinstance(s, Not), list(s.out if isinstance(s, Not) else s)
            rng.shuffle(s)
            res += ("[^" if neg else "[") + "".join((lit(rng, c) if len(c) == 1 else "{" + "".join(lit(rng, x) for x in c) + "}") + rng.choice(["", "", " "]) for c in s) + "]"
        res += rng.choice(["", "", "", " "])
    return res


def seq(rng, pool, n, sets=.3, wild=0, alphabet=None):
    """ wild: how often a set has strings or is of everything else """
    if rng.random() < wild:
        res = [[rng.choice(pool)] for _ in range(n)]
        i = rng.randrange(n)
        if alphabet and rng.random() < .6:
            res[i] = Not(rng.sample(pool, rng.randint(1, len(pool) - 1)), alphabet)
        else:
            res[i] = sorted({"".join(rng.choice(pool) for _ in range(rng.choice([1, 2, 2, 3]))) for _ in range(rng.randint(1, 3))})
        return res
    return [sorted(rng.sample(pool, rng.randint(2, min(4, len(pool))))) if rng.random() < sets else [rng.choice(pool)] for _ in range(n)]


def rules(rng, pool, out, n, context=True, errors=.08, maxlen=3, others=()):
    """ replacements, every string matched by one rule in one context """
    res, seen = [], set()
    alphabet = sorted(set(pool) | set(out) | set(others) | {kbdmodel.CIRCLE})
    wild = rng.choice([0, 0, .15, .5])
    for _ in range(n * 3):
        if len(res) >= n:
            break
        r = dict(src=seq(rng, pool, rng.choice([1, 1, 2, 2, 2, 3][:2 * maxlen]), .25, wild, alphabet), before=None, after=None)
        if context and rng.random() < .4:
            w = rng.random()
            if w < .65:
                r["before"] = seq(rng, pool, rng.choice([1, 1, 2]), .3)
            if w > .45:
                r["after"] = seq(rng, pool, rng.choice([1, 1, 2]), .3)
        if res and rng.random() < .3:           # the same or a longer one than another
            b = rng.choice(res)["src"]
            r["src"] = (b if context and (r["before"] or r["after"]) else b + r["src"])[:4]
        keys = set(itertools.product(kbdmodel.strings(r["src"]), kbdmodel.strings(r["before"]), kbdmodel.strings(r["after"])))
        if keys & seen:
            continue
        seen |= keys
        if rng.random() < errors:
            r["error"] = True
        else:
            r["to"] = "".join(rng.choice(out) for _ in range(rng.choice([0, 1, 1, 1, 2, 3])))
        res.append(r)
    return res


def reorders(rng, pool):
    """ -> rules giving orders to single characters and a few sequences """
    kinds = {}
    for c in pool:
        w = rng.random()
        if w < .35:
            kinds[c] = (0, False, 0, False)
        elif w < .6:
            kinds[c] = (rng.choice([1, 5, 10, 10, 55, 127, -3]), rng.random() < .3, 0, False)
        elif w < .8:
            kinds[c] = (rng.choice([0, 0, 10]), False, rng.choice([1, 2, 3]), False)
        else:
            kinds[c] = (rng.choice([1, 10, 60, -1]), False, 0, True)
    res, seen = [], set()
    groups = {}
    for c, k in kinds.items():
        groups.setdefault(k, []).append(c)
    for k, cs in groups.items():
        if k == (0, False, 0, False) and rng.random() < .7:
            continue                    # that's what they are anyway
        res.append(dict(src=[sorted(cs)], codes=[[x] for x in k]))
        seen.update(cs)
    heavy = [c for c, k in kinds.items() if k[0] != 0 and not k[3]]
    base = [c for c, k in kinds.items() if k[0] == 0 and not k[2] and not k[3]]
    for _ in range(rng.choice([0, 0, 1, 2])):
        if not heavy:
            break
        if base and rng.random() < .25:     # something with a base in it or at its end
            s = [rng.choice(heavy) for _ in range(rng.randint(1, 2))]
            s.insert(rng.randint(1, len(s)), rng.choice(base))
            orders = [rng.choice([1, 7, 10, 99]) for _ in s]
            if rng.random() < .4:
                orders[rng.randrange(len(s))] = 0
        elif base and rng.random() < .3:    # a base with what follows it
            s = [rng.choice(base)] + [rng.choice(heavy) for _ in range(rng.randint(1, 2))]
            orders = [0] + [rng.choice([1, 7, 10, 99]) for _ in s[1:]]
        else:
            s = [rng.choice(heavy) for _ in range(rng.randint(2, 3))]
            orders = [rng.choice([1, 7, 10, 99]) for _ in s]
            if rng.random() < .5:
                orders = orders[:1]
        k = "".join(s)
        if k in seen:
            continue
        seen.add(k)
        res.append(dict(src=[[c] for c in s], codes=[orders, [False], [0], [False]]))
    rng.shuffle(res)
    return res, kinds


def write(rng, fn, maps, simple=None, reorder=None, final=None, backspace=None, settings=None, imports=0):
    """ maps: list of (modifiers attribute or None, {key: text}) """
    parts = []
    for m, d in maps:
        rows = "".join("<map iso=%s to=%s/>" % (quoteattr(k), quoteattr(text(rng, v))) for k, v in d.items())
        parts.append("<keyMap%s>%s</keyMap>" % ("" if m is None else " modifiers=" + quoteattr(m), rows))

    def rule(tag, r):
        a = [("from", seqtext(rng, r["src"]))]
        for k in ("before", "after"):
            if r.get(k):
                a.append((k, seqtext(rng, r[k])))
        if "codes" in r:
            o, tb, t, p = r["codes"]
            a.append(("order", " ".join(map(str, o))))
            for k, v in (("tertiary", [str(x) for x in t]), ("tertiary_base", ["true" if x else "false" for x in tb]), ("prebase", ["true" if x else "false" for x in p])):
                if any(x not in ("0", "false") for x in v) or rng.random() < .1:
                    a.append((k, " ".join(v)))
        elif r.get("error"):
            a.append(("error", "fail"))
        else:
            a.append(("to", text(rng, r["to"])))
        return "<%s %s/>" % (tag, " ".join(k + "=" + quoteattr(v) for k, v in a))

    def block(tag, item, attr, rs):
        cuts = sorted({0, len(rs)} | {rng.randint(0, len(rs)) for _ in range(rng.choice([0, 0, 1]))})
        for a, b in zip(cuts, cuts[1:]):
            parts.append("<%s%s>%s</%s>" % (tag, attr, "".join(rule(item, r) for r in rs[a:b]), tag))
        if not rs:
            parts.append("<%s%s></%s>" % (tag, attr, tag))
    for tag, item, attr, rs in (("transforms", "transform", ' type="simple"', simple), ("reorders", "reorder", "", reorder),
                                ("transforms", "transform", ' type="final"', final), ("backspaces", "backspace", "", backspace)):
        if rs is not None:
            block(tag, item, attr, rs)
    if settings:
        parts.append("<settings %s/>" % " ".join("%s=%s" % (k, quoteattr(v)) for k, v in settings.items()))
    files = [fn]
    top = os.path.dirname(fn)

    def put(out, items):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        items = [x if isinstance(x, str) else "<import path=%s/>" % quoteattr(os.path.relpath(x[0], os.path.dirname(out))) for x in items]
        with open(out, "w", encoding="utf-8") as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?>\n<keyboard locale="und">\n%s\n</keyboard>\n' % "\n".join(items))
    for n in range(imports):        # some of it is in another file, which may import others
        i = rng.randint(0, len(parts) - 1)
        j = rng.randint(i + 1, len(parts))
        out = os.path.join(top, rng.choice(["", "sub/", "sub/sub/", "other/"]) + "part%d.xml" % n)
        put(out, parts[i:j])
        parts[i:j] = [(out,)]
        files.append(out)
    put(fn, parts)
    return files


MODS = ["shift", "ctrl", "alt", "altR", "caps", "ctrlR", "cmd", "shiftL"]


def modifiers(rng, taken):
    """ -> attribute, set of combinations not taken yet; or None """
    alts, combos = [], set()
    for _ in range(rng.choice([1, 1, 2, 3])):
        use = rng.sample(MODS, rng.choice([1, 1, 2, 3, 4]))
        opt = [m for m in use if rng.random() < .4]
        fix = [m for m in use if m not in opt]
        new = {frozenset(x.lower() for x in fix + list(c)) for n in range(len(opt) + 1) for c in itertools.combinations(opt, n)}
        if new & (taken | combos):
            continue
        combos |= new
        alts.append("+".join((rng.choice([m, m, m.upper()])) + ("?" if m in opt else "") for m in use))
    return (rng.choice([" ", "  "]).join(alts), combos) if alts else None


def strokes(rng, keys, mods, n, bksp=0):
    """ -> [(key, modifiers)], text """
    res = []
    for _ in range(n):
        if rng.random() < bksp:
            res.append(("BKSP", []))
            continue
        m = list(rng.choice(mods))
        rng.shuffle(m)
        res.append((rng.choice(keys), m))
    return res


def spell(rng, ks):
    return rng.choice(["", " "]).join("[%s%s%s]" % (rng.choice(["", " "]), " ".join([rng.choice([x, x.upper(), x.capitalize()]) for x in m] + [k]), rng.choice(["", " "])) for k, m in ks)
