"""C02 an alphabet given as a simple list becomes a tailoring with just that order."""
import random
import icu
from .. import collmodel as m

PID = "C02"
RULE = ("random alphabets (letters, digraphs and trigraphs, accented letters at the second level, case at the third, moved out of default order; with the "
        "abbreviated spellings for case) are converted; ICU compiles the written tailoring and must find each neighbouring pair at exactly the level the list "
        "gives; the simple list the library writes must mean the same; non-trivial = not in default order")
ANCHORS = ["lib/sldr/collation.py"]
REQUIRES = {"alphabet": 1000, "neighbours": 10000, "level:2": 400, "level:3": 4000, "simple": 150, "first:multigraph": 40}


def gen(rng):
    pool = m.CASED + (m.EXPANDING if rng.random() < .3 else [])
    a = m.alphabet(rng, pool, maxn=rng.choice([4, 12, 25]))
    if len(a[0][0][0]) > 1 or ord(a[0][0][0]) > 127:
        a = m.alphabet(rng, pool, first=rng.choice(m.LETTERS), maxn=12)
    return dict(kind="cased", alpha=a, lines=m.spell(rng, a))


def gen_long(rng):
    a = m.alphabet(rng, m.LONG, first=rng.choice(m.LETTERS), maxn=len(m.LONG))
    return dict(kind="long", alpha=a, lines=m.spell(rng, a))


def gen_uncased(rng):
    a = m.alphabet(rng, m.UNCASED + ["कख", "गब"], first=rng.choice(m.UNCASED[:3]), maxn=7, accents=False)
    return dict(kind="uncased", alpha=a, lines=["/".join(s) for g in a for s in g])


def gen_first(rng):
    a = m.alphabet(rng, m.CASED, first=rng.choice([x for x in m.CASED if len(x) > 1]), maxn=6)
    return dict(kind="first", alpha=a, lines=m.spell(rng, a))


OWN = list("åäöüéèñçšžčóø") + m.EXPANDING


def gen_own(rng):
    """ Accented letters in their own right, which the default order takes apart """
    a = m.alphabet(rng, OWN + rng.sample(m.CASED, 6), first=rng.choice(m.LETTERS), maxn=rng.choice([3, 5, 9]), accents=False)
    return dict(kind="own", alpha=a, lines=m.spell(rng, a))


KINDS = {"cased": (gen, 2500, 40000), "long": (gen_long, 150, 2500), "uncased": (gen_uncased, 400, 4000), "first": (gen_first, 300, 4000),
         "own": (gen_own, 800, 8000)}


def compare(col, alpha):
    s = m.sequence(alpha)
    for (a, _), (b, l) in zip(s, s[1:]):
        g = m.level(col, a, b)
        if g != -l:
            return "%r and %r differ at %d, not %d" % (a, b, g, -l)
    # and the whole sequence is transitively increasing
    col.setStrength(icu.Collator.TERTIARY)
    ks = [col.getSortKey(x) for x, _ in s]
    if any(x >= y for x, y in zip(ks, ks[1:])):
        return "not increasing"
    return None


def check(case, mon):
    from sldr.collation import Collation
    alpha, lines = case["alpha"], case["lines"]
    # a first letter made of letters which the list moves
    first = alpha[0][0][0]
    tag = ":first-multigraph" if len(first) > 1 and any(x.lower() in first and x.lower() != first for g in alpha for s in g for x in s) else ""
    if len(first) > 1:
        mon.event("first:multigraph")
    c = Collation()
    c.convertSimple(lines)
    out = c.asICU()
    try:
        col = icu.RuleBasedCollator(out)
    except icu.ICUError as e:
        mon.violation("unreadable" + tag, "%r written as %r: %s" % (lines, out, e))
        return
    mon.event("alphabet")
    s = m.sequence(alpha)
    mon.event("neighbours", len(s) - 1)
    for _, l in s:
        mon.event("level:%d" % l)
    if [g[0][0] for g in alpha] != sorted(g[0][0] for g in alpha):
        mon.substantive(tuple(lines))
    d = compare(col, alpha)
    mon.expect(d is None, "order" + tag, lambda: "%r written as %r: %s" % (lines, out, d))
    if d is None and not any(v.before or v.exp for v in c.values()):
        # the simple list written for it reads back as the same alphabet
        mon.event("simple")
        simple = c.asSimple().split("\n")
        try:
            c2 = Collation()
            c2.convertSimple(simple, strict=True)
            out2 = c2.asICU()
            d2 = compare(icu.RuleBasedCollator(out2), alpha)
        except RecursionError:
            out2, d2 = None, "endless recursion"
        stag = tag or (":uncased-first" if alpha[0][0][0].upper() == alpha[0][0][0] else "")
        mon.expect(d2 is None, "simple" + stag, lambda: "%r written as the list %r, which reads as %r: %s" % (lines, simple, out2, d2))
