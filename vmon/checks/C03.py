"""C03 minimising an alphabet's tailoring keeps its order."""
import random
import icu
from .. import collmodel as m
from .C02 import compare

PID = "C03"
RULE = ("random alphabets are converted and minimised; what is left must be part of what was there, and ICU must find the alphabet in the same order with the "
        "minimised tailoring as given; an alphabet of single letters in default order must leave nothing; non-trivial = something was dropped and something kept")
ANCHORS = ["lib/sldr/collation.py"]
REQUIRES = {"alphabet": 1500, "dropped": 4000, "kept": 4000, "default-order": 100}


def gen(rng):
    a = m.alphabet(rng, m.CASED, maxn=rng.choice([4, 12, 25]))
    low = min((g[0][0] for g in a), key=m.uca)
    if rng.random() < .9:
        i = next(i for i, g in enumerate(a) if g[0][0] == low)
        a.insert(0, a.pop(i))
    return dict(kind="cased", alpha=a)


def gen_long(rng):
    a = m.alphabet(rng, m.LONG, maxn=len(m.LONG))
    low = min((g[0][0] for g in a), key=m.uca)
    i = next(i for i, g in enumerate(a) if g[0][0] == low)
    a.insert(0, a.pop(i))
    return dict(kind="long", alpha=a)


def gen_exp(rng):
    return dict(kind="expanding", alpha=m.alphabet(rng, m.CASED[:26] + m.EXPANDING, first="a", maxn=12))


def gen_plain(rng):
    pool = [x for x in m.LONG if len(x) == 1]
    if rng.random() < .5:
        pool = m.LETTERS
    return dict(kind="plain", alpha=[[m.variants(x)] for x in sorted(rng.sample(pool, rng.randint(1, len(pool))), key=m.uca)])


KINDS = {"cased": (gen, 3000, 50000), "long": (gen_long, 200, 2500), "expanding": (gen_exp, 150, 1500), "plain": (gen_plain, 300, 3000)}


def default_levels(alpha):
    heads = set()
    for g in alpha:
        p = tuple(m.uca(g[0][0])[0])
        if p in heads or any(tuple(m.uca(x)[0]) != p for s in g for x in s):
            return False
        heads.add(p)
    return True


def check(case, mon):
    from sldr.collation import Collation
    alpha = case["alpha"]
    lines = [" ".join("/".join(s) for s in g) for g in alpha]
    c = Collation()
    c.convertSimple(lines, strict=True)
    before = {k: (v.base, v.level, v.before) for k, v in c.items()}
    if case["kind"] == "plain":
        mon.event("default-order")
        c.minimise()
        mon.expect(not len(c) and c.asICU() == "", "needless", lambda: "%r in default order leaves %r" % (lines, dict(c)))
        return
    first = alpha[0][0][0]
    tag = ""
    if any(x in m.EXPANDING for g in alpha for s in g for x in s):
        tag = ":expanding"
    elif first != min((g[0][0] for g in alpha), key=m.uca):
        tag = ":moved-to-front"
    elif len(first) > 1:
        mon.skip("starts with a sequence")
        return
    elif any(v.before for v in c.values()):
        tag = ":moved-to-front"
    if not tag and not default_levels(alpha):
        tag = ":other-levels"
    c.minimise()
    after = {k: (v.base, v.level, v.before) for k, v in c.items()}
    mon.event("alphabet" if not tag else "alphabet" + tag)
    mon.event("dropped", len(before) - len(after))
    mon.event("kept", len(after))
    if 0 < len(after) < len(before):
        mon.substantive(tuple(lines))
    mon.expect(all(before.get(k) == v for k, v in after.items()), "changed", lambda: "%r: %r became %r" % (lines, before, after))
    out = c.asICU()
    try:
        col = icu.RuleBasedCollator(out)
    except icu.ICUError as e:
        mon.violation("unreadable" + tag, "%r minimised as %r: %s" % (lines, out, e))
        return
    d = compare(col, alpha)
    mon.expect(d is None, "order" + tag, lambda: "%r minimised as %r: %s" % (lines, out, d))
