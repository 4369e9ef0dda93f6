"""K02 replacements of a keyboard."""
import os, random
from .. import kbdgen, kbdmodel

PID = "K02"
RULE = ("random keyboards with simple and final transforms (sets, overlapping and longer matches, contexts before and after, refusals, pending text hidden or shown) are typed on; "
        "what is shown after each key is compared with one pass over all the text typed so far; non-trivial = a key after which a replacement is made, waited for or refused")
ANCHORS = ["lib/sldr/ldml_keyboard.py", "lib/sldr/UnicodeSets.py"]
REQUIRES = {"typed": 15000, "rule": 5000, "context": 800, "hidden": 700, "refused": 200, "final:rule": 1500, "final:context": 80, "changed what was shown": 1500, "at once": 1000, "rule:3": 300}


def gen(rng):
    return dict(kind="type", seed=rng.getrandbits(60))


KINDS = {"type": (gen, 10000, 300000)}


def check(case, mon):
    from sldr.ldml_keyboard import Keyboard
    rng = random.Random(case["seed"])
    try:
        pool = list(rng.choice(kbdgen.POOLS))
        rng.shuffle(pool)
        pool = pool[:rng.randint(3, len(pool))]
        keys = ["A%02d" % i for i in range(len(pool) + 2)]
        table = dict(zip(keys, pool))
        table[keys[-1]] = "".join(rng.choice(pool) for _ in range(3))
        table[keys[-2]] = rng.choice(pool) + rng.choice(pool)
        hide = rng.random() < .3
        outs = pool + list("\u00e9XYZ")
        simple = kbdgen.rules(rng, pool, outs, rng.randint(1, 9)) if rng.random() < .9 else None
        final = kbdgen.rules(rng, pool, outs, rng.randint(1, 5)) if simple is None or rng.random() < .35 else None
        fn = os.path.join(mon.tmp, "k.xml")
        settings = {"transformPartial": "hide"} if hide else rng.choice([None, None, {"transformPartial": "show"}])
        kbdgen.write(rng, fn, [(None, table)], simple, None, final, None, settings, rng.choice([0, 0, 0, 1, 2]))
        model = kbdmodel.Model({(k, frozenset()): v for k, v in table.items()}, simple, None, final, None, hide)
        kb = Keyboard(fn)
        for _ in range(4):
            ks = kbdgen.strokes(rng, keys, [[]], rng.randint(1, 14))
            typing(kb, model, ks, rng, mon)
        # every key at once, or one by one, makes no difference
        word = "".join(rng.choice(pool) for _ in range(rng.randint(2, 9)))
        model.begin()
        try:
            whole = model.text(word)
        except kbdmodel.Ambiguous:
            return
        if whole is not None:
            table["B00"] = word
            kbdgen.write(rng, fn, [(None, table)], simple, None, final, None, settings)
            c = list(Keyboard(fn).process_string("[B00]"))[-1]
            mon.event("at once")
            mon.expect((str(c), bool(c.error)) == (whole, False), "all at once", lambda: "%r gives %r, not %r: %s" % (word, str(c), whole, describe(model)))
    finally:
        mon.cleartmp()


def describe(model):
    d = {}
    for n in ("simple", "reorders", "final", "backspace"):
        t = getattr(model, n)
        if t is not None:
            d[n] = {f: [(b, a, r.get("to", r.get("codes", "refused"))) for b, a, r in v] for f, v in t.table.items()}
    return repr(d)[:1500] + (" hiding" if model.hide else "")


def typing(kb, model, ks, rng, mon):
    model.begin()
    given = kbdgen.spell(rng, ks)
    want, logs = [], []
    try:
        for k, m in ks:
            if k == "BKSP" and model.pending:
                break
            want.append(model.key(k, m))
            logs.append(model.log)
    except kbdmodel.Ambiguous:
        mon.skip("two contexts match")
        return
    it = kb.process_string(given)
    last = ""
    for i, (w, log) in enumerate(zip(want, logs)):
        c = next(it)
        g = (c.outputs[-1], bool(c.error))
        mon.event("typed")
        for l in log:
            l, n = l if isinstance(l, tuple) else (l, 0)
            mon.event(l)
            if n:
                mon.event("%s:%d" % (l, n))
        if log:
            mon.substantive(given, i, w)
            mon.state("key", tuple(sorted({str(l) for l in log}))[:4])
        if not w[0].startswith(last):
            mon.event("changed what was shown")
        if g != w:
            mon.violation("what is shown", "after %s: %r (error %s) is not %r (error %s), it was %r: %s" % (
                [model.maps.get((k, frozenset(m)), k) for k, m in ks[:i + 1]], g[0], g[1], w[0], w[1], last, describe(model)))
            return
        mon.expect(str(c) == ("*%s*" % w[0] if w[1] else w[0]), "error shown", lambda: "%r for %r" % (str(c), w))
        last = w[0]
    mon.sample(dict(typed=given, shown=last))
