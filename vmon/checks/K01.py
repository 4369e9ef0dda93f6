"""K01 keys and modifiers of a keyboard."""
import os, random
from .. import kbdgen, kbdmodel

PID = "K01"
RULE = ("random keyboards of key maps for several combinations of modifiers (alternatives, optional modifiers, any case and order, escapes, imported files) are typed on, "
        "a sequence of keys given as text; what is shown after each key is compared with the maps; non-trivial = a key with at least one modifier that gives text")
ANCHORS = ["lib/sldr/ldml_keyboard.py", "lib/sldr/UnicodeSets.py"]
REQUIRES = {"typed": 6000, "modified": 1500, "optional": 500, "alternative": 300, "unmapped": 300, "imported": 50, "escape": 500, "plain": 300}


def gen(rng):
    return dict(kind="maps", seed=rng.getrandbits(60))


KINDS = {"maps": (gen, 12000, 300000)}


def check(case, mon):
    from sldr.ldml_keyboard import Keyboard
    rng = random.Random(case["seed"])
    try:
        pool = list(rng.choice(kbdgen.POOLS))
        keys = ["%s%02d" % (rng.choice("ABCDE"), n) for n in range(rng.randint(2, 8))]
        maps, table, taken, kinds = [], {}, set(), {}
        if rng.random() < .8:
            maps.append((rng.choice([None, "", None]), None))
            taken.add(frozenset())
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            m = kbdgen.modifiers(rng, taken)
            if m is None:
                continue
            taken |= m[1]
            maps.append(m)
            for c in m[1]:
                kinds[c] = ("optional" if "?" in m[0] else "fixed", " " in m[0])
        if not maps:
            maps.append((None, None))
        out = []
        for attr, combos in maps:
            d = {k: "".join(rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2, 4]))) for k in keys if rng.random() < .85}
            out.append((attr, d))
            for c in (combos or {frozenset()}):
                for k, v in d.items():
                    table[k, c] = v
        rng.shuffle(out)
        fn = os.path.join(mon.tmp, "k.xml")
        files = kbdgen.write(rng, fn, out, imports=rng.choice([0, 0, 1, 2, 3]))
        if len(files) > 1:
            mon.event("imported")
        kb = Keyboard(fn)
        anymods = sorted(sorted(c) for c in taken | {frozenset(), frozenset([rng.choice(kbdgen.MODS).lower()])})
        for _ in range(rng.randint(1, 3)):      # the same keyboard starts again each time
            ks = kbdgen.strokes(rng, keys, anymods, rng.randint(1, 15))
            given = kbdgen.spell(rng, ks)
            got = [(str(c), bool(c.error)) for c in kb.process_string(given)]
            mon.expect(len(got) == len(ks), "one result for each key", lambda: "%d for %s" % (len(got), given))
            shown = ""
            for (k, m), g in zip(ks, got):
                c = frozenset(m)
                add = table.get((k, c), "")
                shown += add
                mon.event("typed")
                if not add:
                    mon.event("unmapped")
                elif m:
                    mon.event("modified")
                    mon.event(kinds[c][0])
                    if kinds[c][1]:
                        mon.event("alternative")
                    mon.substantive(k, sorted(m), add, shown)
                else:
                    mon.event("plain")
                if any(x in "\\[]{}&-" or ord(x) > 0xFFFF for x in add):
                    mon.event("escape")
                mon.state("key", len(m), kinds.get(c), len(add))
                mon.expect(g == (shown, False), "text of a key", lambda: "after %s+%s of %s: %r is not %r" % ("+".join(m), k, given, g, shown))
            mon.sample(dict(typed=given, shown=shown))
    finally:
        mon.cleartmp()
