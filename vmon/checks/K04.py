"""K04 testing a keyboard."""
import os, random, re
from xml.sax.saxutils import escape
from .. import kbdgen, kbdmodel, scriptrun

PID = "K04"
RULE = ("random keyboards are given to kbdtest with files of tests typed on any of its keys with any of its shift states, some of which expect another text; "
        "the tests it reports and its exit status are compared with those a model of the keyboard finds wrong; non-trivial = a test file in which some tests are right and some wrong")
ANCHORS = ["scripts/kbdtest", "lib/sldr/ldml_keyboard.py"]
REQUIRES = {"test": 2000, "right": 1000, "wrong": 300, "all right": 40, "some wrong": 80, "nothing shown": 50, "modified": 500, "key of its own": 45, "not a test": 100}

# the keys of a US keyboard where ISO 9995 has them
ROWS = [("E", "K_BKQUOTE K_1 K_2 K_3 K_4 K_5 K_6 K_7 K_8 K_9 K_0 K_HYPHEN K_EQUAL".split(), 0),
        ("D", ["K_" + c for c in "QWERTYUIOP"] + ["K_LBRKT", "K_RBRKT"], 1),
        ("C", ["K_" + c for c in "ASDFGHJKL"] + ["K_COLON", "K_QUOTE"], 1),
        ("B", ["K_" + c for c in "ZXCVBNM"] + ["K_COMMA", "K_PERIOD", "K_SLASH"], 1)]
ISO = {v: "%s%02d" % (r, i) for r, vs, n in ROWS for i, v in enumerate(vs, n)}
ISO.update(K_SPACE="A03", K_BKSLASH="B00")
SHIFTS = {"shift": "shift", "ctrl": "ctrl", "rctrl": "ctrlr", "alt": "alt", "altgr": "altr", "caps": "caps"}


def gen(rng):
    return dict(kind="tests", seed=rng.getrandbits(60), many=rng.random() < .01)


KINDS = {"tests": (gen, 240, 4000)}


def FIXED():
    return [dict(kind="tests", seed=1, many=True), dict(kind="tests", seed=2, many=True)]


def check(case, mon):
    rng = random.Random(case["seed"])
    try:
        pool = list(rng.choice(kbdgen.POOLS[:-1]))
        vkeys = sorted(ISO)
        use = rng.sample(vkeys, rng.randint(3, len(vkeys)))
        combos = [frozenset(rng.sample(sorted(SHIFTS), rng.choice([0, 0, 1, 1, 2]))) for _ in range(rng.randint(1, 4))]
        maps, table = [], {}
        for c in set(combos):
            # each key has a text of its own
            d = {v: rng.choice(pool) + rng.choice(["", chr(0x4e00 + i)]) for i, v in enumerate(use)}
            mods = frozenset(SHIFTS[x] for x in c)
            if (use[0], mods) in table:
                continue
            for v, t in d.items():
                table[v, mods] = t
            maps.append(("+".join(sorted(mods)) if mods else None, {ISO[v]: t for v, t in d.items()}))
        simple = kbdgen.rules(rng, pool, pool, rng.randint(1, 5), errors=0, others=[chr(0x4e00 + i) for i in range(len(use))]) if rng.random() < .4 else None
        fn = os.path.join(mon.tmp, "k.xml")
        kbdgen.write(rng, fn, maps, simple)
        model = kbdmodel.Model(table, simple)
        tests, wrong, n = [], [], 0
        count = 256 if case["many"] else rng.randint(1, 25)
        bad = 1 if case["many"] else rng.choice([0, 0, .2, .5])
        if case["many"]:
            simple = model.simple = None
            kbdgen.write(rng, fn, maps)
        shown, silent = "", rng.random()       # keys that give nothing to begin with, or anywhere
        for _ in range(count):
            n += 1
            if rng.random() < .08 and not case["many"]:
                tests.append(rng.choice(["<event/>", "<event><postcontext><text>%s</text></postcontext></event>" % escape(shown)]))
                mon.event("not a test")
                continue
            v, c = rng.choice(use if rng.random() < .9 and (shown or silent < .6) else vkeys), rng.choice(combos)
            try:
                shown, err = model.key(v, frozenset(SHIFTS[x] for x in c))
            except kbdmodel.Ambiguous:
                mon.skip("two contexts match")
                return
            expected = shown
            mon.event("test")
            if c:
                mon.event("modified")
            if rng.random() < bad:
                expected = rng.choice([shown + "x", shown[:-1], shown[1:] + "\u00fc", "x" + shown])
            if expected != shown:
                wrong.append(n)
                mon.event("wrong")
            else:
                mon.event("right")
                if not expected:
                    mon.event("nothing shown")
            mods = "".join("<%s/>" % x for x in rng.sample(sorted(c), len(c)))
            mods = "<shiftstate>%s</shiftstate>" % mods if mods or rng.random() < .3 else ""
            key = "<vkey>%s%s%s</vkey>" % (rng.choice(["", " ", "\n"]), v, rng.choice(["", " "]))
            mon.state("key", v)
            tests.append("<event><key>%s</key><postcontext>%s</postcontext></event>" % (rng.choice([mods + key, key + mods]), "<text>%s</text>" % escape(expected) if expected else rng.choice(["<text/>", "<text></text>"])))
        tf = os.path.join(mon.tmp, "tests.xml")
        with open(tf, "w", encoding="utf-8") as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?>\n<kmnTest><events>\n%s\n</events></kmnTest>\n' % "\n".join(tests))
        before = scriptrun.snapshot(mon.tmp)
        args = [fn, tf] + rng.choice([[], ["--usvs"]])
        rc, so, se = scriptrun.run("kbdtest", args, mon.tmp)
        got = [int(x) for x in re.findall(r"(?m)^Failed test ([0-9]+)", so)]
        mon.event("some wrong" if wrong else "all right")
        if len(use) > 20:
            mon.event("key of its own")
        if wrong and len(wrong) < count:
            mon.substantive(case["seed"])
        mon.expect("Traceback" not in se, "crash", lambda: se[-500:])
        mon.expect(got == wrong, "tests reported", lambda: "%r, not %r of %d; %s" % (got[:20], wrong[:20], n, tests[:5]))
        mon.expect((rc != 0) == bool(wrong), "exit status", lambda: "%d with %d wrong" % (rc, len(wrong)))
        mon.expect(scriptrun.snapshot(mon.tmp) == before, "files changed", "")
        mon.sample(dict(tests=n, wrong=wrong[:10]))
    finally:
        mon.cleartmp()
