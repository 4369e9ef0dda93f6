"""K03 reordering and deleting."""
import os, random
from .. import kbdgen, kbdmodel
from .K02 import typing, describe

PID = "K03"
RULE = ("random keyboards with reorders (orders, tertiary marks and their bases, prefixed characters, sequences with orders of their own), often with transforms before or after and with backspace rules, are typed on and deleted from; "
        "what is shown after each key is compared with a model sorting the clusters of all the text; non-trivial = a key after which a cluster is sorted or something is deleted")
ANCHORS = ["lib/sldr/ldml_keyboard.py", "lib/sldr/UnicodeSets.py"]
REQUIRES = {"typed": 15000, "moved": 5000, "prebase": 5000, "tertiary": 5000, "runs": 4000, "stray": 2000, "circle": 2000, "backspace": 600, "backspace rule": 150, "backspace refused": 8, "typed after deleting": 800, "rule": 1000}


def gen(rng):
    return dict(kind="reorder", seed=rng.getrandbits(60))


def gen_back(rng):
    return dict(kind="delete", seed=rng.getrandbits(60))


KINDS = {"reorder": (gen, 8000, 250000), "delete": (gen_back, 4000, 100000)}


def check(case, mon):
    from sldr.ldml_keyboard import Keyboard
    rng = random.Random(case["seed"])
    try:
        pool = list(rng.choice(kbdgen.POOLS))
        rng.shuffle(pool)
        keys = ["A%02d" % i for i in range(len(pool) + 2)]
        table = dict(zip(keys, pool))
        table[keys[-1]] = "".join(rng.choice(pool) for _ in range(3))
        table[keys[-2]] = rng.choice(pool) + rng.choice(pool)
        deleting = case["kind"] == "delete"
        kw = dict(simple=None, reorders=None, final=None, backspace=None)
        if rng.random() < .3:
            kw["simple"] = kbdgen.rules(rng, pool, pool, rng.randint(1, 5))
        if not deleting or rng.random() < .5:
            kw["reorders"] = kbdgen.reorders(rng, pool)[0]
        if rng.random() < .2:
            kw["final"] = kbdgen.rules(rng, pool, pool, rng.randint(1, 4))
        if deleting and rng.random() < .75:
            kw["backspace"] = kbdgen.rules(rng, pool, pool, rng.randint(1, 6), context=False)
        fn = os.path.join(mon.tmp, "k.xml")
        kbdgen.write(rng, fn, [(None, table)], kw["simple"], kw["reorders"], kw["final"], kw["backspace"], None, rng.choice([0, 0, 0, 1]))
        model = kbdmodel.Model({(k, frozenset()): v for k, v in table.items()}, **kw)
        kb = Keyboard(fn)
        for _ in range(4):
            ks = kbdgen.strokes(rng, keys, [[]], rng.randint(2, 16), .3 if deleting or rng.random() < .2 else 0)
            if any(a[0] == "BKSP" and b[0] != "BKSP" for a, b in zip(ks, ks[1:])):
                mon.event("typed after deleting")
            typing(kb, model, ks, rng, mon)
    finally:
        mon.cleartmp()
