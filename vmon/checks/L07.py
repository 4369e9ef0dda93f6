"""L07 isolation: a document's results do not depend on what else the process has done."""
import random
from .. import ldmlgen as g
from ..ldmlrun import *
from ..zygote import Zygote
from sldr.ldml_merge import LdmlMerge

PID = "L07"
RULE = ("two or three documents, each with its own program of load / edit / propose / normalise / find / save (both namespace placements) / "
        "overlay / difference / merge steps, run interleaved in a long-lived process; the recorded results of each program are compared with "
        "the same program run alone in a pristine process; non-trivial = interleaving actually switched documents 3+ times")
ANCHORS = ["lib/sldr/ldml.py", "lib/sldr/ldml_merge.py"]
REQUIRES = {"results-compared": 500, "switches": 1000}


def gendoc(rng, foreign=False):
    from .L01 import foreign as gf
    t = g.Gen(rng, size=rng.choice([8, 20, 40]), drafts=rng.choice([0, .3]), alts=rng.choice([0, .3]), comments=.1,
              default_draft=rng.choice([None, "approved", "contributed"])).document()
    if rng.random() < .4:
        t[3].append(["special", {}, None, [gf(rng, 0)], []])
        g.prune_duplicates(t)
    return g.to_xml(t, ns=g.gen_ns(rng))


def genprog(rng):
    ops = [["load", gendoc(rng), rng.random() < .7, rng.choice(["Ldml", "Ldml", "LdmlMerge"])]]
    made = rng.random() < .3
    if made:        # made from nothing, not read
        ops[0] = ["new", None, rng.random() < .7, rng.choice(["Ldml", "Ldml", "LdmlMerge"])]
        ops.append(["ensure", "identity/language[@type=\"en\"]", ""])
    for _ in range(rng.randint(2, 8)):
        r = rng.random() if not made or rng.random() < .7 else rng.choice([.95, .98])
        p = rng.choice(["localeDisplayNames/languages/language[@type=\"fr\"]", "characters/exemplarCharacters",
                        "special/sil:external-resources/sil:font[@name=\"A\"]", "delimiters/quotationStart"])
        if r < .35:
            ops.append(["save", rng.random() < .5])
        elif r < .5:
            ops.append(["ensure", p, "t%d" % rng.randint(0, 9)])
        elif r < .6:
            ops.append(["propose", p, "t%d" % rng.randint(0, 9), rng.choice(g.DRAFTS[1:])])
        elif r < .65:
            ops.append(["usedraft", rng.choice(list(g.DRAFTS) + [None])])
        elif r < .75:
            ops.append(["normalise"])
        elif r < .8:
            ops.append(["remove", p])
        elif r < .9:
            ops.append(["overlay", gendoc(rng)])
        elif r < .94:
            ops.append(["difference", gendoc(rng)])
        elif r < .97:
            ops.append(["foreign", rng.choice(["urn:x:a", "urn:x:b", "urn:example:foreign"]), rng.choice("st")])
        else:
            ops.append(["namespace", rng.choice(["fz", "fw"]), "urn:x:" + rng.choice("ab")])
    ops.append(["save", rng.random() < .5])
    ops.append(["save", rng.random() < .5])
    return ops


def gen(rng):
    n = rng.choice([2, 2, 3])
    progs = [genprog(rng) for _ in range(n)]
    order = [i for i, p in enumerate(progs) for _ in p]
    rng.shuffle(order)
    return dict(progs=progs, order=order)


KINDS = {"interleave": (gen, 1200, 20000)}


class Runner:
    """ Executes one program step by step, recording everything a user would see """

    def __init__(self):
        self.doc = None
        self.rec = []

    def step(self, op):
        k = op[0]
        d = self.doc
        if k == "load":
            self.doc = load(op[1], LdmlMerge if op[3] == "LdmlMerge" else Ldml, usedrafts=op[2])
            self.rec.append(["default", self.doc.default_draft])
        elif k == "new":
            self.doc = (LdmlMerge if op[3] == "LdmlMerge" else Ldml)(None, usedrafts=op[2])
            self.rec.append(["default", self.doc.default_draft])
        elif k == "save":
            self.rec.append(["save", save(d, op[1])])
        elif k == "ensure":
            e = d.ensure_path(op[1])[0]
            e.text = op[2]
        elif k == "propose":
            if d.useDrafts:
                d.ensure_path(op[1], text=op[2], draft=op[3])
                e = d.find(op[1])
                self.rec.append(["primary", e.text, e.get("draft")])
        elif k == "usedraft":
            d.use_draft = op[1]
        elif k == "normalise":
            d.normalise(usedrafts=d.useDrafts)
        elif k == "remove":
            self.rec.append(["removed", len(d.remove_path(op[1]))])
        elif k in ("overlay", "difference"):
            if isinstance(d, LdmlMerge):
                o = load(op[1], LdmlMerge, usedrafts=d.useDrafts)
                getattr(d, k)(o)
        elif k == "foreign":
            e = d.root.find("special")
            if e is None:
                e = d.addnode(d.root, "special")
            d.addnode(e, "{%s}%s" % (op[1], op[2]))
        elif k == "namespace":
            self.rec.append(["ns", d.add_namespace(op[1], op[2])])


def guarded(r, op):
    # a failing step is part of the record: isolation says nothing about whether it should fail
    try:
        r.step(op)
    except Exception as e:
        r.rec.append(["raised", type(e).__name__])


def alone(prog):
    r = Runner()
    for op in prog:
        guarded(r, op)
    return r.rec


_z = None


def setup(mon):
    global _z
    _z = Zygote(alone)


def check(case, mon):
    progs = case["progs"]
    runs = [Runner() for _ in progs]
    pos = [0] * len(progs)
    switches, last = 0, None
    for i in case["order"]:
        guarded(runs[i], progs[i][pos[i]])
        pos[i] += 1
        if last is not None and last != i:
            switches += 1
        last = i
    mon.event("switches", switches)
    mon.state("interleavings", case["order"])
    for i, p in enumerate(progs):
        st, ref = _z(p)
        if st != "ok":
            raise RuntimeError(ref)
        got = json_round(runs[i].rec)
        mon.event("results-compared")
        mon.event("steps-that-raised", sum(1 for x in got if x[0] == "raised"))
        ok = mon.expect(got == ref, "depends-on-history", lambda: diff(got, ref))
        if not ok:
            break
    if switches >= 3:
        mon.substantive(case["order"], [len(p) for p in progs], [r.rec for r in runs])
    mon.sample(dict(order=case["order"], ops=[[o[0] for o in p] for p in progs]))


def json_round(x):
    import json
    return json.loads(json.dumps(x))


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            if x[0] == "save" and y[0] == "save":
                from .L02 import firstdiff
                return "save here vs alone: " + firstdiff(x[1], y[1])
            return "here %r, alone %r" % (x, y)
    return "%d vs %d results" % (len(a), len(b))
