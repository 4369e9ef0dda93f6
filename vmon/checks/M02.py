"""M02 / M03 unflattening: removes exactly what the parent already says, and flattening restores it."""
import os, shutil
from .. import ldmlgen as g
from ..ldmlrun import *
from ..family import *

PID = "M02"
RULE = ("families are flattened to a directory, every flat file is unflattened against that directory, and the unflattened files are flattened "
        "again; the ledger checks that unflattening removed exactly the entries the nearest parent has with the same value and that the second "
        "flat form equals the first; non-trivial = entries were removed at two levels or more")
ANCHORS = ["lib/sldr/ldml_merge.py", "lib/sldr/ldml.py"]
REQUIRES = {"removed": 3000, "retained": 3000, "restored": 3000, "alt-judged": 150, "collations": 1000}


def gen(rng):
    return gen_family(rng, arrows=.03, scripts=False, extras=False, notes=rng.choice([0, 0, .2]))


def gen_alts(rng):
    c = gen_family(rng, arrows=0, drafts=.3, alts=.3, scripts=False, extras=False, notes=rng.choice([0, .3]))
    c["direct"] = True
    return c


KINDS = {"family": (gen, 1200, 20000), "alts": (gen_alts, 1200, 10000)}


def run(l, dirs, rev, out):
    d = flattenlocale(l, dirs=dirs, rev=rev)
    d.normalise()
    s = save(d)
    with open(os.path.join(out, l + ".xml"), "w", encoding="utf-8") as f:
        f.write(s)
    return g.from_xml(s)


def check(case, mon):
    files = files_of(case)
    top = os.path.join(mon.tmp, "fam")
    try:
        dirs = write_family(case, top)
        flat, unf, re = [os.path.join(top, x) for x in ("flat", "unflat", "re")]
        for d in (flat, unf, re):
            os.makedirs(d)
        if case.get("direct"):
            F = {}
            for l in sorted(files):
                F[l] = run(l, dirs, "c", flat)
        else:
            F = {l: run(l, dirs, "f", flat) for l in sorted(files)}
        U = {l: run(l, [flat], "r", unf) for l in sorted(files)}
        levels = set()
        for l in sorted(files):
            us = usable(l, F)
            p = entrymap(F[us[0]]) if us else {}
            a, b = entrymap(F[l]), entrymap(U[l])
            want = {}
            for k, v in a.items():
                o = p.get(k)
                if o is None or None not in v or None not in o or v[None] != o[None]:
                    if o is not None and (None not in v or None not in o):
                        want[k] = None      # only alternates are stated: not judged
                    else:
                        want[k] = v
                    continue
                rest = {x: y for x, y in v.items() if x is not None and o.get(x) != y}
                if len(v) > 1:
                    mon.event("alt-judged")
                if rest:
                    want[k] = {**rest, None: v[None]}
                else:
                    mon.event("removed")
                    levels.add(l)
            for k, v in want.items():
                if v is None:
                    continue
                mon.event("retained")
                if not mon.expect(k in b, "removed-needed-entry", lambda: "%s: %r=%r (parent %r)" % (l, k, v, p.get(k))):
                    break
                if not mon.expect(b[k].get(None) == v.get(None) and all(b[k].get(x) == y for x, y in v.items()), "changed-entry",
                                  lambda: "%s: %r is %r should be %r" % (l, k, b[k], v)):
                    break
            ex = [k for k in b if k not in want]
            mon.expect(not ex, "kept-redundant-entry", lambda: "%s: %r = %r, parent %s %r" % (l, ex[0], b[ex[0]], us[:1], p.get(ex[0])))
            ident = lambda t: [g.unordered(normtree(c), SERIAL) for c in t[3] if c[0] == "identity"]
            if us and ident(F[l]) != ident(F[us[0]]):
                mon.expect(ident(F[l]) == ident(U[l]), "identity-changed", lambda: "%s %r" % (l, ident(U[l])))
        if not case.get("direct"):
            for l in sorted(files):
                r = run(l, [unf], "f", re)
                a, b = entrymap(F[l]), entrymap(r)
                mon.event("restored", len(a))
                ca, cb = collmap(F[l]), collmap(r)
                mon.event("collations", len(ca))
                mon.expect(ca == cb, "collation-not-restored", lambda: "%s: %r became %r" % (l, ca, cb))
                if a != b:
                    ks = [k for k in list(a) + list(b) if a.get(k) != b.get(k)]
                    mon.violation("not-restored", "%s: %r was %r, is %r" % (l, ks[0], a.get(ks[0]), b.get(ks[0])))
        if len(levels) > 1:
            mon.substantive(case["fmt"], case["names"])
        mon.state("families", sorted(files))
    finally:
        mon.cleartmp()
    mon.sample(dict(files=sorted(files), levels=sorted(levels)))
