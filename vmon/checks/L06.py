"""L06 draft status and competing proposals: histories against a model of primary + alternates."""
import random
from .. import ldmlgen as g
from ..ldmlrun import *

PID = "L06"
RULE = ("histories of 5-30 proposals (unique values, every draft rank, several proposers), improvements, slot requests, status changes "
        "and save+reload cycles on one item; after each step the visible value and the full set of retained proposals are compared "
        "with a sequential model; non-trivial = at least one promotion and one retained alternate")
ANCHORS = ["lib/sldr/ldml.py"]
REQUIRES = {"promotion": 200, "retained": 500, "op:reload": 50, "op:change": 100, "kept-better": 30, "op:improve": 50,
            "session status": 1500, "by proposer": 100000}
PATHS = ["characters/exemplarCharacters[@type=\"index\"]", "localeDisplayNames/languages/language[@type=\"fr\"]",
         "identity/special/fred", "delimiters/quotationStart", "localeDisplayNames/special/sil:names/sil:name[@xml:lang=\"en\"]"]



def gen(rng):
    ops = []
    n = 0
    base = rng.choice(["approved", "approved"] + list(g.DRAFTS[1:]))
    D = [d for d in g.DRAFTS if d != base]        # never the document's default, so every stated status is written out
    for _ in range(rng.randint(5, 30)):
        r = rng.random()
        d = rng.choice(D)
        alt = rng.choice([None, None, "p2", "p3"])
        if r < .5:
            n += 1
            ops.append(["propose", "v%d" % n, d, alt] + (["session"] if rng.random() < .15 else []))
        elif r < .62 and n:
            ops.append(["improve", rng.randint(0, 99), d])
        elif r < .72:
            n += 1
            ops.append(["slot", "v%d" % n, d, alt])
        elif r < .88:
            ops.append(["change", d])
        elif r < .94:
            ops.append(rng.choice([["reload"], ["save"], ["save"], ["normalise", rng.random() < .7]]))
        else:
            ops.append(["other", d])
    start = rng.choice([None, None, ["undrafted"] if base == "approved" else ["drafted", rng.choice(D)], ["drafted", rng.choice(D)]])
    return dict(path=rng.choice(PATHS), ops=ops, uid=rng.choice([None, "77"]), base=base, start=start)


KINDS = {"history": (gen, 5000, 80000)}


class Model:
    def __init__(self, uid):
        self.primary = None             # [text, draft or None]
        self.alts = {}
        self.uid = uid

    def alt(self, a):
        return (a or "proposed") + ("-" + self.uid if self.uid else "")

    base = "approved"

    def rank(self, d):
        return g.RANK[self.base if d is None else d]

    def entries(self):
        return ([tuple(self.primary)] if self.primary else []) + [tuple(v) for v in self.alts.values()]


def observe(doc, path):
    """ Everything retained at the path, by asking for each status """
    res = []
    for d in g.DRAFTS:
        res += [(e.text, e.get("draft")) for e in doc.ensure_path(path, draft=d, matchdraft="draft", dontadd=True)]
    return res


def written(out, path):
    """ (alt, text, draft) of all entries for the path in what is written """
    from .L05 import parse
    t = g.from_xml(out)
    cur = [t]
    for tag, att in parse(path):
        cur = [c for b in cur for c in b[3] if c[0] == tag and all(c[1].get(k, "") == v for k, v in att.items())]
    return [(c[1].get("alt"), c[2], c[1].get("draft")) for c in cur]


def check(case, mon):
    ident = {"draft": case["base"]}
    if case["uid"]:
        ident["uid"] = case["uid"]
    t = ["ldml", {}, None, [["identity", {}, None, [["language", {"type": "aa"}, None, [], []],
         ["special", {}, None, [["sil:identity", ident, None, [], []]], []]], []]], []]
    doc = load(g.to_xml(t))
    m = Model(case["uid"])
    m.base = case["base"]
    path = case["path"]
    if case["start"]:
        e = doc.ensure_path(path)[0]
        e.text = "start"
        m.primary = ["start", None]
        if case["start"][0] == "drafted":
            e.set("draft", case["start"][1])
            m.primary[1] = case["start"][1]
    promo = False
    for op in case["ops"]:
        kind = op[0]
        mon.event("op:" + kind)
        if kind == "propose":
            if len(op) > 4:             # the status all edits of this session have
                doc.use_draft = op[2]
                doc.ensure_path(path, text=op[1], alt=op[3])
                doc.use_draft = None
                mon.event("session status")
            else:
                doc.ensure_path(path, text=op[1], draft=op[2], alt=op[3])
            a = m.alt(op[3])
            if m.primary is None:
                m.primary = [op[1], op[2]]
            elif m.rank(op[2]) < m.rank(m.primary[1]):
                m.alts[a], m.primary = m.primary, [op[1], op[2]]
                mon.event("promotion")
                promo = True
            elif a in m.alts and m.rank(m.alts[a][1]) < m.rank(op[2]):
                mon.event("kept-better")
            else:
                m.alts[a] = [op[1], op[2]]
        elif kind == "slot":
            if any(x[1] == op[2] for x in m.entries()):
                r = doc.ensure_path(path, draft=op[2], alt=op[3], matchdraft="draft")
                mon.expect(sorted(x.text for x in r) == sorted(x[0] for x in m.entries() if x[1] == op[2]), "slot-wrong",
                           lambda: "%r gave %r of %r" % (op, [x.text for x in r], m.entries()))
            elif m.primary is not None and m.alt(op[3]) not in m.alts:
                r = doc.ensure_path(path, draft=op[2], alt=op[3], matchdraft="draft")
                if m.rank(op[2]) < m.rank(m.primary[1]):
                    r[0].text = op[1]
                    m.alts[m.alt(op[3])], m.primary = m.primary, [op[1], op[2]]
                    mon.event("promotion")
                    promo = True
                else:
                    # the slot is an alternate: reach it again by its status
                    s = doc.ensure_path(path, draft=op[2], matchdraft="draft", dontadd=True)
                    if not mon.expect(len(s) == 1, "slot-missing", "%r gave %d slots" % (op, len(s))):
                        return
                    s[0].text = op[1]
                    m.alts[m.alt(op[3])] = [op[1], op[2]]
        elif kind == "improve":
            ents = m.entries()
            if not ents:
                continue
            v = ents[op[1] % len(ents)]
            doc.ensure_path(path, text=v[0], draft=op[2])
            if m.rank(op[2]) < m.rank(v[1]):
                if v[0] == m.primary[0]:
                    m.primary[1] = op[2]
                else:
                    k = [k for k, x in m.alts.items() if x[0] == v[0]][0]
                    m.alts[k][1] = op[2]
                    if m.rank(op[2]) < m.rank(m.primary[1]):
                        m.alts[k], m.primary = m.primary, m.alts[k]
                        mon.event("promotion")
                        promo = True
        elif kind == "change":
            e = doc.find(path)
            if e is None or m.primary is None:
                continue
            r = doc.change_draft(e, op[1])
            m.primary[1] = op[1]
            cand = [(m.rank(op[1]), None)] + [(m.rank(v[1]), k) for k, v in m.alts.items()]
            br = min(cand, key=lambda x: x[0])[0]
            # the best ranked value is the visible one; between equals either may be
            k = [k for rk, k in cand if rk == br and (m.primary if k is None else m.alts[k])[0] == r.text]
            if not mon.expect(bool(k), "change-promoted-wrong", lambda: "%r made %r primary of %r" % (
                    op, (r.text, r.get("draft")), m.entries())):
                return
            if k[0] is not None:
                m.alts[k[0]], m.primary = m.primary, m.alts[k[0]]
                mon.event("promotion")
                promo = True
        elif kind == "other":
            doc.ensure_path("localeDisplayNames/languages/language[@type=\"zz\"]", text="other", draft=op[1])
        elif kind == "normalise":
            doc.normalise(usedrafts=op[1])
        elif kind in ("reload", "save"):
            out = save(doc)
            if m.primary is not None:
                w = sorted(written(out, path), key=repr)
                want = sorted([(None,) + tuple(m.primary)] + [(k,) + tuple(v) for k, v in m.alts.items()], key=repr)
                if not mon.expect(w == want, "written-proposals-differ", "wrote %r, expected %r" % (w, want)):
                    return
            if kind == "reload":
                doc = load(out)
        e = doc.find(path)
        got = None if e is None else [e.text, e.get("draft")]
        if not mon.expect(got == m.primary, "wrong-visible-value", lambda: "after %r visible %r, expected %r; all %r" % (
                op, got, m.primary, m.entries())):
            return
        seen = sorted(observe(doc, path), key=repr)
        want = sorted([x for x in m.entries() if x[1] is not None], key=repr)
        for who in (None, "p2", "p3", "nobody"):        # each proposal is reached by the name of its proposer, too
            v = m.alts.get(m.alt(who))
            if m.primary is None:
                break
            r = doc.ensure_path(path, alt=who, matchdraft="alt", dontadd=True)
            if not mon.expect([(e.text, e.get("draft")) for e in r] == ([tuple(v)] if v else []), "proposer-wrong", lambda: "%r: %r not %r" % (who, [e.text for e in r], v)):
                return
            for d in g.DRAFTS:
                r = doc.ensure_path(path, alt=who, draft=d, matchdraft="both", dontadd=True)
                mon.event("by proposer")
                if not mon.expect([e.text for e in r] == ([v[0]] if v and v[1] == d else []), "proposer-status-wrong",
                                  lambda: "%r %r: %r not %r" % (who, d, [e.text for e in r], v)):
                    return
        mon.event("retained", len(m.alts))
        mon.state("situations", kind, m.primary and m.primary[1], sorted((k, v[1]) for k, v in m.alts.items()))
        if not mon.expect(seen == want, "proposals-differ", lambda: "after %r retained %r, expected %r" % (op, seen, want)):
            return
    if promo and m.alts:
        mon.substantive(case["ops"])
    mon.sample(dict(ops=case["ops"][:6], final=m.entries()))
