"""L08 resolving aliases puts the content they point to in their place, and ends."""
import copy, io, os, random, re
from sldr.ldml import Ldml
from sldr.ldml_merge import flattenlocale
from .. import ldmlgen as g
from ..ldmlrun import *

PID = "L08"
RULE = ("documents of calendars whose sections, contexts and widths are entries or aliases to their like (chains, aliases inside the "
        "content of other aliases, loops of any length, targets which do not exist, aliases without a path, entries next to an alias which leads nowhere), "
        "resolved in memory and through flattening. Non-trivial = at least two aliases with a target, distinct by document")
ANCHORS = ["lib/sldr/ldml.py"]
REQUIRES = {"resolved": 300, "alias": 1500, "chain": 200, "loop": 50, "missing": 100, "inherited": 150, "ordered list": 100}
SERIAL = g.serial_elements()
TYPES = ["gregorian", "buddhist", "generic", "chinese", "dangi", "islamic"]
SECT = {"months": ("month", ["1", "2", "3"]), "days": ("day", ["sun", "mon"]), "quarters": ("quarter", ["1", "4"])}
CTX, WID = ["format", "stand-alone"], ["wide", "abbreviated", "narrow"]


def gen_alias(rng, loops=True):
    """ groups are named (calendar, section[, context[, width]]) """
    pa = rng.choice([.1, .3, .6])
    t = ["ldml", {}, None, [["identity", {}, None, [["language", {"type": "en"}, None, [], []]], []]], []]
    cals = ["calendars", {}, None, [], []]
    t[3].append(["dates", {}, None, [cals], []])
    types = rng.sample(TYPES, rng.randint(1, 4))

    def alias(path):
        a = {"source": "locale"}
        if path is not None:
            a["path"] = path
        return ["alias", a, None, [], []]

    def pred(k, v):
        return k + "[@type=%s%s%s" % (q, v, q) + "]"
    for c in types:
        q = rng.choice("'\"")
        cal = ["calendar", {"type": c}, None, [], []]
        cals[3].append(cal)
        for s in rng.sample(sorted(SECT), rng.randint(1, 3)):
            one, keys = SECT[s]
            sec = [s, {}, None, [], []]
            cal[3].append(sec)
            if rng.random() < pa:
                to = rng.choice(TYPES if rng.random() < .3 else types)
                sec[3].append(alias("../../%s/%s" % (pred("calendar", to), s)))
                if to in types or rng.random() < .3:
                    continue
            for x in rng.sample(CTX, rng.randint(1, 2)):
                ctx = [one + "Context", {"type": x}, None, [], []]
                sec[3].append(ctx)
                r = rng.random()
                if r < pa * .7:
                    ctx[3].append(alias(rng.choice([
                        "../" + pred(one + "Context", rng.choice(CTX)),
                        "../../../%s/%s/%s" % (pred("calendar", rng.choice(types)), s, pred(one + "Context", rng.choice(CTX)))])))
                    continue
                if r < pa * .8:
                    ctx[3].append(alias(None))
                for w in rng.sample(WID, rng.randint(1, 3)):
                    wid = [one + "Width", {"type": w}, None, [], []]
                    ctx[3].append(wid)
                    if rng.random() < pa:
                        wid[3].append(alias(rng.choice([
                            "../" + pred(one + "Width", rng.choice(WID)),
                            "../../%s/%s" % (pred(one + "Context", rng.choice(CTX)), pred(one + "Width", rng.choice(WID))),
                            "../../../../%s/%s/%s/%s" % (pred("calendar", rng.choice(types)), s, pred(one + "Context", rng.choice(CTX)),
                                                         pred(one + "Width", rng.choice(WID)))])))
                        continue
                    for k in rng.sample(keys, rng.randint(1, len(keys))):
                        wid[3].append([one, {"type": k}, "%s.%s.%s.%s.%s" % (c, s, x, w, k), [], []])
                    if rng.random() < .3:       # a list whose order is data
                        for n in rng.sample(["$a", "$b", "$c", "$d"], rng.randint(2, 4)):
                            wid[3].append(["variable", {"id": n}, "%s.%s.%s.%s" % (c, s, x, w), [], []])
    return dict(tree=t, usedrafts=rng.random() < .5, via=rng.choice(["memory", "memory", "flatten"]), split=rng.randint(0, 99))


KINDS = {"alias": (gen_alias, 2500, 30000)}


def parents(t):
    res = {}

    def rec(e):
        for c in e[3]:
            res[id(c)] = e
            rec(c)
    rec(t)
    return res


def locate(e, path, par):
    cur = e
    for s in path.split("/"):
        if s == "..":
            cur = par.get(id(cur))
        else:
            m = re.match(r"^(\w+)(?:\[@type=['\"](.*?)['\"]\])?$", s)
            cur = next((c for c in cur[3] if c[0] == m.group(1) and (m.group(2) is None or c[1].get("type") == m.group(2))), None)
        if cur is None:
            return None
    return cur


class Model:
    """ Contents worked out on demand: an alias stands for what its target holds. Groups which take part in, or lead to,
    a loop, and aliases whose target can only be reached through another alias, are undecided """
    def __init__(self, t):
        self.t, self.par = t, parents(t)
        self.loops = self.missing = self.chain = self.count = 0
        self.memo = {}

    def through(self, e, path):
        """ does the way to the target lead through something aliased? """
        cur = e
        for s in path.split("/"):
            if s == "..":
                cur = self.par[id(cur)]
                continue
            if any(c[0] == "alias" and "path" in c[1] for c in cur[3]):
                return True
            n = locate(cur, s, self.par)
            if n is None:
                return False
            cur = n
        return False

    def content(self, e, stack=()):
        """ -> children, or None when undecided: something reachable from here is in a loop or hidden behind an alias """
        if id(e) in stack:
            return None
        if id(e) in self.memo:
            return self.memo[id(e)]
        res, ok = [], True
        for c in e[3]:
            if c[0] == "alias" and "path" in c[1]:
                self.count += 1
                n = locate(e, c[1]["path"], self.par)
                if self.through(e, c[1]["path"]):
                    ok = False
                elif n is None:
                    self.missing += 1
                else:
                    if any(k[0] == "alias" for k in n[3]):
                        self.chain += 1
                    sub = self.content(n, stack + (id(e),))
                    if sub is None:
                        ok = False
                        self.loops += 1
                    else:
                        res.extend(copy.deepcopy(sub))
            else:
                sub = self.content(c, stack + (id(e),))
                if sub is None:
                    ok = False
                    res.append([c[0], c[1], c[2], None, []])
                else:
                    res.append([c[0], c[1], c[2], sub, []])
        self.memo[id(e)] = res if ok else None
        return self.memo[id(e)]


def norm(e):
    return (e[0], tuple(sorted(e[1].items())), e[2] or None, tuple(sorted((norm(c) for c in e[3] if c[0] not in SERIAL), key=repr)),
            tuple(norm(c) for c in e[3] if c[0] in SERIAL))


def kept(e):
    """ all entries that were there, as paths """
    res = set()

    def rec(e, p):
        p = p + ((e[0], tuple(sorted(e[1].items()))),)
        if not e[3] and e[0] != "alias":
            res.add((p, e[2] or None))
        for c in e[3]:
            rec(c, p)
    rec(e, ())
    return res


def check(case, mon):
    tree = copy.deepcopy(case["tree"])
    if case["via"] == "flatten":
        rng = random.Random(case.get("split", 0))
        chain = (("fr_CA", "fr", "CA"), ("fr", "fr", None), ("root", "root", None))
        names = [c[1]["type"] for c in tree[3][1][3][0][3]]
        place = {n: rng.choice(chain)[0] if rng.random() < .5 else "fr_CA" for n in names} if case.get("split") else dict.fromkeys(names, "fr_CA")
        for n, lang, reg in chain:
            t = copy.deepcopy(tree)
            t[3][0][3] = [["language", {"type": lang}, None, [], []]] + ([["territory", {"type": reg}, None, [], []]] if reg else [])
            if n == "fr_CA":
                tree[3][0] = copy.deepcopy(t[3][0])
            cals = t[3][1][3][0]
            cals[3] = [c for c in cals[3] if place[c[1]["type"]] == n]
            if not cals[3]:
                del t[3][1]
            with open(os.path.join(mon.tmp, n + ".xml"), "w", encoding="utf-8") as f:
                f.write(g.to_xml(t))
        here = [n for n in names if place[n] == "fr_CA"]
        if len(here) < len(names):
            mon.event("inherited")
        doc = flattenlocale("fr_CA", dirs=[mon.tmp], rev="f", resolveAlias=True)
    else:
        doc = load(g.to_xml(tree), usedrafts=case["usedrafts"])
        doc.resolve_aliases()
    got = g.from_elem(doc.root)
    m = Model(tree)
    byid = {}

    def pairs(e, h):
        """ compare group by group """
        want = m.content(e)
        if want is not None:
            mon.event("group")
            a, b = norm([e[0], {}, None, want, []]), norm([e[0], {}, None, h[3], []])
            mon.event("ordered list", len(a[4]) > 1)
            return mon.expect(a == b, "content", lambda: "%s %r holds %r not %r\n%s\n%s" % (
                e[0], e[1], b, a, g.to_xml(tree), save(doc)))
        for c in e[3]:
            if c[0] == "alias" and "path" in c[1]:
                continue
            o = [x for x in h[3] if x[0] == c[0] and x[1] == c[1]]
            if not o:
                return mon.violation("lost", "%s %r of %s is no longer there\n%s\n%s" % (c[0], c[1], e[0], g.to_xml(tree), save(doc)))
            if len(o) == 1 and not pairs(c, o[0]):
                return False
        return True
    pairs(tree, got)
    mon.event("resolved")
    mon.event("alias", m.count)
    mon.event("loop", m.loops)
    mon.event("chain", m.chain)
    mon.event("missing", m.missing)
    left = [e for _, e in g.walk(got) if e[0] == "alias" and "path" in e[1]]
    mon.expect(not left, "left", lambda: "%r\n%s\n%s" % (left[0], g.to_xml(tree), save(doc)))
    lost = kept(tree) - kept(got)
    mon.expect(not lost, "lost", lambda: "%r\n%s\n%s" % (sorted(lost, key=repr)[0], g.to_xml(tree), save(doc)))
    out = save(doc)
    doc.resolve_aliases()
    mon.expect(save(doc) == out, "again", "resolving again changes the document")
    back = g.from_xml(out)
    mon.expect(norm(g.strip_comments(back)) == norm(got) or case["usedrafts"] or case["via"] == "flatten", "saved", "saved differently")
    if m.count - m.missing > 1:
        mon.substantive(repr(tree))
    mon.sample(dict(aliases=m.count, loops=m.loops, chains=m.chain, missing=m.missing))
