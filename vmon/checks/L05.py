"""L05 path editing: histories of find / ensure / remove against a small sequential model."""
import copy, random
from .. import ldmlgen as g
from ..ldmlrun import *

PID = "L05"
RULE = ("histories of 8-40 path operations (find, find all, ensure, ensure with text, insert-before, remove, relative bases, predicates, "
        "sil: names, zone names with slashes, save+reload in between) on DTD-shaped documents; after every operation the whole "
        "in-memory tree is compared with a sequential model; non-trivial = the history both created and removed nodes")
ANCHORS = ["lib/sldr/ldml.py"]
SERIAL = g.serial_elements()
REQUIRES = {"op:find": 300, "op:ensure": 300, "op:remove": 100, "created": 300, "removed": 50, "op:reload": 20, "path given": 300}


def gen(rng):
    t = g.Gen(rng, size=rng.choice([8, 20, 50]), drafts=0, comments=0, hostile=.05,
              default_draft=rng.choice([None, "approved"])).document()
    return dict(tree=t, ops=[genop(rng) for _ in range(rng.randint(8, 40))], usedrafts=rng.random() < .6)


# a small universe so that operations meet
PATHS = ["localeDisplayNames/languages/language", "localeDisplayNames/languages/language[@type=\"en\"]",
         "localeDisplayNames/languages/language[@type=\"fr\"]", "localeDisplayNames/territories/territory[@type=\"GB\"]",
         "localeDisplayNames/special/sil:names/sil:name[@xml:lang=\"en\"]", "special/sil:external-resources/sil:font[@name=\"A B\"]",
         "special/sil:external-resources/sil:font[@name=\"A B\"]/sil:url", "special/sil:external-resources/sil:font[@name='C']",
         "dates/timeZoneNames/zone[@type=\"Africa/Abidjan\"]/exemplarCity", "dates/timeZoneNames/zone[@type=\"Etc/GMT+1\"]",
         "dates/calendars/calendar[@type=\"gregorian\"]/months/monthContext[@type=\"format\"]/monthWidth[@type=\"wide\"]/month[@type=\"1\"]",
         "dates/calendars/calendar[@type=\"gregorian\"]/months/monthContext[@type=\"format\"]/monthWidth[@type=\"wide\"]/month[@type=\"2\"]",
         "dates/calendars/calendar[@type=\"gregorian\"]/months/monthContext[@type=\"format\"]/monthWidth[@type=\"abbreviated\"]",
         "identity/special/sil:identity", "identity/special/sil:identity[@uid=\"12\"]", "characters", "characters/exemplarCharacters",
         "characters/exemplarCharacters[@type='index']", "delimiters/quotationStart", "numbers/symbols[@numberSystem=\"latn\"]/decimal",
         "numbers/symbols[@numberSystem=\"latn\"][@references=\"x\"]/group", "numbers/symbols/decimal", "units/unitLength/unit[@type=\"year\"]/displayName",
         "annotations/annotation[@cp=\"a b\"]", "annotations/annotation[@cp=\"=\"]", "nosuch/thing[@q=\"1\"]/sil:deep"]


def genpath(rng):
    p = rng.choice(PATHS)
    if rng.random() < .25:
        p = "/".join(splitpath(p)[:rng.randint(1, 4)])
    if rng.random() < .1:
        p = p.replace("\"", "'")
    if rng.random() < .08:
        p = "./" + p
    return p


def genop(rng):
    r = rng.random()
    p = genpath(rng)
    if r < .2:
        return ["find", p]
    if r < .3:
        return ["findall", p]
    if r < .55:
        return ["ensure", p, rng.choice([None, "t%d" % rng.randint(0, 9)])]
    if r < .62:
        return ["ensuretwice", p]
    if r < .68:
        return ["before", p, rng.choice(["language", "sil:font", "special", "exemplarCharacters", "zone", "month"])]
    if r < .75:
        return ["relative", p, rng.choice(["find", "ensure", "remove"])]
    if r < .78:
        return ["existing", rng.randint(0, 1 << 20), rng.choice(["find", "ensure", "ensure", "remove"])]
    if r < .8:
        return ["reload"]
    if r < .82:
        return ["normalise"]
    if r < .86:
        return ["xpath", rng.randint(0, 1 << 20), rng.random() < .5]
    return ["remove", p]


KINDS = {"history": (gen, 4000, 60000)}


def splitpath(p):
    out, depth, cur = [], 0, ""
    for c in p:
        if c == "[":
            depth += 1
        elif c == "]":
            depth -= 1
        if c == "/" and not depth:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur]


def parse(p):
    res = []
    for s in splitpath(p):
        att = {}
        tag = s
        if "[" in s:
            tag, rest = s.split("[", 1)
            for b in rest.rstrip("]").split("]["):
                k, v = b.split("=", 1)
                att[k.strip()[1:]] = v.strip()[1:-1]
        res.append((tag, att))
    return res


def matches(bases, steps):
    """ -> (list of match lists per step) """
    cur = bases
    levels = [cur]
    for tag, att in steps:
        if tag == ".":
            levels.append(cur)
            continue
        cur = [c for b in cur for c in b[3] if c[0] == tag and all(c[1].get(k, "") == v for k, v in att.items())]
        levels.append(cur)
    return levels


def m_find(base, p):
    return matches([base], parse(p))[-1]


def m_ensure(base, p, before=None):
    """ -> (nodes, created) in the model """
    steps = parse(p)
    cur = [base]
    created = []
    for tag, att in steps:
        if tag == ".":
            continue
        nxt = matches(cur, [(tag, att)])[-1]
        if not nxt:
            n = [tag, {k: v for k, v in att.items() if v}, None, [], []]
            sibs = cur[0][3]
            pos = len(sibs)
            if before:
                pos = next((i for i, c in enumerate(sibs) if c[0] == before), len(sibs))
            sibs.insert(pos, n)
            created.append(n)
            nxt = [n]
        cur = nxt
    return cur, created


def m_remove(base, p):
    found = m_find(base, p)
    ids = {id(f) for f in found}

    def rec(e):
        e[3][:] = [c for c in e[3] if id(c) not in ids]
        for c in e[3]:
            rec(c)
    rec(base)
    return found


def same(doc, model, mon, op):
    d = g.deep_diff(model, g.from_elem(doc.root))
    mon.event("tree-compared")
    return mon.expect(d is None, "tree-differs-after:" + op[0], lambda: "%r: %s" % (op, d))


def leaf_eq(elems, nodes):
    return [g.from_elem(e) for e in elems] == nodes


def check(case, mon):
    doc = load(g.to_xml(case["tree"]), usedrafts=case["usedrafts"])
    model = g.from_elem(doc.root)
    created = removed = 0
    for op in case["ops"]:
        kind = op[0]
        base, mbase = None, model
        args = op
        if kind == "existing":      # a path of a node that is really there, as the library describes it or as the model does
            cand = [(p, e) for p, e in g.walk(model) if p and all(":" not in k and "]" not in v and "[" not in v and "'" not in v and
                                                                  '"' not in v and v.strip() == v and v for k, v in e[1].items())]
            if not cand:
                continue
            pth, e = cand[op[1] % len(cand)]
            node, steps = model, []
            okp = True
            for i in pth:
                node = node[3][i]
                if any("]" in v or "[" in v or '"' in v or not v for v in node[1].values()):
                    okp = False
                steps.append(node[0] + "".join('[@%s="%s"]' % kv for kv in node[1].items()))
            if not okp or any(":" in k for s in steps for k in s.split("[@")[1:]):
                continue
            args = [op[2], "/".join(steps)] + ([None] if op[2] == "ensure" else [])
            kind = op[2]
        elif kind == "relative":
            parts = splitpath(op[1])
            if len(parts) < 2 or parts[0] == ".":
                continue
            b = doc.find(parts[0])
            mb = m_find(model, parts[0])
            mon.expect((b is None) == (not mb), "find-wrong", "%r" % (op,))
            if b is None or not mb:
                continue
            base, mbase = b, mb[0]
            kind = op[2]
            args = [kind, "/".join(parts[1:])] + ([None] if kind == "ensure" else [])
        mon.event("op:" + kind)
        if kind == "find":
            r = doc.find(args[1], elem=base)
            want = m_find(mbase, args[1])
            mon.expect((r is None) == (not want), "find-wrong", "%r gave %r, expected %r" % (args, r, want[:1]))
            if r is not None and want:
                mon.expect(g.from_elem(r) == want[0], "find-wrong-node", "%r" % (args,))
        elif kind == "findall":
            r = doc.findall(args[1], elem=base)
            want = m_find(mbase, args[1])
            mon.expect(leaf_eq(r, want), "findall-wrong", "%r gave %d, expected %d" % (args, len(r), len(want)))
        elif kind in ("ensure", "ensuretwice"):
            r = doc.ensure_path(args[1], base=base)
            want, new = m_ensure(mbase, args[1])
            created += len(new)
            mon.event("created", len(new))
            if mon.expect(len(r) == len(want) and leaf_eq(r, want), "ensure-wrong-result", "%r gave %d, expected %d" % (args, len(r), len(want))):
                if kind == "ensuretwice":
                    r2 = doc.ensure_path(args[1], base=base)
                    mon.expect([id(x) for x in r2] == [id(x) for x in r], "ensure-not-idempotent", "%r" % (args,))
                elif args[2] is not None and not len(r[0]):
                    r[0].text = args[2]
                    want[0][2] = args[2]
            else:
                return
        elif kind == "before":
            steps = parse(op[1])
            lv = matches([model], steps)
            if not all(lv[:-1]):          # only where a single node is to be created
                continue
            bf = op[2] if ":" not in op[2] else op[2].replace("sil:", "{%s}" % g.SIL)
            r = doc.ensure_path(op[1], before=bf)
            want, new = m_ensure(model, op[1], before=op[2])
            created += len(new)
            mon.event("created", len(new))
            mon.expect(len(r) == len(want) and leaf_eq(r, want), "ensure-before-wrong", "%r" % (op,))
        elif kind == "remove":
            kw = {"base": base} if base is not None else {}
            before = g.from_elem(doc.root)
            r = doc.remove_path(args[1], **kw)
            want = copy.deepcopy(m_find(mbase, args[1]))
            m_remove(mbase, args[1])
            removed += len(want)
            mon.event("removed", len(want))
            mon.expect(len(r) == len(want), "remove-wrong-result", "%r gave %d, expected %d" % (args, len(r), len(want)))
            mon.expect(not doc.findall(args[1], elem=base), "remove-left-something", "%r" % (args,))
        elif kind == "xpath":       # the path the library gives for a node leads back to it
            nodes = [n for n in doc.root.iter() if n is not doc.root]
            if not nodes:
                continue
            n = nodes[args[1] % len(nodes)]
            if any(c in v for x in chain(n) for v in x.attrib.values() for c in "[]\"'") or any(not v or v.strip() != v for x in chain(n) for v in x.attrib.values()):
                continue
            pth = doc.as_xpath(n, usedrafts=args[2])
            got = doc.root.findall(pth) if "{" in pth else doc.findall(pth)
            mon.event("path given")
            mon.expect(any(x is n for x in got), "path-given-misses", lambda: "%r: %d found" % (pth, len(got)))
            for x in got:               # and to no others than those it shares all its identifying attributes with
                for a, b in zip(chain(n), chain(x)):
                    mon.expect(a.tag == b.tag and all(a.get(k) is None or a.get(k) == b.get(k) for k in (["alt"] if "}" in a.tag or a.tag in VALUED else ["type", "alt"])), "path-given-others",
                               lambda: "%r: found %r" % (pth, b.attrib))
        elif kind in ("reload", "normalise"):
            if kind == "normalise":
                doc.normalise(usedrafts=case["usedrafts"])
            else:
                doc = load(save(doc), usedrafts=case["usedrafts"])
            snap = normtree(g.from_elem(doc.root))
            want = normtree(model)
            if case["usedrafts"]:
                snap, want = dedup(snap), dedup(want)
            d = g.deep_diff(g.unordered(want, SERIAL), g.unordered(snap, SERIAL))
            mon.expect(d is None, "edit-lost-on-" + kind, d or "")
            model = g.from_elem(doc.root)
        if mon.caseviol or not same(doc, model, mon, op):
            return
        mon.state("op-context", kind, bool(created), bool(removed), len(splitpath(op[1])) if len(op) > 1 and isinstance(op[1], str) else 0)
    if created and removed:
        mon.substantive(case["ops"], model)
    mon.sample(dict(ops=case["ops"][:6], created=created, removed=removed))


VALUED = {"mapping", "measurementSystem", "default", "abbreviationFallback", "preferenceOrdering"}      # their type is what they say


def chain(n):
    res = []
    while n is not None:
        res.append(n)
        n = getattr(n, "parent", None)
    return res


def dedup(e):
    """ repeated entries for one key are merged to one when drafts are honoured; that is L04's concern """
    seen, kids = set(), []
    for c in e[3]:
        k = (g.key_of(c), c[1].get("alt"))
        if c[0] not in SERIAL and k in seen:
            continue
        seen.add(k)
        kids.append(dedup(c))
    return [e[0], e[1], e[2], kids, e[4]]
