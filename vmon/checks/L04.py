"""L04 loading conserves data; repeated entries are resolved by draft status."""
import copy, random
from .. import ldmlgen as g
from ..ldmlrun import *

PID = "L04"
RULE = ("documents with unique values in every leaf, repeated entries carrying every combination of draft ranks, alternates and "
        "positions, and ordered lists; a conservation monitor reconciles every input leaf value with the loaded tree and with "
        "the written bytes; non-trivial = contains a repeated entry, an alternate or an ordered list")
ANCHORS = ["lib/sldr/ldml.py"]
SERIAL = g.serial_elements()
REQUIRES = {"winner-decided": 500, "leaf-accounted": 5000, "serial-list": 200, "alternate-kept": 200}

LEAVES = [("localeDisplayNames/languages/language", "type"), ("localeDisplayNames/territories/territory", "type"),
          ("characters/exemplarCharacters", "type"), ("numbers/currencies/currency[@type=\"USD\"]/displayName", "count"),
          ("delimiters/quotationStart", None), ("dates/calendars/calendar[@type=\"gregorian\"]/eras/eraAbbr/era", "type"),
          ("units/unitLength[@type=\"long\"]/unit[@type=\"year\"]/unitPattern", "count"), ("layout/orientation/characterOrder", None),
          ("posix/messages/yesstr", None), ("annotations/annotation", "cp")]
SERIALS = [("segmentations/segmentation[@type=\"WordBreak\"]/variables/variable", "id"),
           ("segmentations/segmentation[@type=\"LineBreak\"]/suppressions/suppression", None),
           ("rbnf/rulesetGrouping[@type=\"SpelloutRules\"]/ruleset[@type=\"x\"]/rbnfrule", "value")]


def steps(path):
    import re
    res = []
    for s in path.split("/"):
        m = re.match(r"^([^\[]+)(?:\[@(\w+)=\"(.*)\"\])?$", s)
        res.append((m.group(1), {m.group(2): m.group(3)} if m.group(2) else {}))
    return res


def place(root, path):
    """ Find or make the parent of the last step """
    cur = root
    for tag, att in steps(path)[:-1]:
        for c in cur[3]:
            if c[0] == tag and c[1] == att:
                cur = c
                break
        else:
            n = [tag, dict(att), None, [], []]
            cur[3].append(n)
            cur = n
    return cur


def gen(rng):
    dd = rng.choice([None, None, "approved", "contributed", "provisional", "tentative", "suspect"])
    root = ["ldml", {}, None, [["identity", {}, None, [["language", {"type": "aa"}, None, [], []]], []]], []]
    if dd:
        root[3][0][3].append(["special", {}, None, [["sil:identity", {"draft": dd}, None, [], []]], []])
    uid = [0]

    def val():
        uid[0] += 1
        return "v%d" % uid[0]
    for path, att in rng.sample(LEAVES, rng.randint(1, 5)):
        parent = place(root, path)
        tag = steps(path)[-1][0]
        for key in rng.sample(["a", "b", "c", "d"], rng.randint(1, 3)) if att else [None]:
            n = rng.choice([1, 1, 2, 2, 3, 5])
            altpool = rng.choice([[None], [None], [None, "proposed"], [None, "proposed", "variant", "proposed-x1"], ["proposed", "variant", "short"]])
            for _ in range(n):
                a = {att: key} if key else {}
                d = rng.choice([None] + list(g.DRAFTS))
                if d:
                    a["draft"] = d
                alt = rng.choice(altpool)
                if alt:
                    a["alt"] = alt
                parent[3].append([tag, a, val(), [], []])
        rng.shuffle(parent[3])
    if rng.random() < .5:
        path, att = rng.choice(SERIALS)
        parent = place(root, path)
        tag = steps(path)[-1][0]
        for _ in range(rng.randint(2, 7)):
            parent[3].append([tag, {att: rng.choice(["$A", "$B", "10", "2", "$C"])} if att else {}, val(), [], []])
    return dict(tree=root, fmt=rng.randint(0, 1 << 30), default=dd or "unconfirmed", usedrafts=rng.random() < .85)


def gen_big(rng):
    G = g.Gen(rng, size=rng.choice([40, 150, 300]), drafts=.2, alts=.15, comments=.1, hostile=0)
    t = G.document()
    n = 0
    for _, e in g.walk(t):
        if not e[3] and e[2]:
            n += 1
            e[2] = "v%d" % n
    return dict(tree=t, fmt=rng.randint(0, 1 << 30), default=default_draft(t), usedrafts=rng.random() < .8)


def gen_mixedserial(rng):
    kids = [["reset", {}, "v1", [], []]]
    for i in range(rng.randint(2, 6)):
        kids.append([rng.choice(["p", "s", "t", "i", "reset"]), {}, "v%d" % (i + 2), [], []])
    t = ["ldml", {}, None, [["identity", {}, None, [["language", {"type": "aa"}, None, [], []]], []],
                            ["collations", {}, None, [["collation", {"type": "standard"}, None, [["rules", {}, None, kids, []]], []]], []]], []]
    return dict(tree=t, fmt=0, default="unconfirmed", usedrafts=True)


KINDS = {"dups": (gen, 5000, 80000), "doc": (gen_big, 800, 10000), "mixedserial": (gen_mixedserial, 20, 200)}


def resolve(e, default, usedrafts):
    """ Reference: what survives of the children, and who is primary. Returns a new tree; alternates stay as siblings """
    kids = [resolve(c, default, usedrafts) for c in e[3]]
    if usedrafts:
        best = {}
        for c in kids:
            k = (g.key_of(c), c[1].get("alt"))
            r = g.RANK.get(c[1].get("draft", default), 5)
            if c[0] in SERIAL:
                continue
            if k not in best or r < best[k][0]:
                best[k] = (r, id(c))
        keep = {v[1] for v in best.values()}
        kids = [c for c in kids if c[0] in SERIAL or id(c) in keep]
    return [e[0], e[1], e[2], kids, e[4]]


def check(case, mon):
    tree = case["tree"]
    rng = random.Random(case["fmt"])
    xml = g.to_xml(tree, rng, shuffle_atts=True)
    ud = case["usedrafts"]
    doc = load(xml, usedrafts=ud)
    mem = normtree(g.from_elem(doc.root))
    out = save(doc)
    got = normtree(g.from_xml(out))
    if case["kind"] == "mixedserial":
        a = [v[2] for _, v in g.walk(tree) if v[2] and not v[3]]
        b = [v[2] for _, v in g.walk(got) if v[2] and not v[3]]
        mon.event("serial-mixed")
        mon.expect(sorted(a) == sorted(b), "serial-lost", "%r -> %r" % (a, b))
        mon.expect(a == b, "mixed-serial-regrouped", "old style collation rules %r became %r" % (
            [(v[0], v[2]) for _, v in g.walk(tree) if v[2]], [(v[0], v[2]) for _, v in g.walk(got) if v[2] and not v[3]]))
        return
    want = resolve(tree, case["default"], ud)
    wantd = drop_drafts(want, case["default"]) if ud else want
    # conservation: every surviving value exactly once in what is written
    wv = sorted(v[2] for _, v in g.walk(want) if v[2] and not v[3])
    gv = sorted(v[2] for _, v in g.walk(got) if v[2] and not v[3])
    mon.event("leaf-accounted", len(wv))
    if wv != gv:
        lost = [v for v in wv if v not in gv]
        extra = [v for v in gv if v not in wv]
        who = [(p[1][0], p[1][1]) for p in g.walk(tree) if p[1][2] in lost + extra][:4]
        mon.violation("leaves-lost-or-kept", "lost %r, unexpected %r: %r" % (lost[:5], extra[:5], who))
        return
    d = g.deep_diff(g.unordered(normtree(wantd), SERIAL), g.unordered(got, SERIAL))
    mon.expect(d is None, "differs", d or "")
    # the primary entry in memory: no alternate when there is one, else the best draft
    substantive = False
    inmem = {}

    def collect(w, m, path):
        if not ud:
            return
        groups = {}
        for c in w[3]:
            if c[0] not in SERIAL:
                groups.setdefault(g.key_of(c), []).append(c)
        mg = {}
        for c in m[3]:
            if c[0] not in SERIAL:
                mg.setdefault(g.key_of(c), []).append(c)
        for k, cs in groups.items():
            ms = mg.get(k, [])
            mon.event("winner-decided")
            if len(cs) > 1:
                mon.event("alternate-kept", len(cs) - 1)
            if not mon.expect(len(ms) == 1, "primary-not-unique", "%s %r: %d in memory" % (path, k, len(ms))):
                return
            prim = [c for c in cs if not c[1].get("alt")]
            if prim:
                ok = ms[0][2] == prim[0][2]
                cand = prim
            else:
                br = min(g.RANK.get(c[1].get("draft", case["default"]), 5) for c in cs)
                cand = [c for c in cs if g.RANK.get(c[1].get("draft", case["default"]), 5) == br]
                ok = ms[0][2] in [c[2] for c in cand]
            mon.state("draft-choices", [(c[1].get("draft"), c[1].get("alt")) for c in cs])
            mon.expect(ok, "wrong-primary", "%s: %r chosen from %r" % (path, ms[0], cs))
            for c in cs:
                if c[3]:
                    mm = ms[0]
                    if c in cand:
                        collect(c, mm, path + "/" + c[0])
    collect(want, mem, "ldml")
    for _, e in g.walk(tree):
        if e[3] and e[3][-1][0] in SERIAL and len(e[3]) > 1:
            mon.event("serial-list")
            substantive = True
    if g.count(want) != g.count(tree) or any("alt" in e[1] for _, e in g.walk(tree)):
        substantive = True
    if substantive:
        mon.substantive(out)
    mon.sample(dict(leaves=len(wv), input_head=xml[:500]))
