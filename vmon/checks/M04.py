"""M04 merging documents with drafts and proposals: nobody's work is lost silently."""
import random
from .. import ldmlgen as g
from ..ldmlrun import *
from ..family import *

PID = "M04"
RULE = ("base and two edited versions whose items have values, draft statuses and proposals by several proposers; every value that one side changed or added is "
        "looked for in the result (visible, as a proposal, or in a recorded clash); non-trivial = both sides changed values and proposals")
ANCHORS = ["lib/sldr/ldml_merge.py", "lib/sldr/ldml.py"]
REQUIRES = {"used before": 1000, "value:theirs": 5000, "value:ours": 5000, "value:both": 1500, "proposal:new": 5000, "proposal:both": 500, "kept-as-proposal": 1000,
            "clash": 1000, "value:untouched": 3000, "renormalised": 500}
ITEMS = [("localeDisplayNames/languages/language", "type", "a"), ("localeDisplayNames/languages/language", "type", "b"),
         ("localeDisplayNames/territories/territory", "type", "AA"), ("delimiters/quotationStart", None, None), ("delimiters/quotationEnd", None, None),
         ("characters/exemplarCharacters", "type", "index"), ("dates/calendars/calendar/months/monthContext/monthWidth/month", "type", "1"),
         ("dates/calendars/calendar/months/monthContext/monthWidth/month", "type", "2")]
D = [d for d in g.DRAFTS if d != "generated"]


def gen(rng):
    items = {}
    c = [0]

    used = set()

    def v(s, old=None):
        c[0] += 1
        n = s + "%d" % c[0] + rng.choice(["", "", "", " x", "\nx", " x y", "\nx\ny"])
        if old and rng.random() < .25:
            m = g.near(rng, old[0])
            n = m if m and not any(m in u or u in m for u in used - {old[0]}) else n
        used.add(n)
        return [n, rng.choice(D)]
    for i in rng.sample(range(len(ITEMS)), rng.randint(2, len(ITEMS))):
        b = {"": v("b")}
        for a in ("p1", "p2"):
            if rng.random() < .2:
                b[a] = v("b")
        row = dict(b=b)
        for s in "to":
            x = dict(b)
            if rng.random() < .35:
                x[""] = v(s, x[""])
            if rng.random() < .35:
                a = rng.choice(["p1", "p2", "p3"])
                x[a] = v(s, x.get(a))
            if rng.random() < .15:
                x.pop(rng.choice(["p1", "p2"]), None)
            row[s] = x
        items[str(i)] = row
    return dict(items=items, default=rng.choice([None, "proposed", "unconfirmed"]), docdraft=rng.choice(["approved", "unconfirmed", "contributed"]),
                renorm=rng.choice(["", "", "t", "o", "b", "tob"]), fmt=rng.randint(0, 1 << 30))


KINDS = {"proposals": (gen, 5000, 80000)}


def build(items, side, docdraft):
    root = ["ldml", {}, None, [["identity", {}, None, [["language", {"type": "aa"}, None, [], []], ["special", {}, None, [
        ["sil:identity", {"draft": docdraft}, None, [], []]], []]], []]], []]
    for i, row in sorted(items.items()):
        path, k, ty = ITEMS[int(i)]
        cur = root
        *up, leaf = path.split("/")
        for p in up:
            for c in cur[3]:
                if c[0] == p:
                    cur = c
                    break
            else:
                n = [p, {"type": "x"} if p.startswith(("calendar", "month")) and p not in ("calendars", "months") else {}, None, [], []]
                cur[3].append(n)
                cur = n
        for alt, (v, d) in row[side].items():
            a = {"draft": d}
            if k:
                a[k] = ty
            if alt:
                a["alt"] = alt
            cur[3].append([leaf, a, v, [], []])
    return root


def entries(out, i):
    path, k, ty = ITEMS[i]
    cur = [out]
    for p in path.split("/"):
        cur = [c for b in cur for c in b[3] if c[0] == p]
    cur = [c for c in cur if k is None or c[1].get(k) == ty]
    return {c[1].get("alt", ""): [c[2], c[1].get("draft")] for c in cur}, " ".join(x for c in cur for x in c[4])


def check(case, mon):
    rng = random.Random(case["fmt"])
    xml = [g.to_xml(build(case["items"], s, case["docdraft"]), rng, shuffle_kids=SERIAL) for s in "tob"]
    dt, do, db = [load(x, cls=LdmlMerge) for x in xml]
    so, sb = [save(load(x, cls=LdmlMerge)) for x in xml[1:]]    # saving drops default drafts, so save others
    for d, s in ((dt, "t"), (do, "o"), (db, "b")):
        if s in case["renorm"]:
            d.normalise(usedrafts=True)
            mon.event("renormalised")
        for _ in range(rng.choice([0, 0, 1, 2])):
            mon.event("used before")
            rng.choice([d.normalise, lambda: d.normalise(addguids=False), lambda: save(d) if case["default"] is None else d.normalise()])()   # saving drops drafts which are the document's, and then the default counts
    dt.merge(do, db, default=case["default"])
    dt.normalise(usedrafts=True)
    out = g.from_xml(save(dt))
    mon.expect(save(do) == so and save(db) == sb, "operand-changed", "by the merge")
    rank = lambda d: g.RANK[d or case["docdraft"]]
    seen = set()
    for i, row in case["items"].items():
        ent, com = entries(out, int(i))
        b, t, o = row["b"], row["t"], row["o"]
        d = lambda: "%s: base %r ours %r theirs %r gave %r comments %r" % (ITEMS[int(i)], b, t, o, ent, com)
        vals = [x[0] for x in ent.values()]
        primT, primO = t[""] != b[""], o[""] != b[""]
        vis = ent.get("")
        if not mon.expect(vis is not None, "value-lost", d):
            continue
        has = lambda v: v[0] in vals or v[0] in com
        mon.state("situations", primT, primO, rank(t[""][1]) - rank(b[""][1]), rank(o[""][1]) - rank(b[""][1]), sorted(t), sorted(o))
        if primO and not primT:
            mon.event("value:theirs")
            seen.add("o")
            mon.expect(vis[0] == o[""][0], "their-value-lost", d)
        elif primT and not primO:
            mon.event("value:ours")
            seen.add("t")
            mon.expect(t[""][0] in vals, "our-value-lost", d)
            mon.event("kept-as-proposal", vis[0] != t[""][0])
        elif primT and primO:
            mon.event("value:both")
            mon.event("clash", "lash" in com)
            mon.expect(has(t[""]) and has(o[""]), "competing-value-lost", d)
            best = min(rank(x[1]) for x in (t[""], b[""]))
            mon.expect(rank(vis[1]) <= best or vis[0] in (t[""][0], o[""][0]), "worse-value-visible", d)
        else:
            mon.event("value:untouched")
            mon.expect(vis[0] == b[""][0], "untouched-value-changed", d)
        mon.expect(vis[0] in [x[""][0] for x in (b, t, o)], "visible-value-from-nowhere", d)
        for a in sorted(set(t) | set(o)):
            if not a:
                continue
            cands = [x for x in (b.get(a), t.get(a), o.get(a)) if x is not None]
            chg = [x for x in (t.get(a), o.get(a)) if x is not None and x != b.get(a)]
            if not chg and (a not in t or a not in o):
                continue            # withdrawn by one side and not touched by the other: not judged
            if not mon.expect(a in ent, "proposal-lost", d):
                continue
            got = ent[a]
            mon.expect(got[0] in [x[0] for x in cands], "proposal-from-nowhere", d)
            r = [rank(x[1]) for x in chg]
            if len(chg) == 1:
                mon.event("proposal:new" if a not in b else "proposal:changed")
                seen.add("p")
                if a not in b or r[0] <= rank(b[a][1]):
                    mon.expect(got[0] == chg[0][0], "proposal-lost", d)
            elif len(chg) == 2:
                mon.event("proposal:both")
                mon.expect(rank(got[1]) <= min(r), "worse-proposal-kept", d)
            elif a in b:
                mon.expect(got[0] == b[a][0], "untouched-proposal-changed", d)
    if {"t", "o", "p"} <= seen:
        mon.substantive(case["fmt"])
    mon.sample(dict(items=case["items"], default=case["default"]))
