"""R06 zonetab: the zone table is every zone of zone.tab, once, with its place, in order."""
import io, os, random
from fractions import Fraction
from lxml import etree
from .. import scriptrun

PID = "R06"
RULE = ("the zone.tab of the system where there is one, and random ones: every quadrant, degrees or minutes of nothing, with and without seconds, several zones a country and several at a place, renamed zones, "
        "comments and extra columns, in any order; the table written is compared with positions worked out exactly. Non-trivial = a table of five zones or more, distinct by its text")
ANCHORS = ["scripts/zonetab", "lib/sldr/ldml.py"]
REQUIRES = {"zone": 4000, "with seconds": 1000, "south or west": 2000, "renamed": 200, "same place": 200, "comment": 300, "read by the library": 30}
# the names of locale data for zones which have been renamed since
NAMES = {"America/Atikokan": "America/Coral_Harbour", "America/Argentina/Buenos_Aires": "America/Buenos_Aires", "America/Argentina/Catamarca": "America/Catamarca",
         "America/Argentina/Cordoba": "America/Cordoba", "America/Argentina/Jujuy": "America/Jujuy", "America/Argentina/Mendoza": "America/Mendoza", "America/Nuuk": "America/Godthab",
         "America/Kentucky/Louisville": "America/Louisville", "America/Indiana/Indianapolis": "America/Indianapolis", "Africa/Asmara": "Africa/Asmera", "Atlantic/Faroe": "Atlantic/Faeroe",
         "Asia/Kolkata": "Asia/Calcutta", "Asia/Ho_Chi_Minh": "Asia/Saigon", "Asia/Yangon": "Asia/Rangoon", "Asia/Kathmandu": "Asia/Katmandu", "Pacific/Pohnpei": "Pacific/Ponape", "Pacific/Chuuk": "Pacific/Truk"}
UNSURE = {"Pacific/Honolulu"}
SYSTEM = "/usr/share/zoneinfo/zone.tab"
PLACES = ["Paris", "New_York", "Sao_Paulo", "Port-au-Prince", "Knox", "Ushuaia", "X", "St_Johns", "GMT+1", "North_Dakota/Center", "Argentina/Salta", "DumontDUrville"]
AREAS = ["Africa", "America", "Antarctica", "Asia", "Atlantic", "Australia", "Europe", "Indian", "Pacific"]


def pos(rng, wide):
    d = rng.choice([0, 0, 1, rng.randint(0, 89), rng.randint(0, 179 if wide else 89)])
    return [rng.choice("+-"), d, rng.choice([0, rng.randint(0, 59), rng.randint(0, 59)]), rng.randint(0, 59)]


def gen(rng):
    ccs = ["".join(rng.choice("ABCZ") for _ in range(2)) for _ in range(rng.randint(1, 6))]
    names = sorted({"%s/%s%s" % (rng.choice(AREAS), rng.choice(PLACES), rng.choice(["", "", "_%d" % rng.randint(0, 99)])) for _ in range(rng.choice([1, 4, 15, 60]))} | set(rng.sample(sorted(NAMES), rng.choice([0, 2, 5]))))
    rng.shuffle(names)
    rows, places = [], []
    for n in names:
        if places and rng.random() < .2:
            p = rng.choice(places)
        elif places and rng.random() < .3:       # near another
            p = [[rng.choice("+-"), x[1], rng.choice([x[2], 0, 59]), x[3]] for x in rng.choice(places)[:2]] + [rng.random() < .4]
        else:
            p = [pos(rng, 0), pos(rng, 1), rng.random() < .4]
        places.append(p)
        rows.append([rng.choice(ccs), p, n, rng.choice(["", "", "a comment, with comma", "east # not west"])])
    return dict(rows=rows, notes=rng.randint(0, 5), seed=rng.randint(0, 1 << 40), end=rng.random() < .9)


KINDS = {"table": (gen, 400, 8000)}


def FIXED():
    return [dict(kind="system")]


def iso(p):
    return "".join(("%s%0*d%02d" % (x[0], w, x[1], x[2])) + ("%02d" % x[3] if p[2] else "") for x, w in ((p[0], 2), (p[1], 3)))


def where(s):
    """ +DDMM[SS]+DDDMM[SS] exactly """
    i = max(s.rfind("+"), s.rfind("-"))
    res = []
    for t, w in ((s[:i], 2), (s[i:], 3)):
        v = Fraction(int(t[1:1 + w])) + Fraction(int(t[1 + w:3 + w]), 60) + Fraction(int(t[3 + w:] or "0"), 3600)
        res.append(-v if t[0] == "-" else v)
    return tuple(res)


def check(case, mon):
    rng = random.Random(case.get("seed", 1))
    try:
        src, dst = os.path.join(mon.tmp, "zone.tab"), os.path.join(mon.tmp, "tz.csv")
        if case["kind"] == "system":
            if not os.path.exists(SYSTEM):
                return
            with open(SYSTEM, encoding="utf-8") as f:
                text = f.read()
        else:
            lines = ["\t".join([cc, iso(p), n] + ([c] if c else [])) for cc, p, n, c in case["rows"]]
            for _ in range(case["notes"]):
                lines.insert(rng.randint(0, len(lines)), rng.choice(["# a note", "#", "", "#XX\t+0000+00000\tEurope/Nowhere", "# country-\n#code\tcoordinates\tTZ"]))
                mon.event("comment")
            text = "\n".join(lines) + ("\n" if case["end"] else "")
        with open(src, "w", encoding="utf-8") as f:
            f.write(text)
        want = {}
        for l in text.split("\n"):
            b = l.split("#")[0].split("\t")
            if len(b) > 2 and b[2] not in UNSURE:
                p = where(b[1])
                want[NAMES.get(b[2], b[2]).strip()] = (b[0], p[0], p[1])
                mon.event("zone")
                if len(b[1]) > 11:
                    mon.event("with seconds")
                if min(p) < 0:
                    mon.event("south or west")
                if b[2] in NAMES:
                    mon.event("renamed")
        mon.event("same place", len(want) - len(set(want.values())))
        rc, out, err = scriptrun.run("zonetab", [src, dst], mon.tmp)
        if not mon.expect(rc == 0, "failed", lambda: err[-400:]):
            return
        with open(dst, encoding="utf-8") as f:
            rows = [[x.strip() for x in l.split(",")] for l in f.read().splitlines()]
        mon.expect(all(len(r) == 4 for r in rows), "row", lambda: repr([r for r in rows if len(r) != 4][:3]))
        got = [r for r in rows if len(r) == 4 and not r[0].startswith("Etc/") and r[0] not in ("Pacific/Johnston", "Pacific/Honolulu")]
        names = [r[0] for r in got]
        mon.expect(sorted(names) == sorted(want), "zones", lambda: "not of the input: %r; missing: %r" % (sorted(set(names) - set(want)), sorted(set(want) - set(names)))
                   if set(names) != set(want) else "repeated: %r" % [n for n in names if names.count(n) > 1])
        for n, cc, lat, lon in got:
            if n in want:
                w = want[n]
                mon.expect(cc == w[0], "country", lambda: "%s: %s, not %s" % (n, cc, w[0]))
                for what, a, b in (("latitude", lat, w[1]), ("longitude", lon, w[2])):
                    mon.expect(abs(Fraction(a) - b) <= Fraction(1, 1000), what, lambda: "%s: %s, not %.5f" % (n, a, b))
        order = sorted(want, key=lambda n: (want[n], n))
        if sorted(names) == sorted(want):
            mon.expect(names == order, "order", lambda: "%r, not %r" % next((a, b) for a, b in zip(names, order) if a != b))
        if len(want) >= 5:
            mon.substantive(text)
        mon.sample(text[:200])
        if case["kind"] == "system" or rng.random() < .2:
            library(mon, dst, order, rng)
    finally:
        mon.cleartmp()


def library(mon, dst, order, rng):
    """ Zones of a document are in the order of the table """
    some = rng.sample(order, min(len(order), 12))
    doc = "<ldml><identity><language type='en'/></identity><dates><timeZoneNames>%s</timeZoneNames></dates></ldml>" % "".join(
        "<zone type='%s'><exemplarCity>x</exemplarCity></zone>" % z for z in some)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:                # a process of its own: the table is for all documents from then on
        try:
            from sldr.ldml import Ldml
            d = Ldml(None)
            Ldml.ReadTZData(dst)
            d = Ldml(io.BytesIO(doc.encode()))
            d.normalise()
            res = []
            d.serialize_xml(res.append)
            out = "".join(res)
        except BaseException as e:
            out = "failed: %r" % e
        try:
            with os.fdopen(w, "wb") as f:
                f.write(out.encode("utf-8"))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        out = f.read()
    os.waitpid(pid, 0)
    if not mon.expect(out.startswith(b"<"), "not read", lambda: out[:300]):
        return
    mon.event("read by the library")
    got = [e.get("type") for e in etree.fromstring(out).iter("zone")]
    mon.expect(got == sorted(some, key=order.index), "order in documents", lambda: "%r" % (got,))
