"""Data entry sheets: random sheets together with what they say, worked out independently of the code."""
import re
from . import ldmlgen as g

HEADS = ["Language", "note to the linguist", "", "Fill this in", "1."]
TEXTS = ["identity/version", "characters/exemplarCharacters", 'characters/exemplarCharacters[@type="auxiliary"]',
         'characters/exemplarCharacters[@type="%s"]', "layout/orientation/characterOrder", "layout/orientation/lineOrder",
         "delimiters/quotationStart", "delimiters/quotationEnd", "delimiters/alternateQuotationEnd",
         "numbers/defaultNumberingSystem", "numbers/otherNumberingSystems/native",
         'localeDisplayNames/codePatterns/codePattern[@type="%s"]', 'localeDisplayNames/languages/language[@type="%s"]',
         'localeDisplayNames/territories/territory[@type="%s"]', 'localeDisplayNames/scripts/script[@type="%s"]',
         'localeDisplayNames/measurementSystemNames/measurementSystemName[@type="%s"]',
         'dates/calendars/calendar[@type="gregorian"]/months/monthContext[@type="format"]/monthWidth[@type="wide"]/month[@type="%s"]',
         'dates/calendars/calendar[@type="%s"]/days/dayContext[@type="stand-alone"]/dayWidth[@type="narrow"]/day[@type="sun"]',
         "dates/timeZoneNames/gmtFormat", 'dates/timeZoneNames/metazone[@type="GMT"]/long/standard',
         'dates/timeZoneNames/zone[@type="America/New_York"]/exemplarCity', 'dates/timeZoneNames/regionFormat[@type="%s"]',
         'numbers/symbols[@numberSystem="%s"]/decimal', 'numbers/symbols[@numberSystem="latn"]/group',
         'numbers/decimalFormats[@numberSystem="%s"]/decimalFormatLength/decimalFormat/pattern']
ATTS = ["identity/language[@type]", "identity/script[@type]", "identity/territory[@type]", "identity/variant[@type]",
        "dates/timeZoneNames/special/x[@y]", "contextTransforms/contextTransformUsage[@type]"]
ATTS = ATTS[:4]
T1 = ['localeDisplayNames/languages/language[@type="$row"]', 'localeDisplayNames/territories/territory[@type="$row"]',
      'numbers/currencies/currency[@type="$row"]/displayName', 'dates/timeZoneNames/zone[@type="$row"]/exemplarCity',
      'localeDisplayNames/variants/variant[@type="X$rowY"]']
T2 = ['dates/calendars/calendar[@type="gregorian"]/months/monthContext[@type="format"]/monthWidth[@type="$col"]/month[@type="$row"]',
      'dates/calendars/calendar[@type="gregorian"]/days/dayContext[@type="$col"]/dayWidth[@type="wide"]/day[@type="$row"]',
      'numbers/symbols[@numberSystem="$col"]/$row']
T2R = ['numbers/currencies/currency[@type="$row"]/$col', 'dates/fields/field[@type="$row"]/relative[@type="$col"]',
       'dates/calendars/calendar[@type="gregorian"]/quarters/quarterContext[@type="$row"]/quarterWidth[@type="abbreviated"]/quarter[@type="$col"]']
T2X = [['dates/timeZoneNames/metazone[@type="$row"]/long/standard', 'dates/timeZoneNames/metazone[@type="$row"]/short/daylight'],
       ['localeDisplayNames/languages/language[@type="$row"]'],
       ['numbers/currencies/currency[@type="$row"]/displayName', 'numbers/currencies/currency[@type="$row"]/symbol',
        'numbers/currencies/currency[@type="$row"]/decimal']]
KEYS = ["aa", "en", "zh_Hant", "1", "2", "12", "wide", "latn", "sun", "GMT", "America/Los_Angeles", "Africa/Abidjan", "XAF", "USD", "en-GB"]
WIDE = ["w%d" % i for i in range(1, 30)]
ELS = {"$row": ["decimal", "group", "minusSign", "perMille"], "$col": ["displayName", "symbol", "decimal"]}
VALUES = ["x", "Afar", "a b c", "[a b c \u00e9 {ng} \\u0301]", "#,##0.###", "'", "''", "<b> & c", "\u00ab", "\u201c", "two  spaces", "=1+2",
          "42", "7", "0", "\u0633\u0644\u0627\u0645", "\U00010330\U00010331", "+HH:mm;-HH:mm", "{0} (UTC)", "a, b", "]", "/x/y", "$row",
          "it's \"quoted\"", "first line\nsecond", "tab\there", " lead", "trail "]


def parts(path):
    """ a/b[@x="y"] -> canonical key """
    res = []
    for m in re.finditer(r'([^/\[]+)((?:\[@[^\]=]+=(?:"[^"]*"|\'[^\']*\')\])*)(?:/|$)', path):
        res.append((m.group(1), tuple(sorted((a, v[1:-1]) for a, v in re.findall(r'\[@([^\]=]+)=("[^"]*"|\'[^\']*\')\]', m.group(2))))))
    return tuple(res)


class Sheet:
    """ rows: cells from column A; items: [(row, column, path or (path, attribute))] in sheet order """
    def __init__(self, rng, fill=.7, simple=False):
        self.rng, self.fill, self.simple = rng, fill, simple
        self.rows, self.items, self.used, self.open = [], [], set(), False

    def value(self):
        if self.rng.random() >= self.fill:
            return ""
        if self.rng.random() < .15:
            return "".join(self.rng.choice("abc\u00e9\u0628\u1000 ") for _ in range(self.rng.randint(1, 12))).strip()
        return self.rng.choice(VALUES)

    def add(self, row):
        self.rows.append(row)
        return len(self.rows) - 1

    def item(self, row, col, path):
        """ the cell holds the value of path """
        self.items.append((row, col, path))

    def label(self):
        return self.rng.choice(["", "", "Afar", "label", "7", "x"])

    def subst(self, pat):
        return pat % self.rng.choice([k for k in KEYS if "/" not in k]) if "%s" in pat else pat

    def single(self):
        rng = self.rng
        if rng.random() < .2:
            p = rng.choice([a for a in ATTS if a not in self.used] or [None])
            if p is None:
                return self.single()
            self.used.add(p)
            v = rng.choice(["", "en", "Latn", "KE", "001"])
            i = self.add([self.label(), p, self.label(), v] + [self.label()] * rng.choice([0, 0, 1]))
            self.item(i, 3, (p[:p.index("[@")], p[p.index("[@") + 2:-1]))
            return
        p = self.subst(rng.choice(TEXTS))
        i = self.add([self.label(), p, self.label(), self.value()] + [self.label()] * rng.choice([0, 0, 2]))
        self.item(i, 3, p)

    def keys(self, pat, what):
        n = self.rng.randint(1, 4)
        if pat.endswith("/" + what):
            return self.rng.sample(ELS[what], min(n, len(ELS[what])))
        return self.rng.sample([k for k in KEYS if "/" not in k or "zone" in pat], n)

    def t1(self):
        pat = self.rng.choice(T1)
        self.add([self.label(), "table1d(%s)" % pat, "", "heading"])
        for k in self.keys(pat, "$row"):
            i = self.add([self.label(), k, self.label(), self.value()] + [self.label()] * self.rng.choice([0, 1]))
            self.item(i, 3, pat.replace("$row", k))
        self.end()

    def t2(self, pats, name):
        pat = self.rng.choice(pats)
        cols = self.keys(pat, "$col")
        wide = not pat.endswith("/$col") and self.rng.random() < .4
        if wide:
            cols = WIDE[:self.rng.randint(11, 25)]
        more = ["", "not a column"] if self.rng.random() < .3 else []
        self.add([self.label(), name + "(%s)" % pat, self.label()] + cols + more)
        for k in self.keys(pat, "$row"):
            i = self.add([self.label(), k, self.label()] + self.line(len(cols), wide) + ([self.label(), "ignored"] if more else []))
            for n, c in enumerate(cols):
                self.item(i, 3 + n, pat.replace("$row", k).replace("$col", c))
        self.end()

    def line(self, n, wide):
        """ the values in a row of a table; in a wide one the same value, or none, may be repeated over many columns """
        res = [self.value() for _ in range(n)]
        if wide and self.rng.random() < .8:
            m = self.rng.randint(9, n)
            i = self.rng.randint(0, n - m)
            res[i:i + m] = [self.rng.choice(["", "", self.value()])] * m
        return res

    def t2x(self):
        pats = self.rng.choice(T2X)
        self.add([self.label(), "table2dx(%s)" % ",".join(pats), self.label(), "h1", "h2"])
        for k in self.rng.sample([k for k in KEYS if "/" not in k], self.rng.randint(1, 4)):
            i = self.add([self.label(), "", k] + [self.value() for _ in pats])
            for n, p in enumerate(pats):
                self.item(i, 3 + n, p.replace("$row", k))

    def end(self):
        self.blank()

    def blank(self):
        # a table of the last kind goes on until there is something in its first column
        self.add(self.rng.choice([[], ["", "", ""], ["Heading"]] + ([] if self.open else [["Heading", "", "text", "more text"]])))

    def make(self, n):
        for _ in range(n):
            r = self.rng.random()
            if r < .45:
                self.single()
            elif r < .55:
                self.t1()
            elif r < .65:
                self.t2(T2, "table2d")
            elif r < .75:
                self.t2(T2R, "table2dr")
            elif r < .85:
                self.t2x()
                self.open = True
                continue
            else:
                self.blank()
                continue
            self.open = False
        return self

    def entries(self, rows=None):
        """ what the sheet says: {path key: text}; an attribute-only entry is a path key with no text """
        res = {}
        for r, c, p in self.items:
            row = (rows or self.rows)[r]
            v = row[c] if c < len(row) else ""
            if v == "":
                continue
            if isinstance(p, tuple):
                k = parts(p[0])
                res[k[:-1] + ((k[-1][0], tuple(sorted(k[-1][1] + ((p[1], v),)))),)] = None
            else:
                res[parts(p)] = v
        return res


def leaves(tree):
    """ {path key: text} of a document tree """
    res = {}

    def rec(e, key):
        k = key + ((e[0], tuple(sorted(e[1].items()))),)
        if not e[3]:
            res.setdefault(k, []).append(e[2])
        for c in e[3]:
            rec(c, k)
    for c in tree[3]:
        rec(c, ())
    return res
