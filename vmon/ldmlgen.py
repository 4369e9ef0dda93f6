"""LDML documents for the workloads, and an independent reader for the oracles.

The tree form is JSON: [tag, {attr: value}, text or None, [children], [comments before]] with tags and
attributes written with the usual prefixes (sil:, xml:). Nothing here uses code from the repository;
the DTD is read with libxml2, documents are read with libxml2."""

import copy, os, random, re
from lxml import etree
from .core import LIB

SIL = "urn://www.sil.org/ldml/0.1"
XMLNS = "http://www.w3.org/XML/1998/namespace"
FX = "urn:example:foreign"
FY = "http://example.org/other#ns"
PREFIX = {SIL: "sil", XMLNS: "xml", FX: "fx", FY: "fy"}
DRAFTS = ("approved", "contributed", "provisional", "unconfirmed", "tentative", "generated", "suspect")
RANK = {d: i for i, d in enumerate(DRAFTS)}


class Dtd:
    def __init__(self, fname=None):
        fname = fname or os.path.join(LIB, "sldr", "sil.dtd")
        with open(fname, "rb") as f:
            dtd = etree.DTD(f)
        self.el = {}
        for e in dtd.iterelements():
            name = (e.prefix + ":" if e.prefix else "") + e.name
            kids = []
            haspc = [e.type == "mixed"]

            def walk(c):
                if c is None:
                    return
                if c.type == "element":
                    # libxml2 splits the prefix for content particles of the sil: elements
                    kids.append(c.name)
                elif c.type == "pcdata":
                    haspc[0] = True
                walk(c.left)
                walk(c.right)
            walk(e.content)
            atts = []
            for a in e.iterattributes():
                an = (a.prefix + ":" if a.prefix else "") + a.name
                atts.append((an, a.type, a.default, list(a.values())))
            self.el[name] = dict(kids=kids, pcdata=haspc[0] and e.type != "empty", atts=atts, type=e.type)
        # libxml2 keeps no order for attributes across ATTLISTs it can promise; read orders from the text
        with open(fname, encoding="utf-8") as f:
            text = re.sub(r"<!--.*?-->", "", f.read(), flags=re.S)
        self.childorder = {}
        self.attorder = {}
        for m in re.finditer(r"<!ELEMENT\s+(\S+)\s+(.*?)>", text, re.S):
            order = []
            for n in re.findall(r"[^\s(),|?*+>]+", m.group(2)):
                if n.startswith("#") or n in ("EMPTY", "ANY"):
                    continue
                order.append(n)
            self.childorder[m.group(1)] = order
        for m in re.finditer(r"<!ATTLIST\s+(\S+)\s+(.*?)>", text, re.S):
            for am in re.finditer(r"([\w:.-]+)\s+(CDATA|ID|IDREF|NMTOKENS?|\([^)]*\))\s+(#REQUIRED|#IMPLIED|#FIXED\s+\"[^\"]*\"|\"[^\"]*\")",
                                  m.group(2)):
                lst = self.attorder.setdefault(m.group(1), [])
                if am.group(1) not in [x[0] for x in lst]:
                    vals = None
                    if am.group(2).startswith("("):
                        vals = [v.strip() for v in am.group(2)[1:-1].split("|")]
                    lst.append((am.group(1), vals, am.group(3)))
        for name, order in self.childorder.items():
            if name in self.el:
                self.el[name]["kids"] = order

    def atts(self, tag):
        return self.attorder.get(tag, [])

    def attnames(self, tag):
        return [a[0] for a in self.atts(tag)]


_dtd = None


def dtd():
    global _dtd
    if _dtd is None:
        _dtd = Dtd()
    return _dtd


def serial_elements():
    """ Elements whose order and repetition is data (CLDR supplemental metadata) plus special """
    p = os.path.join(LIB, "sldr", "supplementalMetadata.xml")
    t = etree.parse(p)
    return set(t.find("metadata/serialElements").text.split()) | {"special"}


# ---------------------------------------------------------------------------------------- text pools
WORDS = ["alpha", "Beta", "gamma delta", "é", "naïve", "x", "0", "42", "Ünï", "क्षि", "မြန်မာ",
         "العربية", "עִבְרִית", "𝒜𝒷", "𐐀𐐨", "e\u0301", "ʼn", "a\u200db", "{0} {1}", "#,##0.###", "¤#,##0.00"]
HOSTILE = ["a & b", "<tag>", "a > b", "\"quoted\"", "it's", "&amp;", "&lt;b&gt;", "]]>", "x ]]> y", "<!-- c -->",
           "<![CDATA[x]]>", "a\tb", "tab\tand  spaces", "\\u0041", "&#65;", "%s {x} $row", "[a-z & b]", "]]&gt;",
           "'", "\"", "&", "<", ">", "--", "a--b"]
SPACES = ["\u00a0", "\u202f", "\u2009", "\u3000", "\u00a0x", "x\u202f", "\u200f", "\u200b", "\u2028a", "\u0085", "a\u00a0"]
LINES = ["one\ntwo", "one\n\nthree", "& a < b\n& c <<< d", "x\n\u00a0\ny", "[a-b]\n[c-d]\n[e]"]
NMT = ["aa", "bb", "zz", "AA", "proposed", "standard", "gregorian", "latn", "USD", "001", "2", "10", "x-y", "a.b", "en_US"]
TYPES = ["a", "b", "B", "c", "long", "short", "narrow", "format", "1", "2", "3", "10", "am", "mon", "Africa/Abidjan",
         "Asia/Bangkok", "America/New_York", "Etc/Unknown", "zzz", "AAA"]
ALTS = ["proposed", "variant", "short", "proposed-u10", "proposed-x2", "secondary"]


def gen_text(rng, spaces=True, lines=True, cr=False):
    r = rng.random()
    if r < 0.45:
        return " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 3)))
    if r < 0.75:
        return rng.choice(HOSTILE) + (rng.choice(WORDS) if rng.random() < .4 else "")
    if r < 0.85 and spaces:
        return rng.choice(SPACES)
    if r < 0.93 and lines:
        return rng.choice(LINES)
    if cr and r < 0.96:
        return "a\rb"
    return chr(rng.choice([rng.randint(0x21, 0x7e), rng.randint(0xa1, 0x24f), rng.randint(0x900, 0xfff),
                           rng.randint(0x1e00, 0x1fff), rng.randint(0x1f300, 0x1f5ff)]))


def gen_attval(rng, name, vals, hostile=.15, ws=False):
    if name == "draft":
        return rng.choice(DRAFTS)
    if vals and rng.random() < .92:
        return rng.choice(vals)
    if name == "alt":
        return rng.choice(ALTS)
    if name in ("type", "id", "key", "count"):
        return rng.choice(TYPES)
    if rng.random() < hostile:
        v = rng.choice(HOSTILE)
        if not ws:
            v = v.replace("\t", " ")
        return v
    return rng.choice(NMT)


class Gen:
    """ Random documents shaped by the DTD. Options: drafts, alts, comments, dups (leaf duplicates) """

    def __init__(self, rng, size=40, maxdepth=7, drafts=.2, alts=.0, comments=.1, dups=.0, hostile=.15, ws=False,
                 cr=False, textspaces=True, collide=.0, identity=True, default_draft=None, extra_atts=.25,
                 unknown=.0, fill=True):
        self.rng, self.left = rng, size
        self.size = size
        self.o = dict(maxdepth=maxdepth, drafts=drafts, alts=alts, comments=comments, dups=dups, hostile=hostile, ws=ws,
                      cr=cr, textspaces=textspaces, extra_atts=extra_atts, unknown=unknown, fill=fill)
        self.identity = identity
        self.default_draft = default_draft
        self.d = dtd()

    def comments(self):
        if self.rng.random() < self.o["comments"]:
            return [self.rng.choice([" note ", "x < y & z", " multi\n\tline ", "é", " [a-z] ", "&amp;"])
                    for _ in range(self.rng.choice([1, 1, 2]))]
        return []

    def attribs(self, tag, leafish):
        res = {}
        for name, vals, dflt in self.d.atts(tag):
            if name in ("xmlns:sil", "xml:space", "xmlns"):
                continue
            if dflt.startswith("#FIXED"):
                continue
            p = self.o["extra_atts"] * .4
            if dflt == "#REQUIRED":
                p = 1
            elif name in ("type", "count", "id", "numberSystem"):
                p = max(p, .7)
            elif name == "draft":
                p = self.o["drafts"] if leafish or self.rng.random() < .2 else 0
            elif name == "alt":
                p = self.o["alts"] if leafish else 0
            elif self.o["extra_atts"] < .5 and name in ("validSubLocales", "references", "standard"):
                p = .03
            if p and self.rng.random() < p:
                res[name] = gen_attval(self.rng, name, vals, self.o["hostile"], self.o["ws"])
        return res

    def element(self, tag, depth):
        self.left -= 1
        d = self.d.el.get(tag)
        kids = []
        rng = self.rng
        if d and d["kids"] and depth < self.o["maxdepth"] and self.left > 0 and not (d["pcdata"] and rng.random() < .7):
            names = [k for k in d["kids"] if k in self.d.el and k != "alias"]
            want = rng.randint(1, min(5, 1 + self.left))
            for _ in range(want):
                if self.left <= 0 or not names:
                    break
                n = rng.choice(names)
                reps = rng.choice([1, 1, 2, 3]) if self.d.el[n]["atts"] else 1
                for _ in range(reps):
                    if self.left > 0:
                        kids.append(self.element(n, depth + 1))
        text = None
        if not kids and (d is None or d["pcdata"] or not d["kids"]) and rng.random() < .93 and (d is None or d["type"] != "empty"):
            text = gen_text(rng, spaces=self.o["textspaces"], cr=self.o["cr"])
        e = [tag, self.attribs(tag, not kids), text, kids, self.comments()]
        return e

    def document(self):
        root = ["ldml", {}, None, [], self.comments()]
        rng = self.rng
        if self.identity:
            ident = ["identity", {}, None, [["language", {"type": rng.choice(["aa", "en", "und"])}, None, [], []]], []]
            if rng.random() < .5:
                ident[3].append(["script", {"type": rng.choice(["Latn", "Cyrl"])}, None, [], []])
            if self.default_draft or rng.random() < .5:
                a = {"source": "cldr"}
                if self.default_draft:
                    a["draft"] = self.default_draft
                if rng.random() < .5:
                    a["script"] = "Latn"
                ident[3].append(["special", {}, None, [["sil:identity", a, None, [], []]], []])
            root[3].append(ident)
        tops = [k for k in self.d.el["ldml"]["kids"] if k in self.d.el and k not in ("identity", "alias")]
        for t in rng.sample(tops, rng.randint(1, 7)):
            if self.left > 0:
                root[3].append(self.element(t, 1))
        if rng.random() < .5 and self.left > 0:
            root[3].append(self.element("special", 1))
        if self.o["fill"]:
            prune_duplicates(root)
            n = count(root)
            for _ in range(60):
                if n >= self.size:
                    break
                self.left = max(6, self.size // 4)
                combine(root, ["ldml", {}, None, [self.element(rng.choice(tops), 1)], []])
                n = count(root)
        prune_duplicates(root)
        return root


def combine(a, b):
    """ Add to a what b has at places a does not have """
    mine = {}
    for c in a[3]:
        mine.setdefault(key_of(c), c)
    for c in b[3]:
        m = mine.get(key_of(c))
        if m is None:
            a[3].append(c)
            mine[key_of(c)] = c
        elif m[3] and c[3]:
            combine(m, c)


def key_of(e, drop=("draft", "alt")):
    """ Identity of a child among its siblings: its name and its declared attributes other than draft/alt """
    names = _silkeys.get(e[0]) or set(dtd().attnames(e[0]))
    return (e[0], tuple(sorted((k, v) for k, v in e[1].items() if k not in drop and k in names)))


_silkeys = {"sil:matched-pair": {"open", "close"}, "sil:quotation": {"level"},
            "sil:punctuation-pattern": {"context", "pattern"}}


def prune_duplicates(e, keepalt=False):
    """ Make the children of every element distinguishable by key (and alt when keepalt) """
    seen = set()
    out = []
    for c in e[3]:
        k = key_of(c)
        if keepalt:
            k = (k, c[1].get("alt"))
        if k in seen:
            continue
        seen.add(k)
        prune_duplicates(c, keepalt)
        out.append(c)
    e[3][:] = out


def add_alternates(rng, root, n):
    """ Give some elements, whatever they hold, alternates beside them, and some an alt of their own """
    every = [(p, c) for _, p in walk(root) if p[0] not in ("ldml", "identity", "special") and not p[0].startswith("sil:")
             for c in p[3] if not c[0].startswith("sil:") and "alt" in dtd().attnames(c[0]) and "alt" not in c[1]]
    for p, c in rng.sample(every, min(n, len(every))):
        if sum(1 for _ in walk(c)) > 12:
            c[1]["alt"] = rng.choice(ALTS)
            continue
        for a in rng.sample(ALTS, rng.choice([1, 1, 2, 3])):
            x = copy.deepcopy(c)
            x[1]["alt"] = a
            x[4] = []
            if rng.random() < .4:
                x[1]["draft"] = rng.choice(DRAFTS)
            if x[2] is not None:
                x[2] = gen_text(rng, spaces=False, lines=False)
            p[3].insert(rng.randint(0, len(p[3])), x)
        if rng.random() < .15:
            p[3].remove(c)
    return root


# ------------------------------------------------------------------------------------- serialising
def esc_text(s, rng=None, style=0):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")
    if rng is not None and style:
        s = "".join("&#x%X;" % ord(c) if c not in "&;#" and ord(c) > 0x7f and rng.random() < .3 else c for c in s)
    return s


def esc_att(s, q='"'):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace("\r", "&#13;").replace("\n", "&#10;").replace("\t", "&#9;")
    return s.replace('"', "&quot;") if q == '"' else s.replace("'", "&apos;")


def uses_foreign(e):
    return e[0].startswith(("fx:", "fy:")) or any(k.startswith(("fx:", "fy:")) for k in e[1]) or \
        any(uses_foreign(c) for c in e[3])


def to_xml(tree, rng=None, shuffle_atts=False, shuffle_kids=None, pretty=True, cdata=0.0, charref=False, decl=True,
           compact=False, ns=None):
    """ Write a tree. rng given: hostile but equivalent formatting. shuffle_kids: set of tags whose order is data.
    ns: {"fx": prefix} other prefixes for the foreign namespaces; None makes it the default namespace where it is used """
    out = []
    ns = {"fx": "fx", "fy": "fy", **(ns or {})}
    URIS = {"fx": FX, "fy": FY}

    def named(items):
        res = []
        for k, v in items:
            q, _, l = k.rpartition(":")
            if q in URIS:
                if not isinstance(ns[q], str):
                    res += [("xmlns:q" + q, URIS[q])]
                    k = "q" + q + ":" + l
                else:
                    k = ns[q] + ":" + l
            res.append((k, v))
        return [x for i, x in enumerate(res) if x not in res[:i]]
    if decl:
        out.append('<?xml version="1.0" encoding="UTF-8"?>\n')

    def rec(e, depth, root=False):
        tag, att, text, kids, comments = e[:5]
        ind = "" if compact else ("\t" * depth if rng is None else rng.choice(["\t", "  ", ""]) * depth)
        nl = "" if compact else "\n"
        for c in comments:
            out.append("%s<!--%s-->%s" % (ind, c, nl))
        items = list(att.items())
        if root:
            items = [("xmlns:sil", SIL)] + ([("xmlns:" + ns[q], URIS[q]) for q in URIS if isinstance(ns[q], str)] if uses_foreign(e) else []) + items
        items = named(items)
        q, _, l = tag.rpartition(":")
        if q in URIS:
            if isinstance(ns[q], tuple):
                items = [("xmlns:" + ns[q][0], URIS[q])] + items
                tag = ns[q][0] + ":" + l
            else:
                tag = ns[q] + ":" + l if ns[q] else l
                items = items if ns[q] else [("xmlns", URIS[q])] + items
        if rng is not None and shuffle_atts:
            rng.shuffle(items)
        s = "".join(" %s=%s%s%s" % (k, q, esc_att(v, q), q) for k, v in items
                    for q in [rng.choice("'\"") if rng is not None else '"'])
        out.append("%s<%s%s" % (ind, tag, s))
        ks = list(kids)
        if rng is not None and shuffle_kids is not None:
            ks = shuffled(ks, rng, shuffle_kids)
        if ks:
            out.append(">" + nl)
            for k in ks:
                rec(k, depth + 1)
            for c in (e[5] if len(e) > 5 else []):
                out.append("%s<!--%s-->%s" % (ind, c, nl))
            out.append("%s</%s>%s" % (ind, tag, nl))
        elif text:
            if rng is not None and cdata and rng.random() < cdata and "\r" not in text:
                t = "<![CDATA[" + text.replace("]]>", "]]]]><![CDATA[>") + "]]>"
            else:
                t = esc_text(text, rng, charref)
            if rng is not None and not compact and text != "\u2191\u2191\u2191" and rng.random() < .3:
                t = rng.choice(["\n\t\t", "  ", "\n"]) + t + rng.choice(["\n", " ", "\n\t"])
            if rng is not None and not compact and "\n" in text and "CDATA" not in t and rng.random() < .5:
                t = t.replace("\n", rng.choice(["\n\t\t", "  \n ", "\n    "]))
            out.append(">%s</%s>%s" % (t, tag, nl))
        else:
            out.append(rng.choice(["/>", "></%s>" % tag]) + nl if rng is not None else "/>" + nl)
    rec(tree, 0, True)
    return "".join(out)


def gen_ns(rng):
    """ How a document may name the foreign namespaces: as it likes, with the prefixes a writer would make up, by default,
    one prefix for each where it is used """
    return rng.choice([None, {"fx": "ns1", "fy": "ns2"}, {"fx": None}, {"fy": None, "fx": "ns1"}, {"fx": None, "fy": "ns2"},
                       {"fy": "ns1"}, {"fx": None, "fy": None}, {"fx": None, "fy": "ns1"}, {"fx": "fy", "fy": "fx"},
                       {"fx": ("p",), "fy": ("p",)}, {"fx": ("fx",), "fy": ("fx",)}, {"fx": ("ns1",), "fy": None}])


def shuffled(kids, rng, fixedtags):
    """ A permutation of kids that keeps the relative order of serial elements of each name """
    ks = list(kids)
    rng.shuffle(ks)
    for t in fixedtags:
        pos = [i for i, k in enumerate(ks) if k[0] == t]
        orig = [k for k in kids if k[0] == t]
        for p, k in zip(pos, orig):
            ks[p] = k
    return ks


# ---------------------------------------------------------------------------- independent reading
def qn(name):
    if name[0] == "{":
        ns, l = name[1:].split("}", 1)
        return (PREFIX.get(ns, "{" + ns + "}") + ":" if ns in PREFIX else "{" + ns + "}") + l
    return name


def norm_text(t):
    """ Insignificant XML white space: around the text and around line breaks """
    if t is None:
        return None
    t = re.sub(r"[ \t]*\n[ \t]*", "\n", t.strip(" \t\r\n"))
    return t or None


def near(rng, s):
    """ Another text which differs from one in as little as texts do """
    s = s or ""
    lines, words = s.split("\n"), s.split(" ")
    opts = [s + rng.choice("ae1.\u0301"), s[:-1], s + " x", s.swapcase(), s.replace("\n", " "), s.replace(" ", "\n", 1), s.replace(" ", "  ", 1), s.replace(" ", "\u00a0", 1),
            "\n".join(lines[::-1]), "\n".join(sorted(lines)), " ".join(words[::-1]), s[1:], s + "\n" + lines[-1], "\n".join(lines + lines[:1]), s[::-1]]
    opts = [o for o in opts if norm_text(o) != norm_text(s) and not re.search(r"^[\u0301]|--|-$|\n\u0301| \u0301", o)]
    return norm_text(rng.choice(opts or ["x"])) or ""


def from_xml(data, comments=True, norm=True):
    """ bytes/str -> tree via libxml2. Raises etree.XMLSyntaxError when not well formed """
    if isinstance(data, str):
        data = data.encode("utf-8")
    p = etree.XMLParser(remove_blank_text=False, resolve_entities=True, huge_tree=True, remove_pis=True)
    root = etree.fromstring(data, p)
    pre = []
    c = root.getprevious()
    while c is not None:
        if c.tag is etree.Comment:
            pre.insert(0, c.text or "")
        c = c.getprevious()
    return _conv(root, pre, norm)


def _conv(e, pre, norm):
    kids, pend, text, after = [], [], [e.text or ""], []
    for c in e:
        if c.tag is etree.Comment:
            pend.append(c.text or "")
            if not kids:
                text.append(c.tail or "")
            continue
        kids.append(_conv(c, pend, norm))
        pend = []
    t = "".join(text)
    t = norm_text(t) if norm else (t or None)
    if kids and t is None and pend:
        after = pend
    res = [qn(e.tag), {qn(k): v for k, v in e.attrib.items()}, t, kids, pre]
    if pend:
        res.append(pend)
    return res


def strip_comments(e):
    return [e[0], e[1], e[2], [strip_comments(c) for c in e[3]], []]


def all_comments(e):
    res = list(e[4])
    for c in e[3]:
        res.extend(all_comments(c))
    if len(e) > 5:
        res.extend(e[5])
    return res


def walk(e, path=()):
    yield path, e
    for i, c in enumerate(e[3]):
        yield from walk(c, path + (i,))


def count(e):
    return 1 + sum(count(c) for c in e[3])


# ------------------------------------------------------- reading the in-memory document (public tree API)
def from_elem(e, norm=False, comments=True, alternates=True):
    """ Snapshot of an element tree held by the library, through the ElementTree interface only """
    kids = [from_elem(c, norm, comments) for c in e]
    t = e.text
    if norm:
        t = norm_text(t)
    return [qn(e.tag), {qn(k): v for k, v in e.attrib.items()}, t or None, kids,
            list(getattr(e, "comments", []) or []) if comments else []]


def deep_diff(a, b, path=""):
    """ First difference between two trees, or None """
    p = path + "/" + a[0]
    if a[0] != b[0]:
        return "%s: element %s vs %s" % (path, a[0], b[0])
    if a[1] != b[1]:
        return "%s: attributes %r vs %r" % (p, a[1], b[1])
    if (a[2] or None) != (b[2] or None):
        return "%s: text %r vs %r" % (p, a[2], b[2])
    if a[4] != b[4]:
        return "%s: comments %r vs %r" % (p, a[4], b[4])
    if len(a[3]) != len(b[3]):
        ka = [(c[0], c[1]) for c in a[3]]
        kb = [(c[0], c[1]) for c in b[3]]
        miss = [k for k in ka if k not in kb]
        more = [k for k in kb if k not in ka]
        return "%s: %d vs %d children; only left %r; only right %r" % (p, len(a[3]), len(b[3]), miss[:4], more[:4])
    for x, y in zip(a[3], b[3]):
        d = deep_diff(x, y, p)
        if d:
            return d
    return None


def unordered(e, serial):
    """ Canonical form that forgets the order of siblings other than serial elements of one name """
    kids = [unordered(c, serial) for c in e[3]]
    keyed = {}
    out = []
    for c in kids:
        if c[0] in serial:
            keyed[c[0]] = keyed.get(c[0], 0) + 1
            out.append((c[0], keyed[c[0]], "", c))
        else:
            out.append((c[0], 0, repr((sorted(c[1].items()), c[2], c[3], c[4])), c))
    out.sort(key=lambda x: x[:3])
    return [e[0], e[1], e[2], [x[3] for x in out], e[4]]
