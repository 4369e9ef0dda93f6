"""L10 any XML spelling of a document reads as the same document, and malformed files are refused."""
import io, os, random, re
from xml.etree import ElementTree as std
from xml.parsers import expat
from lxml import etree
from sldr.py3xmlparser import XMLParser, TreeBuilder
from .. import ldmlgen as g
from ..ldmlrun import *

PID = "L10"
RULE = ("DTD-shaped documents spelled in random equivalent ways (comments between entries, trailing in groups, inside "
        "and around text, after the root; processing instructions; CDATA splits; character references; DOCTYPE with "
        "and without internal entities; other namespace prefixes; byte order mark; CRLF), delivered in random pieces; "
        "and the same files damaged. Non-trivial = distinct by bytes with at least 5 special spellings")
ANCHORS = ["lib/sldr/ldml.py", "lib/sldr/py3xmlparser.py"]
SERIAL = g.serial_elements()
REQUIRES = {"compared": 300, "comments": 150, "refused": 150, "tree": 150}


class Pieces(io.RawIOBase):
    """ A file which hands out its content in pieces of any size """
    def __init__(self, data, rng, sizes):
        self.d, self.rng, self.sizes, self.i = data, rng, sizes, 0

    def read(self, n=-1):
        k = self.rng.choice(self.sizes)
        if n is not None and n >= 0:
            k = min(k, n)
        r = self.d[self.i:self.i + k]
        self.i += len(r)
        return r

    def readable(self):
        return True

    def close(self):
        pass


def comment(rng, n):
    return rng.choice([" c%d ", "c%d", " <a>%d</a> & x ", " \u00e9\u2191 %d", " two\n lines %d ", "%d ]]> "]) % n


def spell(tree, rng, what):
    """ -> (xml text, comments in order, number of special spellings) """
    out, coms, st = [], [], [0]
    p = lambda k: k in what and rng.random() < what[k]
    prefix = rng.choice(["sil", "sil", "s", "zz"])
    ents = {}
    nl = rng.choice(["\n", "\n", ""]) if "ws" in what else "\n"

    def com(ind=""):
        c = comment(rng, len(coms))
        coms.append(c)
        st[0] += 1
        return ind + "<!--" + c + "-->"

    def misc(ind):
        while p("comment"):
            out.append(com(ind) + nl)
        if p("pi"):
            out.append(ind + rng.choice(["<?foo?>", "<?a b=\"c\" <x> ?>"]) + nl)
            st[0] += 1

    def name(t):
        return prefix + t[3:] if t.startswith("sil:") else t

    def piece(s):
        if not s:
            return ""
        r = rng.random()
        if "cdata" in what and r < .3 and "\r" not in s:
            st[0] += 1
            return "<![CDATA[" + s.replace("]]>", "]]]]><![CDATA[>") + "]]>"
        if "charref" in what and r < .5:
            st[0] += 1
            return "".join("&#%s;" % rng.choice(["%d" % ord(c), "x%X" % ord(c), "x%06x" % ord(c)]) for c in s)
        if "entity" in what and r < .7 and "\r" not in s and "\n" not in s and not re.search("[&<>%\"']", s):
            k = "e%d" % len(ents)
            ents[k] = s
            st[0] += 1
            return "&%s;" % k
        return g.esc_text(s)

    def text(t):
        """ The text of a leaf in pieces, perhaps with comments between them """
        res = []
        n = rng.choice([1, 1, 2, 3]) if "split" in what else 1
        cuts = sorted(rng.randint(0, len(t)) for _ in range(n - 1))
        for a, b in zip([0] + cuts, cuts + [len(t)]):
            res.append(piece(t[a:b]))
            if p("inner"):
                res.append(com())
            if "inner" in what and p("pi"):
                res.append("<?in side?>")
                st[0] += 1
        if p("inner"):
            res.insert(0, com())
        if "inner" in what:
            # comments must be numbered in document order
            found = [m for r in res for m in re.findall(r"<!--(.*?)-->", re.sub(r"<!\[CDATA\[.*?\]\]>", "", r, flags=re.S), re.S)]
            if found:
                coms[-len(found):] = found
        return "".join(res)

    def rec(e, ind, root=False):
        tag, att, txt, kids = e[:4]
        misc(ind)
        items = list(att.items())
        rng.shuffle(items)
        s = ""
        for k, v in items:
            q = rng.choice("'\"")
            sp = rng.choice([" ", " ", "\n\t", "  "]) if "ws" in what else " "
            eq = rng.choice(["=", " = "]) if "ws" in what else "="
            s += sp + name(k) + eq + q + g.esc_att(v, q) + q
        if root:
            s = ' xmlns:%s="%s"' % (prefix, g.SIL) + s
        out.append(ind + "<" + name(tag) + s)
        if kids:
            out.append(">" + nl)
            for k in kids:
                rec(k, ind + ("  " if nl else ""))
            misc(ind)
            out.append(ind + "</" + name(tag) + ">" + nl)
        elif txt:
            out.append(">" + text(txt) + "</" + name(tag) + ">" + nl)
        else:
            out.append(rng.choice(["/>", " />", "></%s>" % name(tag)]))
            if p("inner"):
                out[-1] = ">" + com() + "</%s>" % name(tag)
            out[-1] += nl

    rec(tree, "", True)
    if p("after"):
        out.append(com() + nl)
    head = ""
    if rng.random() < .7:
        head = '<?xml version="1.0"%s?>\n' % rng.choice(["", ' encoding="UTF-8"', " encoding='utf-8'",
                                                        ' encoding="UTF-8" standalone="yes"' if not ents else ""])
    if ents:
        head += "<!DOCTYPE ldml [\n%s]>\n" % "".join("<!ENTITY %s %s>\n" % (
            k, '"%s"' % v) for k, v in ents.items())
    elif p("doctype"):
        head += rng.choice(['<!DOCTYPE ldml SYSTEM "../../common/dtd/ldml.dtd">\n',
                            '<!DOCTYPE ldml PUBLIC "-//x//y" "http://a/b.dtd">\n',
                            '<!DOCTYPE ldml SYSTEM "../../common/dtd/ldml.dtd"\n[\n<!ENTITY % icu SYSTEM "x.dtd">\n]>\n',
                            '<!DOCTYPE ldml>\n', '<!DOCTYPE ldml SYSTEM "x"[<!ATTLIST ldml draft CDATA #IMPLIED>]>'])
        st[0] += 1
    pad = ""
    if p("pad"):
        c = "p" * rng.choice([16350, 16384, 32700, 65530, 65536]) + "." * rng.randint(0, 120)
        pad = "<!--" + c + "-->"
        coms.insert(0, c)
    res = head + pad + "".join(out)
    if p("crlf") and not any("\n" in c for c in coms):
        res = res.replace("\n", "\r\n")
        st[0] += 1
    return res, coms, st[0]


WHAT = dict(comment=.15, pi=.1, cdata=1, charref=1, entity=1, split=1, inner=.3, after=.5, ws=1, pad=.15, crlf=.5, doctype=.5)


def gen_spell(rng):
    t = g.Gen(rng, size=rng.choice([8, 20, 50]), drafts=0, comments=0, ws=True, cr=False,
              hostile=.2).document()
    what = {k: v for k, v in WHAT.items() if rng.random() < .5}
    return dict(tree=t, what=what, fmt=rng.randint(0, 1 << 30), topns=rng.random() < .5,
                deliver=rng.choice(["whole", "file", "bits", "bytes"]), bom=rng.random() < .1)


def gen_place(rng):
    """ comments only where they belong to an entry """
    c = gen_spell(rng)
    c["what"] = {k: v for k, v in c["what"].items() if k not in ("inner", "after", "pad")}
    c["what"]["comment"] = rng.choice([.1, .3])
    return c


def gen_damage(rng):
    c = gen_spell(rng)
    c["damage"] = [[rng.choice(["cut", "drop", "swap", "amp", "lt", "name", "quote", "ctrl", "byte", "dup", "after"]),
                    rng.random(), rng.random()] for _ in range(rng.choice([1, 1, 2]))]
    return c


def gen_tree(rng):
    c = gen_spell(rng)
    c["sizes"] = rng.choice([[1], [1, 2, 3], [7, 50], [1000], [100000]])
    return c


KINDS = {"spell": (gen_spell, 2200, 30000), "place": (gen_place, 700, 10000), "damage": (gen_damage, 1500, 20000),
         "tree": (gen_tree, 700, 10000)}


def deliver(case, data, mon, rng):
    if case["deliver"] == "file":
        p = os.path.join(mon.tmp, "in.xml")
        with open(p, "wb") as f:
            f.write(data)
        return p
    if case["deliver"] == "whole":
        return io.BytesIO(data)
    return Pieces(data, rng, [1, 2, 5] if case["deliver"] == "bytes" and len(data) < 20000 else [10, 100, 1000])


def damage(s, ops):
    for op, a, b in ops:
        i = int(a * len(s))
        if op == "cut":
            s = s[:i]
        elif op == "drop":
            m = list(re.finditer(rb"</[^>]*>|<[a-z][^<>]*>", s))
            if m:
                m = m[int(b * len(m))]
                s = s[:m.start()] + s[m.end():]
        elif op == "swap":
            m = list(re.finditer(rb"</([^>]*)>", s))
            if len(m) > 1:
                m = m[int(b * len(m))]
                s = s[:m.start(1)] + b"x" + s[m.end(1):]
        elif op == "amp":
            s = s[:i] + [b"&", b"&nosuch;", b"&#0;", b"&#xFFFE;", b"&#;"][int(b * 5)] + s[i:]
        elif op == "lt":
            s = s[:i] + b"<" + s[i:]
        elif op == "name":
            s = s[:i] + b"<1a/>" + s[i:]
        elif op == "quote":
            j = s.find(b'"', i)
            if j > 0:
                s = s[:j] + s[j + 1:]
        elif op == "ctrl":
            s = s[:i] + bytes([int(b * 9)]) + s[i:]
        elif op == "byte":
            s = s[:i] + bytes([0x80 + int(b * 127)]) + s[i:]
        elif op == "dup":
            m = list(re.finditer(rb'\s[a-z]+="[^"<>]*"', s))
            if m:
                m = m[int(b * len(m))]
                s = s[:m.end()] + m.group(0) + s[m.end():]
        else:
            s = s + [b"<a/>", b"x", b"</ldml>"][int(b * 3)]
    return s


def wellformed(data):
    """ What two independent parsers say: True, False or None when they differ """
    r = []
    try:
        etree.fromstring(data, etree.XMLParser(huge_tree=True, resolve_entities=True))
        r.append(True)
    except etree.XMLSyntaxError:
        r.append(False)
    p = expat.ParserCreate(None, "}")
    try:
        p.Parse(data, True)
        r.append(True)
    except expat.ExpatError:
        r.append(False)
    return r[0] if r[0] == r[1] else None


def plain(e):
    return [e.tag, dict(e.attrib), e.text or "", e.tail or "", [plain(c) for c in e]]


def check(case, mon):
    rng = random.Random(case["fmt"])
    tree = case["tree"]
    xml, coms, special = spell(tree, rng, case["what"])
    data = xml.encode("utf-8")
    if case["bom"]:
        data = b"\xef\xbb\xbf" + data
    if case["kind"] == "tree":
        want = plain(std.fromstring(data))
        p = XMLParser(target=TreeBuilder(), encoding="UTF-8")
        i = 0
        while i < len(data):
            k = rng.choice(case["sizes"])
            p.feed(data[i:i + k])
            i += k
        got = plain(p.close())
        mon.event("tree")
        mon.expect(want == got, "parser", lambda: "%r\nread as %r\nnot %r" % (xml[:600], got, want))
        mon.substantive(data)
        return
    if case["kind"] == "damage":
        data = damage(data, case["damage"])
        ok = wellformed(data)
        if ok is None or not data:
            return mon.skip("parsers differ")
        if not ok:
            try:
                doc = load_it(case, data, mon, rng)
            except Exception as e:
                mon.event("refused")
                mon.state("refusal", type(e).__name__)
                mon.substantive(data)
                return
            mon.violation("accepted", "malformed file (%r) was read as %s\n%r" % (
                case["damage"], save(doc)[:300], data[-600:]))
            return
        mon.event("survived damage")
        return
    assert wellformed(data), data
    want = normtree(tree)
    sane = normtree(g.strip_comments(g.from_xml(data)))
    assert g.deep_diff(g.unordered(g.strip_comments(want), SERIAL), g.unordered(sane, SERIAL)) is None, (xml,)
    doc = load_it(case, data, mon, rng)
    out = save(doc, case["topns"])
    got = g.from_xml(out)
    d = g.deep_diff(g.unordered(g.strip_comments(want), SERIAL), g.unordered(normtree(g.strip_comments(got)), SERIAL))
    mon.event("compared")
    for k in case["what"]:
        mon.event("spelling:" + k)
    mon.expect(d is None, "differs", lambda: "%s\nfrom %r" % (d, xml[:1500]))
    mon.event("comments", len(coms))
    ours = [c.replace("\r\n", "\n") for c in coms]
    theirs = re.findall(r"<!--(.*?)-->", re.sub(r"<!\[CDATA\[.*?\]\]>", "", out, flags=re.S), re.S)
    mon.expect(sorted(theirs) == sorted(ours), "comments:lost", lambda: "comments %r became %r\nfrom %r" % (
        [c for c in ours if c not in theirs][:5], [c for c in theirs if c not in ours][:5], xml[:1500]))
    if case["kind"] == "place":
        a, b = places(data), places(out.encode("utf-8"))
        mon.event("placed", len(a))
        bad = {c: (p, b.get(c)) for c, p in a.items() if b.get(c) != p}
        mon.expect(not bad, "comments:moved", lambda: "%r\nfrom %r\nto %r" % (bad, xml[:1500], out[:1500]))
    if special >= 5:
        mon.substantive(data)
    mon.sample(dict(kind=case["kind"], what=sorted(case["what"]), special=special, head=xml[:300]))


def places(data):
    """ {comment: the element it stands before}, for comments which do so; elements are told by path, attributes and text """
    res = {}
    root = etree.fromstring(data, etree.XMLParser(huge_tree=True, remove_pis=True))

    def ident(e):
        r = []
        t = g.norm_text("".join(e.itertext())) if not len(e) else None
        while e is not None:
            r.append((e.tag, tuple(sorted(e.attrib.items()))))
            e = e.getparent()
        return (tuple(r), t)
    for c in list(root.iter(etree.Comment)) + [c for c in root.itersiblings(preceding=True) if c.tag is etree.Comment]:
        n = c.getnext()
        while n is not None and n.tag is etree.Comment:
            n = n.getnext()
        if n is not None:
            res[c.text.replace("\r\n", "\n")] = ident(n)
    return res


def load_it(case, data, mon, rng):
    return Ldml(deliver(case, data, mon, rng), usedrafts=False)
