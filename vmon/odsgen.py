"""Writing and reading spreadsheets independently of odfpy and of the code under test (zip + libxml2)."""
import re, zipfile
from xml.sax.saxutils import escape
from lxml import etree

O = "urn:oasis:names:tc:opendocument:xmlns:office:1.0"
T = "{urn:oasis:names:tc:opendocument:xmlns:table:1.0}"
X = "{urn:oasis:names:tc:opendocument:xmlns:text:1.0}"
OFF = "{%s}" % O
HEAD = ('<?xml version="1.0" encoding="UTF-8"?>\n<office:document-content xmlns:office="' + O + '" '
        'xmlns:table="urn:oasis:names:tc:opendocument:xmlns:table:1.0" xmlns:text="urn:oasis:names:tc:opendocument:xmlns:text:1.0" '
        'xmlns:dc="http://purl.org/dc/elements/1.1/" office:version="1.2"><office:scripts/><office:body><office:spreadsheet>'
        '<table:calculation-settings/>')
TAIL = '<table:named-expressions/></office:spreadsheet></office:body></office:document-content>'
MANIFEST = ('<?xml version="1.0" encoding="UTF-8"?>\n<manifest:manifest xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0" '
            'manifest:version="1.2"><manifest:file-entry manifest:full-path="/" manifest:media-type="application/vnd.oasis.opendocument.spreadsheet"/>'
            '<manifest:file-entry manifest:full-path="content.xml" manifest:media-type="text/xml"/></manifest:manifest>')


def para(s, rng, rich):
    """ one line of text as ODF: runs of spaces and tabs are elements """
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == " ":
            j = i
            while j < len(s) and s[j] == " ":
                j += 1
            n = j - i
            if i > 0 and j < len(s):
                out.append(" ")
                n -= 1
            if n:
                out.append("<text:s/>" if n == 1 and rng.random() < .7 else '<text:s text:c="%d"/>' % n)
            i = j
            continue
        out.append("<text:tab/>" if c == "\t" else escape(c))
        i += 1
    if rich and len(out) > 1 and rng.random() < .5:
        a = rng.randint(0, len(out) - 1)
        b = rng.randint(a + 1, len(out))
        out[a:b] = ['<text:span text:style-name="T1">' + "".join(out[a:b]) + "</text:span>"]
    return "<text:p>" + "".join(out) + "</text:p>"


def cell(s, n, rng, rich):
    a = ' table:number-columns-repeated="%d"' % n if n > 1 else ""
    a += ' table:style-name="ce%d"' % rng.randint(1, 9) if rng.random() < .5 else ""
    if s == "":
        return "<table:table-cell%s/>" % a
    note = "<office:annotation><dc:creator>x</dc:creator><text:p>a note</text:p></office:annotation>" if rich and rng.random() < .1 else ""
    if rich and s.isdigit() and s.isascii() and rng.random() < .5:
        a += ' office:value-type="float" office:value="%s"' % s
    else:
        a += ' office:value-type="string"' if rng.random() < .8 else ""
    return "<table:table-cell%s>%s%s</table:table-cell>" % (a, note, "".join(para(l, rng, rich) for l in s.split("\n")))


def row(r, rng, rich, width):
    cells = list(r)
    if rich and rng.random() < .3:          # only what is filled in
        while cells and cells[-1] == "":
            cells.pop()
    elif len(cells) < width:
        cells += [""] * (width - len(cells))
    if rich and rng.random() < .2:
        cells += [""] * rng.choice([50, 1000, 16000])
    out, i = [], 0
    while i < len(cells):
        j = i + 1
        while j < len(cells) and cells[j] == cells[i] and (cells[i] == "" or rich):
            j += 1
        if cells[i] != "" and rng.random() < .5:
            j = i + 1
        out.append(cell(cells[i], j - i, rng, rich))
        i = j
    if not out:
        out.append("<table:table-cell/>")
    return "<table:table-row>" + "".join(out) + "</table:table-row>"


def write(path, sheets, rng, rich=True):
    """ sheets: [(name, rows)] """
    out = [HEAD]
    for name, rows in sheets:
        width = max([len(r) for r in rows] + [1])
        out.append('<table:table table:name="%s"><table:table-column table:number-columns-repeated="%d"/>' % (name, width))
        out.extend(row(r, rng, rich, width) for r in rows)
        out.append("</table:table>")
    out.append(TAIL)
    with zipfile.ZipFile(path, "w") as z:
        z.writestr("mimetype", "application/vnd.oasis.opendocument.spreadsheet", zipfile.ZIP_STORED)
        z.writestr("META-INF/manifest.xml", MANIFEST)
        z.writestr("content.xml", "".join(out))


def ptext(e, top=True):
    """ Text of a paragraph; plain white space collapses """
    sp = lambda t: re.sub("[ \t\r\n]+", " ", t or "")
    r = [sp(e.text)]
    for c in e:
        if c.tag == X + "s":
            r.append("\0" * int(c.get(X + "c", "1")))
        elif c.tag == X + "tab":
            r.append("\1")
        elif c.tag == X + "line-break":
            r.append("\2")
        elif c.tag != OFF + "annotation":
            r.append(ptext(c, False))
        r.append(sp(c.tail))
    r = "".join(r)
    if top:
        r = re.sub("  +", " ", r).strip(" ").replace("\0", " ").replace("\1", "\t").replace("\2", "\n")
    return r


def read(path):
    """ [(name, rows)] as a spreadsheet program shows them; trailing blank cells are dropped """
    with zipfile.ZipFile(path) as z:
        root = etree.fromstring(z.read("content.xml"))
    res = []
    for t in root.iter(T + "table"):
        rows = []
        for r in t.iter(T + "table-row"):
            cells = []
            for c in r:
                n = int(c.get(T + "number-columns-repeated", "1"))
                vt = c.get(OFF + "value-type")
                v = "\n".join(ptext(p) for p in c.findall(X + "p"))
                if vt == "float" and v != c.get(OFF + "value"):
                    v = "<value %s shown as %s>" % (c.get(OFF + "value"), v)
                cells.extend([v] * min(n, 100))
            while cells and cells[-1] == "":
                cells.pop()
            rows.extend([cells] * min(int(r.get(T + "number-rows-repeated", "1")), 3))
        res.append((t.get(T + "name"), rows))
    return res
