SEEDS = []


def S(name, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(name=name, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


F = "lib/sldr/ldml.py"
PRE = '''
import io, sys
from sldr.ldml import Ldml
def load(s, **kw):
    return Ldml(io.BytesIO(s.encode("utf-8")), **kw)
def save(d, **kw):
    r = []
    d.serialize_xml(r.append, **kw)
    return "".join(r)
'''

S("attr-amp-lt-order", "L01", "an attribute value holding a < character, which only serialises wrongly when it is in an attribute",
  "a < in an attribute value is no longer protected, so the saved file is not well formed",
  [(F, "_attribprotect = dict(_elementprotect)\n", "_attribprotect = {k: v for k, v in _elementprotect.items() if k != '<'}\n")],
  '''
from lxml import etree
d = load('<ldml><annotations><annotation cp="&lt;3">heart</annotation></annotations></ldml>')
t = etree.fromstring(save(d).encode("utf-8"))
assert t.find(".//annotation").get("cp") == "<3"
''')

S("zone-unlisted", "L03", "a zone that is not in the time zone table next to ones that are",
  "time zones missing from the table are sorted in among the known ones instead of after them",
  [(F, "self.attribvals[x.tag][k].get(a, \"{}{}\".format(len(self.attribvals[x.tag][k]), a))", "self.attribvals[x.tag][k].get(a, \"{}{}\".format(len(self.attribvals[x.tag][k]) // 2, a))")],
  '''
z = lambda t: '<zone type="%s"><exemplarCity>x</exemplarCity></zone>' % t
d = save(load('<ldml><dates><timeZoneNames>%s%s%s</timeZoneNames></dates></ldml>' % (z("Zulu/Nowhere"), z("Pacific/Wake"), z("Africa/Abidjan"))))
assert d.index("Africa/Abidjan") < d.index("Pacific/Wake") < d.index("Zulu/Nowhere"), d
''')

S("default-draft-pack", "L04", "a repeated entry where one copy has no draft and the document default is not unconfirmed",
  "repeated entries without a draft are judged as unconfirmed instead of by the document's default draft, so the wrong one survives",
  [(F, "                        or self.get_draft(c, default=self.default_draft) < self.get_draft(temp[c.attrHash][a], default=self.default_draft):",
       "                        or self.get_draft(c, default='unconfirmed') < self.get_draft(temp[c.attrHash][a], default='unconfirmed'):")],
  '''
d = load('<ldml xmlns:sil="urn://www.sil.org/ldml/0.1"><identity><language type="aa"/><special><sil:identity draft="approved"/></special></identity>'
  '<delimiters><quotationStart draft="contributed">a</quotationStart><quotationStart>b</quotationStart></delimiters></ldml>')
assert d.find("delimiters/quotationStart").text == "b"
''')

S("ensure-relative-base", "L05", "ensuring a path of which only the first steps exist, below the root, with two candidates for the parent",
  "new nodes are added to the last of several matching parents rather than the first, which is where find looks first",
  [(F, "            parent = newcurr[0]\n        return newcurr", "            parent = newcurr[-1]\n        return newcurr")],
  '''
d = load('<ldml><dates><calendars><calendar type="a"/><calendar type="b"/></calendars></dates></ldml>')
n = d.ensure_path("dates/calendars/calendar/eras")[0]
assert d.find('dates/calendars/calendar[@type="a"]/eras') is n
''')

S("default-draft-class", "L07", "two documents with different default drafts open at the same time",
  "the document default draft is kept on the class, so loading a second document changes how the first one is saved",
  [(F, "            self.default_draft = identity.get('draft', 'unconfirmed')", "            self.__class__.default_draft = identity.get('draft', 'unconfirmed')"),
   (F, "        else:\n            self.default_draft = 'unconfirmed'\n            self.uid = None", "        else:\n            self.__class__.default_draft = 'unconfirmed'\n            self.uid = None")],
  '''
x = '<ldml xmlns:sil="urn://www.sil.org/ldml/0.1"><identity><language type="aa"/><special><sil:identity draft="%s"/></special></identity>' \\
  '<delimiters><quotationStart draft="contributed">a</quotationStart></delimiters></ldml>'
a = load(x % "approved")
alone = save(a)
a = load(x % "approved")
b = load(x % "contributed")
assert save(a) == alone
''')

S("attr-tie-order", "L02", "two attributes on one element that the DTD does not know",
  "attributes the DTD does not list are written in document order, so the saved bytes depend on presentation",
  [(F, "key=lambda x:(getorder(x), x))", "key=getorder)")],
  '''
x = '<ldml xmlns:a="http://a"><special><a:note %s>t</a:note></special></ldml>'
assert save(load(x % 'b="1" c="2"')) == save(load(x % 'c="2" b="1"'))
''')

S("serial-only-containers", "L04", "an ordered list whose entries are plain text (suppressions, segmentation variables) with identical attributes",
  "the list of ordered elements is restricted to those declared with children, so text entries of ordered lists are sorted and dropped as duplicates",
  [(F, "cls.serialElements = set(base.find('serialElements').text.split() + ['special'])",
       "cls.serialElements = set(e for e in base.find('serialElements').text.split() + ['special'] if e in cls.elementOrder)")],
  '''
d = load('<ldml><segmentations><segmentation type="WordBreak"><variables><variable id="$A">a</variable><variable id="$B">b</variable>'
         '<variable id="$A">c</variable></variables></segmentation></segmentations></ldml>')
assert [x.text for x in d.root.iter("variable")] == ["a", "b", "c"]
''')

S("best-not-tightened", "L06", "two retained alternates of different status, both better than the status the visible value is lowered to",
  "when the visible value loses its status, the last better alternate is promoted rather than the best one",
  [(F, "            if d < threshold:\n                res = k\n                threshold = d\n", "            if d < threshold:\n                res = k\n")],
  '''
d = load('<ldml><identity><language type="aa"/></identity></ldml>')
p = "delimiters/quotationStart"
d.ensure_path(p, text="a", draft="approved")
d.ensure_path(p, text="b", draft="contributed", alt="x")
d.ensure_path(p, text="c", draft="provisional", alt="y")
d.change_draft(d.find(p), "suspect")
assert d.find(p).text == "b"
''')

S("gt-unprotected", "L01", "text that contains ]]>",
  "a > is no longer escaped in text, so text with ]]> in it makes the saved file not well formed",
  [(F, "    '<': '&lt;',\n    '>': '&gt;' }", "    '<': '&lt;' }")],
  '''
from lxml import etree
d = load('<ldml><characters><exemplarCharacters>[a ]]&gt;</exemplarCharacters></characters></ldml>')
etree.fromstring(save(d).encode("utf-8"))
''')

X = "lib/sldr/py3xmlparser.py"
S("parser-text-pieces", "L10", "text which the parser delivers in more than one piece",
  "only the last piece of text before a tag is kept when the element is first read in pieces",
  [(X, "        self._data.append(data)\n", "        self._data = [data] if not self._tail and self._data and len(data) < 3 else self._data + [data]\n")],
  '''
import io
class P(io.BytesIO):
    def read(self, n=-1):
        return super().read(7)
x = '<ldml><identity><language type="en"/></identity><localeDisplayNames><languages><language type="aa">Afarian and more</language></languages></localeDisplayNames></ldml>'
for i in range(7):
    d = Ldml(P((" " * 0 + "<!--" + "x" * i + "-->" + x).encode("utf-8")))
    t = d.root.find('.//languages/language').text
    assert t == "Afarian and more", t
''')

S("load-comment-empty-group", "L10", "a comment as the last thing in a group whose next entry is the end of an outer group which has entries",
  "a comment which closes a group is forgotten if the last entry of the group had a comment of its own",
  [("lib/sldr/ldml.py", "                    elem[-1].commentsafter = comments\n", "                    elem[-1].commentsafter = comments if not hasattr(elem[-1], 'comments') else []\n")],
  '''
d = load('<ldml><identity><!-- one --><language type="en"/><!-- two --></identity><!-- three --></ldml>')
out = save(d)
assert all(x in out for x in ("one", "two", "three")), out
''')

AL = '''
M = "<months>%s</months>"
def cals(*c):
    return load('<ldml><identity><language type="en"/></identity><dates><calendars>%s</calendars></dates></ldml>' % "".join(
        '<calendar type="%s">%s</calendar>' % x for x in c))
def ctx(t, body):
    return '<monthContext type="%s">%s</monthContext>' % (t, body)
def wid(t, body):
    return '<monthWidth type="%s">%s</monthWidth>' % (t, body)
def al(p):
    return '<alias source="locale" path="%s"/>' % p
ONE = '<month type="1">Jan</month>'
'''
S("alias-deep-target", "L08", "an alias to a later group which holds no alias directly but one several levels further in",
  "a target which is not itself an alias is copied before what is inside it is resolved",
  [(F, "                self.resolve_aliases(children[0], _cache)\n", "                if children[0].find('alias') is not None or children[0].find('*/alias') is not None:\n                    self.resolve_aliases(children[0], _cache)\n")],
  AL + '''
d = cals(("buddhist", M % al("../../calendar[@type='gregorian']/months")),
         ("gregorian", M % ctx("format", wid("narrow", al("../monthWidth[@type='wide']")) + wid("wide", ONE))))
d.resolve_aliases()
assert "alias" not in save(d), save(d)
assert save(d).count("Jan") == 4, save(d)
''')

S("alias-missing-kept", "L08", "an alias whose target is not in the document, in a group with other entries",
  "an alias without a target stays in the document when its group has other entries",
  [(F, "                this.remove(c)\n                children = this.findall(v)\n                if children is None or not len(children): continue\n",
    "                children = this.findall(v)\n                if not len(children) and len(this) > 1: continue\n                this.remove(c)\n                if not len(children): continue\n")],
  AL + '''
d = cals(("buddhist", M % (al("../../calendar[@type='gregorian']/months") + ctx("format", wid("wide", ONE)))))
d.resolve_aliases()
assert "alias" not in save(d), save(d)
''')

S("alias-before-inherit", "L08", "a locale with an alias to something only its parent locale holds, flattened with aliases resolved",
  "aliases are resolved as soon as the first ancestor has been merged in, so one to what a farther ancestor holds is dropped",
  [("lib/sldr/ldml_merge.py", "                            l.overlay(o)\n", "                            l.overlay(o)\n                            if resolveAlias and f != 'root' and len(fallbacks) > 1: l.resolve_aliases()\n")],
  AL + '''
import os, tempfile
from sldr.ldml_merge import flattenlocale
def ident(l, t=""):
    return '<identity><language type="%s"/>%s</identity>' % (l, '<territory type="%s"/>' % t if t else "")
with tempfile.TemporaryDirectory() as t:
    for n, i, b in (("root", ident("root"), '<calendar type="gregorian">' + M % ctx("format", wid("wide", ONE)) + '</calendar>'),
                    ("fr", ident("fr"), '<calendar type="generic">' + M % ctx("format", wid("wide", ONE)) + '</calendar>'),
                    ("fr_CA", ident("fr", "CA"), '<calendar type="buddhist">' + M % al("../../calendar[@type='gregorian']/months") + '</calendar>')):
        with open(os.path.join(t, n + ".xml"), "w") as f:
            f.write('<ldml>%s<dates><calendars>%s</calendars></dates></ldml>' % (i, b))
    out = save(flattenlocale("fr_CA", dirs=[t], rev="f", resolveAlias=True))
assert out.count("Jan") == 3, out
''')

S("xpath-one-key", "L05", "an element identified by two attributes, with a sibling which shares the first of them",
  "the path of an element is given with the first of its identifying attributes only",
  [(F, '''res += n.tag + "".join('[@{}="{}"]'.format(*x) for x in tests)''', '''res += n.tag + "".join('[@{}="{}"]'.format(*x) for x in (tests if n.tag == "language" and p.tag != "languages" else tests[:1]))''')],
  '''
d = load('<ldml><identity><language type="en"/></identity><localeDisplayNames><languages><language type="az" alt="a">1</language>'
         '<language type="az">2</language><language type="az" alt="b">3</language></languages></localeDisplayNames></ldml>', usedrafts=False)
for e in d.root.iter():
    if e.tag == "language" and e.text:
        f = d.findall(d.as_xpath(e))
        assert e in f and (e.get("alt") is None or len(f) == 1), (d.as_xpath(e), len(f))
''')

S("alt-content-stays", "L02", "an alternate which has elements in it, saved twice", "alternates with content stay in the document after it is saved, so they are written twice the next time",
  [(F, "                if hasattr(c, 'tempnode') and c.tempnode:\n", "                if hasattr(c, 'tempnode') and c.tempnode and (c.text or not len(c)):\n")],
  '''
d = load('<ldml><identity><language type="en"/></identity><dates><calendars><calendar type="gregorian"><eras><eraAbbr><era type="0">a</era></eraAbbr></eras></calendar>'
         '<calendar type="gregorian" alt="x"><eras><eraAbbr><era type="0">b</era></eraAbbr></eras></calendar></calendars></dates></ldml>')
a = save(d)
assert save(d) == a
''')

S("alt-write-order", "L02", "an entry with three proposals which were not in alphabetical order in the file", "proposals are written as they came, not by name",
  [(F, "for a in sorted(c.alternates.keys()):", "for a in c.alternates.keys():")],
  '''
def doc(*alts):
    return load('<ldml><identity><language type="en"/></identity><localeDisplayNames><languages>%s</languages></localeDisplayNames></ldml>' % "".join(
        '<language type="az"%s>%s</language>' % (' alt="%s" draft="%s"' % (a, dr) if a else "", a) for a, dr in alts))
x = [("", ""), ("b", "suspect"), ("a", "tentative"), ("c", "unconfirmed")]
d = doc(*x)
e = d.find("localeDisplayNames/languages/language")
d.change_draft(e, "suspect")
a = save(d)
assert save(load(a)) == a, (a, save(load(a)))
''')


FIND = """
import os, tempfile
from sldr.ldml import getldml, iterate_files
top = tempfile.mkdtemp()
def put(p):
    p = os.path.join(top, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write("<ldml><identity><language type='%s'/></identity></ldml>" % os.path.relpath(p, top))
def found(d):
    return d and d.find("identity/language").get("type")
"""

S("find-dir-by-dir", "L11", "a locale directly in a later directory and in the letter directory of an earlier one",
  "locales are looked for directory by directory, so a file in a letter directory hides one which stands directly in a later directory",
  [(F, """    for p in (".", loc[0].lower()):
        for i in indirs:
            filep""", """    for i in indirs:
        for p in (".", loc[0].lower()):
            filep""")], FIND + """
put("a/f/fr.xml"); put("b/fr.xml")
assert found(getldml("fr", [top + "/a", top + "/b"])) == "b/fr.xml"
""")

S("find-letter-case", "L11", "a locale whose name starts with a capital, in a letter directory",
  "the letter directory is looked for as the tag is written",
  [(F, 'for p in (".", loc[0].lower()):', 'for p in (".", loc[0]):')], FIND + """
put("a/f/Fr.xml")
assert found(getldml("Fr", [top + "/a"])) == "a/f/Fr.xml"
""")

S("find-one-hyphen", "L11", "a tag with more than one hyphen",
  "only the first hyphen of a tag is taken for an underscore",
  [(F, 'loc.replace("-", "_")+".xml"', 'loc.replace("-", "_", 1)+".xml"')], FIND + """
put("a/s/sr_Latn_RS.xml")
assert found(getldml("sr-Latn-RS", [top + "/a"])) == "a/s/sr_Latn_RS.xml"
""")

S("iterate-case", "L11", "a file whose extension is in capitals",
  "files are listed whatever the case of their extension",
  [(F, "for f in w[2] if f.endswith(ext)]", "for f in w[2] if f.lower().endswith(ext)]")], FIND + """
put("a/s/sr.xml"); put("a/s/fr.XML")
assert [os.path.basename(x) for x in iterate_files(top)] == ["sr.xml"]
""")

S("proposer-any-status", "L06", "asking for the proposal of one proposer with one status, when it has another",
  "asked for the proposal by a proposer with a status, the proposal is returned whatever its status",
  [(F, "                        elif matchdraft == 'alt' or r.get('draft', '') == draft:", "                        elif matchdraft != 'draft' or r.get('draft', '') == draft:")], """
d = load('<ldml><identity><special xmlns:sil="urn://www.sil.org/ldml/0.1"><sil:identity draft="approved"/></special></identity></ldml>')
p = "delimiters/quotationStart"
d.ensure_path(p, text="a", draft="contributed")
d.ensure_path(p, text="b", draft="suspect", alt="x")
assert [e.text for e in d.ensure_path(p, alt="x", draft="suspect", matchdraft="both", dontadd=True)] == ["b"]
assert not d.ensure_path(p, alt="x", draft="generated", matchdraft="both", dontadd=True)
""")

S("order-unknown-tag", "L02", "several elements that the DTD does not know beside each other",
  "elements of different unknown names keep the order in which they were read",
  [(F, "res = [self.elementOrder.get(base.tag, {}).get(x.tag, self.maxEls), x.tag]", "res = [self.elementOrder.get(base.tag, {}).get(x.tag, self.maxEls)]")], """
import io
def out(k):
    d = Ldml(io.BytesIO(('<ldml xmlns:sil="urn://www.sil.org/ldml/0.1"><special>' + k + "</special></ldml>").encode()))
    d.normalise()
    r = []
    d.serialize_xml(r.append)
    return "".join(r)
assert out("<sil:zz>1</sil:zz><sil:ya>2</sil:ya>") == out("<sil:ya>2</sil:ya><sil:zz>1</sil:zz>")
""")

S("alias-list-order", "L08", "an alias which stands for a list of three or more whose order is data, such as the imports of a collation",
  "all but the first of what an alias stands for are put in the opposite order",
  [(F, "this.insert(i+count, res)", "this.insert(i + 1, res)")],
  """
d = load("<ldml><identity><language type='en'/></identity><collations><collation type='a'><alias source='locale' path=\\"../collation[@type='b']\\"/></collation>"
         "<collation type='b'><import source='x1'/><import source='x2'/><import source='x3'/></collation></collations></ldml>")
d.resolve_aliases()
s = save(d)
assert s.count("x2") == 2 and s.index("x1") < s.index("x2") < s.index("x3"), s
""")

S("value-order-single-capital", "L03", "elements told apart by one-letter values of which some are capitals",
  "one-letter attribute values are ordered with the capitals first",
  [(F, "                        res += (k, a.lower())", "                        res += (k, a.lower() if len(a) > 1 else a)")],
  """
d = save(load("<ldml><localeDisplayNames><variants><variant type='b'>x</variant><variant type='C'>y</variant><variant type='A'>z</variant></variants></localeDisplayNames></ldml>"))
assert d.index("type=\\"A\\"") < d.index("type=\\"b\\"") < d.index("type=\\"C\\""), d
""")

S("namespaces-shared-default", "L07", "a document made without a file after one with namespaces of its own",
  "documents made from nothing share one table of namespaces with those before",
  [(F, "        self.namespaces = {'http://www.w3.org/XML/1998/namespace': 'xml'}\n        self.namespaces[self.silns] = 'sil'\n",
       "        if fname is not None or not hasattr(self.__class__, '_fresh'):\n            self.namespaces = {'http://www.w3.org/XML/1998/namespace': 'xml'}\n            if fname is None: self.__class__._fresh = self.namespaces\n"
       "        else:\n            self.namespaces = self._fresh\n        self.namespaces[self.silns] = 'sil'\n")],
  """
a = Ldml(None)
a.add_namespace("q", "urn:x:y")
b = Ldml(None)
assert "urn:x:y" not in b.namespaces, b.namespaces
""")
