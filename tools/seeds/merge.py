SEEDS = []
PRE = '''
import io, os, sys, tempfile
from sldr.ldml_merge import LdmlMerge, flattenlocale
def load(s, **kw):
    return LdmlMerge(io.BytesIO(('<ldml xmlns:sil="urn://www.sil.org/ldml/0.1">' + s + '</ldml>').encode("utf-8")), **kw)
def save(d, **kw):
    r = []
    d.serialize_xml(r.append, **kw)
    return "".join(r)
def family(**files):
    t = tempfile.TemporaryDirectory()
    for k, v in files.items():
        with open(os.path.join(t.name, k + ".xml"), "w", encoding="utf-8") as f:
            f.write('<ldml xmlns:sil="urn://www.sil.org/ldml/0.1"><identity><language type="%s"/></identity>%s</ldml>' % (k.split("_")[0], v))
    return t
lang = lambda *a: "<localeDisplayNames><languages>" + "".join('<language type="%s"%s>%s</language>' % x for x in a) + "</languages></localeDisplayNames>"
'''
F = "lib/sldr/ldml_merge.py"


def S(name, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(name=name, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


S("merge-our-attr", "M03", "an item whose text they changed and to which we added an attribute",
  "attributes that only we added are removed when the other side changed the same element",
  [(F, "            elif base is not None and k in base.attrib:                        # o deleted it",
       "            elif base is not None:                        # o deleted it")],
  '''
b, t, o = load(lang(("a", "", "b")), usedrafts=False), load(lang(("a", ' validNote="x"', "b")), usedrafts=False), load(lang(("a", "", "o")), usedrafts=False)
t.merge(o, b)
s = save(t)
assert 'validNote="x"' in s and ">o<" in s, s
''')

S("merge-winner-this", "M03", "winner set to this, and an item that we edited and they removed",
  "naming any winner makes removals win over our edits, not only when the other side is the winner",
  [(F, '(t.mergeBase.contentHash == t.contentHash or self.winner == "other")', '(t.mergeBase.contentHash == t.contentHash or self.winner)')],
  '''
b, t, o = load(lang(("a", "", "b"), ("c", "", "c"))), load(lang(("a", "", "t"), ("c", "", "c"))), load(lang(("c", "", "c")))
t.winner = "this"
t.merge(o, b)
assert ">t<" in save(t), save(t)
''')

S("merge-delete-stale-base", "M03", "they removed an attribute of an item whose text we changed",
  "an attribute that the other side removed comes back as soon as the element was also changed by us",
  [(F, "                this.attrib.pop(k)\n                res = True\n", "                res = True\n")],
  '''
k = ' validNote="x"'
b, t, o = load(lang(("a", k, "b")), usedrafts=False), load(lang(("a", k, "t")), usedrafts=False), load(lang(("a", "", "b")), usedrafts=False)
t.merge(o, b)
s = save(t)
assert 'validNote' not in s and ">t<" in s, s
''')

S("flatten-script-unstated", "M01", "a locale that does not state its script whose parent states one",
  "a locale without a stated script inherits from parents in any script",
  [(F, "                    if os is None or os == ls:", "                    if os is None or ls is None or os == ls:")],
  '''
sc = '<special><sil:identity script="%s"/></special>'
with family(aa='', aa_ET=lang(("x", "", "own"))) as d:
    with open(d + "/aa.xml", "w") as f:
        f.write('<ldml xmlns:sil="urn://www.sil.org/ldml/0.1"><identity><language type="aa"/><special><sil:identity script="Ethi"/></special></identity>%s</ldml>' % lang(("y", "", "parent")))
    l = flattenlocale("aa_ET", dirs=[d], rev="f")
    assert "parent" not in save(l)
''')

S("flatten-two-fallbacks-root", "M01", "a fallback element naming two locales, and data only root has",
  "root is only appended to single element fallback chains",
  [(F, "        if 'root' not in fallbacks and lname != 'root':", "        if 'root' not in fallbacks and len(fallbacks) < 2 and lname != 'root':")],
  '''
with family(root=lang(("y", "", "rootval")), aa=lang(("a", "", "1")), bb=lang(("b", "", "2")), cc=lang(("c", "", "3")) + "<fallback>aa bb</fallback>") as d:
    s = save(flattenlocale("cc", dirs=[d], rev="f"))
    assert "rootval" in s and ">1<" in s and ">2<" in s, s
''')

S("unflatten-alt-by-name", "M02", "an item with the same value as the parent and a proposal of the same name but another value",
  "a proposal is dropped when the parent has one of that name, whatever its value",
  [(F, "                            if k in t.alternates and v.contentHash == t.alternates[k].contentHash:", "                            if k in t.alternates:")],
  '''
p = lambda v: lang(("a", "", "same"), ("a", ' alt="p1" draft="suspect"', v))
with family(aa=p("one"), aa_ET=p("two")) as d:
    s = save(flattenlocale("aa_ET", dirs=[d], rev="r"))
    assert "two" in s, s
''')

S("merge-tie-proposal", "M04", "a proposal that we reworded without changing its status and they did not touch or no longer have",
  "a reworded proposal of equal status is replaced by the old wording when the other side has dropped it",
  [(F, "                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(balt[k]):",
       "                if k not in target.alternates or self.get_draft(target.alternates[k], default) >= self.get_draft(balt[k]):")],
  '''
a = lambda v, p: lang(("a", "", v)) if p is None else lang(("a", "", v), ("a", ' alt="p1" draft="suspect"', p))
b, t, o = load(a("x", "old")), load(a("x", "new")), load(a("y", None))
t.merge(o, b, default="proposed")
s = save(t)
assert "new" in s and "old" not in s, s
''')

S("merge-alt-keys-ours", "M04", "both sides have proposals on an item, and theirs includes a proposer we do not have",
  "only proposers known to base or ours are considered, so their new proposals are lost if we have any",
  [(F, "for x in (base, target, other)), []))", "for x in (base, target)), []))")],
  '''
a = lambda *p: lang(("a", "", "x"), *[("a", ' alt="%s" draft="suspect"' % k, v) for k, v in p])
b, t, o = load(a()), load(a(("p1", "one"))), load(a(("p2", "two")))
t.merge(o, b, default="proposed")
s = save(t)
assert "one" in s and "two" in s, s
''')

S("find-flat-first", "L11", "for merging, a locale in the letter directory of the first directory and directly in a later one",
  "a file standing directly in a later directory is taken before the one in the letter directory of the first",
  [(F, """            return LdmlMerge(f, **kw)
        f = os.path.join(d, lname[0].lower(), lname + '.xml')""", """            return LdmlMerge(f, **kw)
    for d in dirs:
        f = os.path.join(d, lname[0].lower(), lname + '.xml')""")],
  '''
from sldr.ldml_merge import getldml
t = tempfile.mkdtemp()
for p in ("a/f/fr.xml", "b/fr.xml"):
    os.makedirs(os.path.dirname(os.path.join(t, p)))
    with open(os.path.join(t, p), "w") as f:
        f.write('<ldml><identity><language type="%s"/></identity></ldml>' % p)
assert getldml("fr", [t + "/a", t + "/b"]).find("identity/language").get("type") == "a/f/fr.xml"
''')

S("diff-alt-text", "M02", "a proposal equal in text to the parent's but with another attribute from outside the DTD",
  "proposals are dropped when their text alone is that of the parent's",
  [(F, "if k in t.alternates and v.contentHash == t.alternates[k].contentHash:", "if k in t.alternates and v.text == t.alternates[k].text:")],
  '''
a = lambda n: load(lang(("a", "", "x"), ("a", ' alt="p1" draft="suspect" sil:note="%s"' % n, "y")))
t = a("mine")
t.difference(a("theirs"))
assert 'sil:note="mine"' in save(t), save(t)
t = a("mine")
t.difference(a("mine"))
assert "mine" not in save(t)
''')

S("overlay-empty-holder", "M01", "a section that the locale has but left empty",
  "an empty section of the locale hides all that its parents say there",
  [(F, "            if o.contentHash != t.contentHash:\n                self.overlay(o, usedrafts=usedrafts, this=t)",
       "            if len(t) and o.contentHash != t.contentHash:\n                self.overlay(o, usedrafts=usedrafts, this=t)")],
  '''
d = family(root="", aa=lang(("a", "", "x")), aa_Latn="<localeDisplayNames><languages/></localeDisplayNames>")
s = save(flattenlocale("aa_Latn", dirs=[d.name], rev="f"))
assert ">x<" in s, s
''')

S("hash-line-order", "M03", "an edit that only puts the lines of a value in another order",
  "texts with the same lines in another order are taken as equal",
  [("lib/sldr/ldml.py", 'if base.text: base.contentHash.update(*(base.text.split("\\n")))', 'if base.text: base.contentHash.update(*sorted(base.text.split("\\n")))')],
  '''
b, t, o = [load(lang(("a", "", x))) for x in ("one\\ntwo", "one\\ntwo", "two\\none")]
t.merge(o, b)
v = t.find("localeDisplayNames/languages/language").text
assert v.split() == ["two", "one"], v
''')

S("hash-words", "M02", "a value differing from the parent's by its spaces only",
  "texts differing by spaces only are taken as equal",
  [("lib/sldr/ldml.py", 'if base.text: base.contentHash.update(*(base.text.split("\\n")))', 'if base.text: base.contentHash.update(*(base.text.split()))')],
  '''
a = load(lang(("a", "", "x\\u00a0y")))
a.difference(load(lang(("a", "", "x y"))))
assert "x\\u00a0y" in save(a), save(a)
''')
