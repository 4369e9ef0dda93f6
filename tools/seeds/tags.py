SEEDS = []
PRE = '''
import os, sys, tempfile, shutil, atexit
sys.path.insert(0, "lib")
from sldr.langtags_full import LangTag, LangTags
from sldr.iana import Iana
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)
def put(s):
    p = os.path.join(D, "t")
    with open(p, "w", encoding="utf-8") as f:
        f.write(s)
    return p
def table(*lines):
    return LangTags(alltags=put("".join(l + "\\n" for l in lines)))
'''
T = "lib/sldr/langtags_full.py"
I = "lib/sldr/iana.py"


def S(name, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(name=name, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


S("tag-region-digits", "T01", "an extended language with something after it", "an extended language is taken for a region unless it ends the tag",
  [(T, 'elif len(bits[curr]) == 3 and bits[curr][0] not in "0123456789":', 'elif len(bits[curr]) == 3 and curr + 1 == len(bits) and not (bits[curr][0] in "0123456789" and self.lang):')],
  '''
t = LangTag("zh-yue-HK")
assert (t.lang, t.region) == ("zh-yue", "HK"), (t.lang, t.region)
''')
S("tag-len-extension", "T01", "a tag with two extensions", "the singletons after the first are not counted in the length",
  [(T, "sum(1+len(v) for v in self.extensions.values())", "1+sum(len(v) for v in self.extensions.values())")],
  '''
assert len(LangTag("en-a-abc-x-foo")) == 5
''')
S("tag-hide-both", "T01", "a tag whose script and region are implied but whose bare language means something else", "such a tag is printed as its bare language",
  [(T, "if not self.hideregion or (not self.hideboth and self.hidescript): subtags.append(self.region)", "if not self.hideregion or (not self.hideboth and not self.hidescript): subtags.append(self.region)")],
  '''
t = LangTag("zh-Hans-CN")
t.hidescript = t.hideregion = True
t.hideboth = False
assert str(t) in t.allforms(), str(t)
''')
S("table-undo-script", "T02", "analysing a tag with a script which the table implies for another region only, and which it does not know", "a failed merge leaves the script of the other tag behind",
  [(T, "            self.script = oldscript\n", "")],
  '''
L = table("aa = aa-Latn = aa-ET = aa-Latn-ET")
t = LangTag(lang="aa", region="DJ")
ok = t.merge_equivalent(LangTag("aa-Latn-ET"))
assert not ok and repr(t) == "aa-DJ", repr(t)
''')
S("table-bare-implied", "T02", "a line where script and region may each be left out, but not both", "the bare language is taken for equivalent there",
  [(T, "            self.hideboth = tag.hideboth\n        if tag.variants", "            self.hideboth = tag.hideboth or (self.hidescript and self.hideregion)\n        if tag.variants")],
  '''
L = table("aa = aa-Latn = aa-ET = aa-Latn-ET", "aa-DJ = aa-Arab = aa-Arab-DJ")
assert str(L["aa-Arab-DJ"]) in ("aa-DJ", "aa-Arab"), str(L["aa-Arab-DJ"])
''')
S("table-likely-full", "T02", "a language with likely subtags for a second script in a table built from the registry", "the region of a second script is taken to be implied by the bare language",
  [(T, "            to.hideboth = base.hideboth\n            to.isCldr", "            to.hideboth = to.hideboth or base.script is None or base.region is None\n            to.isCldr")],
  '''
L = LangTags(alltags=put(""))
L.readLikelySubtags(put("<s><likelySubtags><likelySubtag from='aa' to='aa_Latn_ET'/><likelySubtag from='aa_Arab' to='aa_Arab_DJ'/><likelySubtag from='aa_DJ' to='aa_Arab_DJ'/></likelySubtags></s>"))
assert repr(L["aa"]) == "aa-Latn-ET" and repr(L["aa-DJ"]) == "aa-Arab-DJ", repr(L["aa"])
assert "aa" not in L["aa-DJ"].allforms(), L["aa-DJ"].allforms()
''')
S("registry-third-value", "T03", "a field given three times in a record", "a third value of a field is nested in a list",
  [(I, "                    if not isinstance(currtag[f], list):\n                        currtag[f] = [currtag[f]]", "                    if len(currtag[f]) != 1 or not isinstance(currtag[f], list):\n                        currtag[f] = [currtag[f]]")],
  '''
r = Iana(put("File-Date: x\\n%%\\nType: language\\nSubtag: aa\\nDescription: a\\nDescription: b\\nDescription: c\\nAdded: 1\\n"))
assert r.language["aa"]["description"] == ["a", "b", "c"], r.language
''')
S("registry-shared-key", "T03", "the same subtag in two types of record", "records of types read before are reused for the same subtag",
  [(I, "                    currtag = {}\n                    if not hasattr(self, currtype):\n                        setattr(self, currtype, {})\n                    getattr(self, currtype)[v] = currtag",
       "                    if not hasattr(self, currtype):\n                        setattr(self, currtype, {})\n                    currtag = self.__dict__.setdefault('bysubtag', {}).setdefault(v, {})\n                    getattr(self, currtype)[v] = currtag")],
  '''
r = Iana(put("File-Date: x\\n%%\\nType: language\\nSubtag: arz\\nDescription: a\\n%%\\nType: extlang\\nSubtag: arz\\nDescription: b\\n"))
assert r.language["arz"] == {"description": "a"} and r.extlang["arz"] == {"description": "b"}, (r.language, r.extlang)
''')

S("analyse-fallback-lang", "T02", "a tag with a region and a variant or extension which the table does not have",
  "the region is forgotten when looking up the language of a tag with a variant",
  [(T, "test = self.__class__(lang = self.lang, region = self.region)", "test = self.__class__(lang = self.lang, region = self.region if self.extensions is None else None)")],
  '''
t = table("aaa = aaa-QM = aaa-Latn = aaa-Latn-QM", "aaa-RU = aaa-Cyrl = aaa-Cyrl-RU")
assert repr(LangTag("aaa-RU-1994").analyse(t)) == "aaa-Cyrl-RU-1994", repr(LangTag("aaa-RU-1994").analyse(t))
assert repr(LangTag("aaa-RU-u-co-phonebk").analyse(t)) == "aaa-Cyrl-RU-u-co-phonebk", repr(LangTag("aaa-RU-u-co-phonebk").analyse(t))
''')

S("extras-analysed-region", "T02", "an extra likely subtag from a language and a script",
  "an extra likely subtag from a tag with a script leaves its region in all short forms",
  [("lib/sldr/langtags_full.py", "                if base.region is None : to.hideregion = True\n                to.hideboth", "                if base.region is None and base.script is None : to.hideregion = True\n                to.hideboth")], """
from sldr.langtags_full import LangTags
import tempfile, os
d = tempfile.mkdtemp()
with open(os.path.join(d, "none"), "w"): pass
with open(os.path.join(d, "x"), "w") as f:
    f.write("confirmed\\tlangtag\\tlikely_subtag\\n\\tqaa-Latn\\tqaa-Latn-GB\\n")
L = LangTags(alltags=os.path.join(d, "none"))
L.readExtras(os.path.join(d, "x"))
assert "qaa-Latn" in L and L["qaa-Latn"] is L["qaa-Latn-GB"], list(L)
""")

S("tag-hidden-same-subtag", "T01", "a subtag which stands in two extensions and is implied in one of them",
  "a subtag implied in one extension is left out of the others as well",
  [(T, "                        if (k, v) not in r:", "                        if v not in {x[1] for x in r}:")], """
t = LangTag("en-a-same-b-same-other")
t.hideextensions = {"b": ["same"]}
assert sorted(t.allforms()) == ["en-a-same-b-other", "en-a-same-b-same-other"], t.allforms()
""")

S("tag-merge-longer-extension", "T02", "a tag with an extension merged with an equivalent one which says more in the same extension",
  "merging takes the longer of two extensions, so a tag loses what it said",
  [(T, "                if k not in self.extensions:\n", "                if len(v) > len(self.extensions.get(k, [])):\n")], """
a, b = LangTag("en-u-kn"), LangTag("en-Latn-u-co-phonebk")
assert a.merge_equivalent(b)
assert a.extensions == {"u": ["kn"]} and a.script == "Latn", repr(a)
""")
