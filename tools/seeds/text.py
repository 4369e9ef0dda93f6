SEEDS = []
PRE = '''
from sldr import UnicodeSets as us
from sldr.ldml_exemplars import UCD, Exemplars
def ex(words, many=5, frequent=1, **listed):
    e = Exemplars()
    e.many_bases, e.frequent = many, frequent
    for k, v in listed.items():
        setattr(e, k, v)
    for w in words:
        e.process(w)
    e.analyze()
    return e
'''
U = "lib/sldr/UnicodeSets.py"
X = "lib/sldr/ldml_exemplars.py"


def S(name, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(name=name, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


S("us-isolated-spacing-mark", "U01", "an isolated mark whose combining class is 0, such as an Indic vowel sign",
  "marks without a base are only escaped if they have a combining class",
  [(X, "        if self.ismark(char) and is_isolated:\n", "        if is_isolated and Char.getCombiningClass(char) != 0:\n")],
  r'''
t = us.list2us(["\u093e", "a"], UCD())
assert t == "[\\u093e a]", ascii(t)
''')

S("us-range-in-bmp", "U02", "a range whose last character is an escaped hyphen-like singleton after a nested set",
  "a range whose two ends are the same character is empty",
  [(U, "for x in range(ord(lastitem.pop()), ord(item.pop())+1):", "for x in range(ord(lastitem.pop()), ord(item.pop())+1) if lastitem != item else ():")],
  '''
assert set(us.us2list("[a-ax]")) == {"a", "x"}, us.us2list("[a-ax]")
''')

S("us-normal-string", "U02", "a requested normal form and a set with a multi-character string",
  "a sequence with such a string is not normalised",
  [(U, "    if normal is not None:\n", "    if normal is not None and all(len(c) == 1 for x in res for c in x):\n")],
  r'''
assert us.parse("[{a\\u0301}]", normal="NFC")[0] == {"\u00e1"}
''')

S("us-outer-complement", "U02", "a complement whose first member is a set", "a complement of a set of sets is the set itself",
  [(U, "            item = nextitem\n", "            negative = negative and not (nextitem.isclass and item is None and not res)\n            item = nextitem\n")],
  r'''
x = us.parse("[^[ab]c]")[0]
assert x.negative and x == {"a", "b", "c"}, (x, x.negative)
''')

S("ex-script-per-piece", "E02", "a text of two scripts divided into pieces in different ways",
  "scripts are counted once per piece of text",
  [(X, "        for char in text:\n            script = Script.getScript(char)", "        for char in set(text):\n            script = Script.getScript(char)")],
  '''
a = ex(["aaa", "\\u0431\\u0432"]).main
b = ex(["a", "a", "a", "\\u0431\\u0432"]).main
assert a == b, (a, b)
''')

S("ex-short-nfd", "E02", "text handed over one precomposed character at a time",
  "a single character is not decomposed",
  [(X, "        text = self.ucd.normalize('NFD', text)\n", "        text = self.ucd.normalize('NFD', text) if len(text) > 1 else text\n")],
  '''
p = "\\u00e1\\u00e9\\u00ed\\u00f3\\u00fa\\u1e81\\u00fd"
assert ex([p]).main == ex(list(p)).main, (ex([p]).main, ex(list(p)).main)
''')

S("ex-double-diacritic", "E03", "a double diacritic (U+0360 to U+036F)",
  "combining double diacritics are always separated from their base, like matras",
  [(X, "return 0x0300 <= ord(char) <= 0x036F", "return 0x0300 <= ord(char) <= 0x035F")],
  r'''
e = ex(["n\u0360g"])
assert us.us2list(e.main) == {"n\u0360", "g"}, e.main
''')

S("ex-multigraph-length", "E03", "a listed exemplar that is longer when decomposed than as written",
  "the longest listed exemplar is measured before it is decomposed, so longer ones are not looked for",
  [(X, """            exemplar = self.ucd.normalize('NFD', exemplar)
            self.max_multigraph_length = max(self.max_multigraph_length, len(exemplar))
""", """            self.max_multigraph_length = max(self.max_multigraph_length, len(exemplar))
            exemplar = self.ucd.normalize('NFD', exemplar)
""")],
  r'''
e = ex(["xa\u0301b", "b"], main="[{\\u00e1b}]")
assert us.us2list(e.main) == {"x", "\u00e1b", "b"}, e.main
''')

S("ex-number-mark", "E01", "a number that carries a mark",
  "numbers with marks are moved to the digits without their marks",
  [(X, "if self.ucd.isnumber(exemplar.base) and len(exemplar.trailers) == 0:", "if self.ucd.isnumber(exemplar.base) and not exemplar.trailers.strip('\\u0331'):")],
  r'''
e = ex(["a1\u0331", "a", "1"])
assert "\u0331" in "".join(us.us2list(e.main)), (e.main, e.digits)
''')

S("uset-or-not", "U02", "the union, written with |, of a set and of everything but some characters",
  "the union of a set with everything but another leaves out what both hold",
  [("lib/sldr/UnicodeSets.py", "                elif item.negative:\n                    negative = True\n                    res = item - lastitem\n",
    "                elif item.negative:\n                    negative = True\n                    res = item | lastitem\n")], """
from sldr import UnicodeSets as us
s = us.parse("[[ab]|[^ac]]")[0]
assert [c for c in "abcd" if (c in s) != s.negative] == ["a", "b", "d"], (s, s.negative)
""")

S("struni-tenth", "U02", "a string with a reference to the tenth or a later string",
  "only the first digit of a reference counts",
  [("lib/sldr/UnicodeSets.py", "groups[int(t[1:]) - 1]", "groups[int(t[1]) - 1]")], """
from sldr import UnicodeSets as us
assert us.struni("<\\\\12>", list("abcdefghijkl")) == "<l>", us.struni("<\\\\12>", list("abcdefghijkl"))
""")

S("ex-case-of-cluster", "E04", "a letter which occurs in capitals with one mark and in small letters with another",
  "the case of a letter is recorded for the letter without its marks",
  [(X, "            elif Char.isULowercase(pre_casing) and base+trailers not in self.lowercase_chars:\n                self.lowercase_chars.append(base+trailers)",
       "            elif Char.isULowercase(pre_casing) and base+trailers not in self.lowercase_chars:\n                self.lowercase_chars.extend(x for x in (base, base+trailers) if x not in self.lowercase_chars)")],
  r'''
e = ex(["A\u0301a\u0301 e\u0300 E"])
assert e.non_casing_chars.get("e") == "only_upper", ascii(e.non_casing_chars)
''')

S("ex-candidates-clip", "E04", "candidates asked for and a candidate which is followed by a listed multigraph",
  "candidates for multigraphs are not counted where a listed multigraph starts",
  [(X, "                    self.all_potential_multigraphs[exemplar] += 1", "                    self.all_potential_multigraphs[exemplar] += int(multigraph_length == 1 or i == start or not self.is_listed(multigraph))")],
  r'''
e = Exemplars()
e.main = "[a b {ch}]"
e.process("chachb", True)
n = {k.text: v for k, v in e.all_potential_multigraphs.items()}
assert n.get("ch") == 2 and n.get("cha") == 1, n
''')

S("ex-normalize-digits", "E04", "decomposable digits or punctuation among the exemplars, and a normal form",
  "normalising a set adds the normal forms to what it held",
  [(X, '            setattr(self, "_"+a, s)', '            setattr(self, "_"+a, s if a in ("main", "auxiliary", "index") else s | getattr(self, "_"+a))')],
  r'''
e = Exemplars()
e.punctuation = "[\u2260 !]"
e.normalize("NFC")
assert e._punctuation == {"\u2260", "!"}, e._punctuation
''')

S("us-format-astral", "U01", "a format character of a supplementary plane which is not ignorable, such as the Kaithi number sign",
  "format characters beyond the first plane are written as they are",
  [(X, "        if self.isformat(char):\n            return True\n", "        if self.isformat(char) and ord(char) < 0x10000:\n            return True\n")],
  r'''
t = us.list2us(["\U000110bd", "a"], UCD())
assert "\U000110bd" not in t, ascii(t)
''')

S("ex-index-first-letter", "E01", "a letter of main whose capital is longer, such as German sharp s or a ligature",
  "index exemplars are made capitals character by character",
  [(X, "            uppercase = self.ucd.toupper(exemplar)\n", "            uppercase = ''.join(Char.toupper(c) for c in exemplar)\n")],
  '''
e = ex(["fu\\u00dfe"])
assert "SS" in e._index and "\\u00df" not in e._index, e._index
''')
