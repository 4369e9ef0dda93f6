SEEDS = []
PRE = '''
import icu
from sldr.collation import *
def level(col, a, b):
    for n, st in ((1, icu.Collator.PRIMARY), (2, icu.Collator.SECONDARY), (3, icu.Collator.TERTIARY)):
        col.setStrength(st)
        if col.compare(a, b):
            return col.compare(a, b) * n
    return 0
'''
C = "lib/sldr/collation.py"


def S(name, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(name=name, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


S("coll-escape-astral-mark", "C01", "a supplementary combining mark escaped with allchars",
  "a supplementary mark is escaped as its last four digits",
  [(C, "elif allchars and i > 0xFFFF:", "elif allchars and i > 0x1FFFF:")],
  '''
s = "a\\U00011080\\U00011081\\U000110B0"
s = "\\U000110B0\\U00011080"
assert unescape(escape(s, True)) == s, escape(s, True)
''')

S("coll-equal-chain-kept", "C01", "a tailoring with two resets followed by equals, then a third reset to the base of the first",
  "the base of a run of equal elements is not forgotten at the next reset",
  [(C, '''escape(v.base)
                eqchain = None
''', '''escape(v.base)
''')],
  '''
c = Collation()
c.parse("&a = x\\n&c = y\\n&a < z")
out = c.asICU(ordering=lambda x: x[1].order)
assert level(icu.RuleBasedCollator(out), "z", "c") == -1, out
''')

S("simple-third-variant", "C02", "a sequence with its capital and a third variant which is not a case form, on one line",
  "a line is taken for the case forms of a sequence if its second item is one",
  [(C, "all((c.lower() == s.lower() for c in slashItems[1:]))", "all((c.lower() == s.lower() for c in slashItems[1:2]))")],
  '''
c = Collation()
c.convertSimple(["a/A", "ng/NG/\\u014b", "z/Z"])
out = c.asICU()
r = icu.RuleBasedCollator(out)
assert level(r, "NG", "\\u014b") == -3, out
''')

S("simple-out-third-level", "C02", "a simple list written for an alphabet with a second level variant of six letters",
  "only the first five further forms of a second level variant are written to a simple list",
  [(C, """                    if len(tree[k][a]):
                        s.append("/"+"/".join(tree[k][a]))""", """                    if len(tree[k][a]):
                        s.append("/"+"/".join(tree[k][a][:5]))""")],
  '''
c = Collation()
c.convertSimple(["a/A", "m/M ngbxyz/Ngbxyz", "z/Z"])
assert "NGBXYZ" in c.asSimple(), c.asSimple()
''')

S("ducet-long-contraction", "C04", "a contraction of three characters which is not at the start of the string",
  "after the first match only contractions of two characters are looked for",
  [(C, "        k = k[i:]\n        i = len(k)\n    if singlechar", "        k = k[i:]\n        i = min(len(k), 2)\n    if singlechar")],
  '''
c = Collation()
k = "\\u0fb2\\u0f71\\u0f80"
assert list(c.getSortKey("a" + k)) == list(c.getSortKey("a") + c.getSortKey(k)), c.getSortKey("a" + k)
''')

S("ducet-long-expansion", "C04", "a character whose entry has more than eight elements",
  "only the first eight elements of an entry are kept",
  [(C, "result[key] = tuple(tuple(int(x, 16) for x in v) for v in vals)", "result[key] = tuple(tuple(int(x, 16) for x in v) for v in vals[:8])")],
  '''
c = Collation()
assert len(c.getSortKey("\\ufdfa")[0]) > 12, c.getSortKey("\\ufdfa")
''')

S("ducet-ge-level", "C04", "keys which differ at the second level only",
  "less-or-equal only looks at whether the first level differs",
  [(C, "        return self.cmp(other) <= 0\n", "        return self.cmp(other) in (0, -1)\n")],
  '''
c = Collation()
assert c.getSortKey("a") <= c.getSortKey("\\u00e1")
''')

S("minimise-long", "C03", "an alphabet of more than 150 elements",
  "only the first 150 elements are compared with the default order",
  [(C, "SequenceMatcher(a=dlist, b=klist).get_opcodes()", "SequenceMatcher(a=dlist, b=klist[:150]).get_opcodes()")],
  '''
l = list("abcdefghijklmnopqrstuvwxyz") + [chr(c) for c in range(0x3b1, 0x3c2)] + [chr(c) for c in range(0x430, 0x439)] + [chr(c) for c in range(0x43a, 0x450)]
l += ["\\u0565", "\\u0562", "\\u0561"]
c = Collation()
c.convertSimple([x + "/" + x.upper() for x in l])
c.minimise()
r = icu.RuleBasedCollator(c.asICU())
assert level(r, "\\u0562", "\\u0561") == -1, c.asICU()
''')

