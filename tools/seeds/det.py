SEEDS = []
PRE = '''
import os, subprocess, sys
HERE = os.path.join(os.getcwd(), "lib")
def runs(code, n=12):
    """ what the code prints under different hash seeds """
    res = []
    for i in range(n):
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(i), PYTHONPATH=HERE), capture_output=True, text=True)
        assert p.returncode == 0, p.stderr
        res.append(p.stdout)
    return res
'''


def S(name, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(name=name, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


S("listing-by-hash", "D01", "listing a table of tags in processes with different hash seeds", "the tags of a table are listed in the order of a set",
  [("lib/sldr/langtags_full.py", "for t in (x for x in sorted(alltags) if not x.skip):", "for t in (x for x in alltags if not x.skip):")],
  '''
r = runs("""
from sldr.langtags_full import LangTags
import tempfile, os
fd, f = tempfile.mkstemp()
os.write(fd, b"aa = aa-ET\\\\nbb = bb-RU\\\\ncc = cc-FR\\\\ndd = dd-IN\\\\nee = ee-GH\\\\n")
os.close(fd)
L = LangTags(alltags=f)
os.remove(f)
print(L.generate_alltags())
""")
assert len(set(r)) == 1, r[:2]
''')
S("alternates-by-hash", "D01", "three alternates of one element in a three way merge, in processes with different hash seeds", "merged alternates are written in the order of a set",
  [("lib/sldr/ldml.py", "for a in sorted(c.alternates.keys()):", "for a in c.alternates.keys():")],
  '''
r = runs("""
import io
from sldr.ldml_merge import LdmlMerge
def d(*alts):
    return LdmlMerge(io.StringIO('<ldml><identity><language type="en"/></identity><localeDisplayNames><languages><language type="fr">F</language>%s</languages></localeDisplayNames></ldml>'
        % "".join('<language type="fr" alt="%s">F%s</language>' % (a, a) for a in alts)), usedrafts=True)
t, o, b = d("proposed-a", "proposed-x"), d("proposed-a", "proposed-b", "proposed-c", "proposed-d"), d("proposed-a")
t.merge(o, b)
out = []
t.serialize_xml(out.append)
print("".join(out))
""")
assert len(set(r)) == 1, r[:2]
''')
S("ducet-remembers", "D01", "a collation made after another with sequences in the same process", "sequences of one alphabet are added to the table all collations share",
  [("lib/sldr/collation.py", "                            self[s].order = (0, len(self))\n", "                            self[s].order = (0, len(self))\n                            if len(s) > 1 and s.islower() and s not in self.ducet:\n                                self.ducet[s] = sum((self.ducet.get(c, ()) for c in s), ())\n")],
  '''
import sys
sys.path.insert(0, HERE)
from sldr.collation import Collation
def one(lines):
    c = Collation()
    c.convertSimple(lines)
    return c.asICU()
L = ["a", "c", "ch", "d", "b"]
def tail(s):
    c = Collation()
    return [list(c.itemise(s)), c.asSimple()]
before = tail("xchy")
one(L)
assert tail("xchy") == before, (before, tail("xchy"))
''')
