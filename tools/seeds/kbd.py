SEEDS = []
PRE = '''
import os, sys, tempfile, shutil, atexit, subprocess
sys.path.insert(0, "lib")
from sldr.ldml_keyboard import Keyboard
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)
def put(s, name="k.xml"):
    p = os.path.join(D, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8") as f:
        f.write(s)
    return p
def kbd(s, keys="abcdefgh"):
    return Keyboard(put('<keyboard><keyMap>' + "".join('<map iso="%s" to="%s"/>' % (c, c) for c in keys) + '</keyMap>' + s + '</keyboard>'))
def typ(k, s):
    """ one key for each character, backspace for < """
    return [str(x) for x in k.process_string("".join("[%s]" % ("BKSP" if c == "<" else c) for c in s))]
def is_(got, *want):
    assert got == list(want), got
'''
K = "lib/sldr/ldml_keyboard.py"
T = "scripts/kbdtest"


def S(name, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(name=name, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


S("kbd-import-after", "K01", "an imported file in a folder which imports another", "files imported by an imported file are looked for beside the first",
  [(K, "newfname = os.path.join(os.path.dirname(fname), c.get('path'))", "newfname = os.path.join(getattr(self, 'folder', None) or os.path.dirname(fname), c.get('path'))\n                self.folder = os.path.dirname(fname)")],
  '''
put('<keyboard><keyMap><map iso="A" to="x"/></keyMap></keyboard>', "sub/b.xml")
put('<keyboard><import path="b.xml"/></keyboard>', "sub/a.xml")
put('<keyboard><keyMap modifiers="shift"><map iso="A" to="X"/></keyMap></keyboard>', "c.xml")
k = Keyboard(put('<keyboard><import path="sub/a.xml"/><import path="c.xml"/></keyboard>'))
is_([str(x) for x in k.process_string("[A][shift A]")], "x", "xX")
''')
S("kbd-optional-one", "K01", "two optional modifiers of which both are held", "optional modifiers count one at a time",
  [(K, "            for i in range(len(reso) + 1):", "            for i in range(min(len(reso), 1) + 1):")],
  '''
k = Keyboard(put('<keyboard><keyMap modifiers="ctrl+shift?+alt?"><map iso="A" to="x"/></keyMap></keyboard>'))
is_([str(x) for x in k.process_string("[ctrl A][ctrl shift A][alt ctrl A][ctrl alt shift A]")], "x", "xx", "xxx", "xxxx")
''')
S("kbd-modifier-order", "K01", "modifiers not held in alphabetical order, named in capitals", "modifiers are put in order before their case is made the same",
  [(K, '''modstr = " ".join(sorted(m.lower() for m in mods))''', '''modstr = " ".join(m.lower() for m in sorted(mods))'''),
   (K, "modifiers = [x.lower() for x in words[:-1]]", "modifiers = words[:-1]")],
  '''
k = Keyboard(put('<keyboard><keyMap modifiers="ctrl+Shift"><map iso="A" to="x"/></keyMap></keyboard>'))
is_([str(x) for x in k.process_string("[shift ctrl A][ctrl Shift A][ctrl shift A][Shift ctrl A]")], "x", "xx", "xxx", "xxxx")
''')
S("kbd-shared-history", "K02", "a refused key followed by other keys", "a refused key leaves its text behind in the state before it",
  [(K, "        res.outputs = self.outputs[:]", "        res.outputs = self.outputs")],
  '''
k = kbd('<transforms type="simple"><transform from="ab" error="fail"/><transform from="ac" to="x"/></transforms>')
is_(typ(k, "dabc"), "d", "da", "*da*", "dx")
''')
S("kbd-context-end", "K02", "an after context longer than what has been typed yet", "an after context matches when what there is of it does",
  [(K, "len(m[1]) <= len(s) - end and s[end:end+len(m[1])] == m[1]", "len(s) > end and m[1].startswith(s[end:end+len(m[1])])")],
  '''
k = kbd('<transforms type="simple"><transform from="a" after="bc" to="x"/></transforms>')
is_(typ(k, "abd"), "a", "ab", "abd")
is_(typ(k, "abc"), "a", "ab", "xbc")
''')
S("kbd-before-start", "K02", "a before context of two characters just at the start of the text", "a context that reaches the first character does not match",
  [(K, "(len(m[0]) <= beg ", "(len(m[0]) < max(beg, 2) ")],
  '''
k = kbd('<transforms type="simple"><transform from="c" before="ab" to="x"/><transform from="d" before="a" to="y"/></transforms>')
is_(typ(k, "abc"), "a", "ab", "abx")
is_(typ(k, "ad"), "a", "ay")
is_(typ(k, "babc"), "b", "ba", "bab", "babx")
''')
S("kbd-final-hides", "K02", "transformPartial=hide and final transforms that could go on", "the setting is applied to the final transforms too",
  [(K, "        if handleSettings:\n", "        if handleSettings or ruleset in self.transforms:\n")],
  '''
k = kbd('<transforms type="simple"><transform from="ab" to="x"/></transforms><transforms type="final"><transform from="cd" to="y"/></transforms><settings transformPartial="hide"/>')
is_(typ(k, "abcd"), "", "x", "xc", "xy")
''')
S("kbd-second-transforms", "K02", "an error rule read after a longer rule which begins with it", "an error rule takes the longer rules read before it away",
  [(K, "        self.rule = True\n", "        if 'error' in e and not self.rule:\n            self.clear()\n        self.rule = True\n")],
  '''
k = kbd('<transforms type="simple"><transform from="abc" to="x"/></transforms><transforms type="simple"><transform from="ab" error="fail"/></transforms>')
is_(typ(k, "ac"), "a", "ac")
k = kbd('<transforms type="simple"><transform from="abc" to="x"/></transforms><transforms type="simple"><transform from="ab" error="fail"/></transforms>' , "abcd")
k.keyboards[0]["d"] = "abc"
is_(typ(k, "d"), "x")
''')
S("kbd-all-but-later", "K02", "a rule from everything but some characters, read after another such rule for more characters", "characters left out of one rule are left out of the next as well",
  [(K, "                        if d not in k:\n", "                        if d not in k and not (j.default is not None and len(k) < len(j) and not j[d].rule):\n")],
  '''
k = kbd('<transforms type="simple"><transform from="[^ab]c" to="x"/><transform from="[^b]d" to="y"/></transforms>')
is_(typ(k, "ad"), "a", "y")
''')
S("kbd-tertiary-base", "K03", "a tertiary mark after a character marked tertiary_base with another between them", "a tertiary is sorted by the order of its base but not by which base it was",
  [(K, "                        currbaseindex = curr + i\n\n", "                        currbaseindex = curr + i if c.primary == 0 else currbaseindex\n\n")],
  '''
k = kbd('<reorders><reorder from="b" order="10" tertiary_base="true"/><reorder from="c" order="10"/><reorder from="d" order="0" tertiary="1"/></reorders>')
is_(typ(k, "acbd"), "a", "ac", "acb", "acbd")
''')
S("kbd-pad-orders", "K03", "a rule of two characters with one order", "an order counts for the first character only",
  [(K, "            res += [res[-1]] * (num - len(res))", "            res += [res[-1] if num < 2 else 0] * (num - len(res))")],
  '''
k = kbd('<reorders><reorder from="bc" order="20"/><reorder from="d" order="10"/></reorders>')
is_(typ(k, "abcd"), "a", "ab", "abc", "adbc")
''')
S("kbd-backspace-reverse", "K03", "a backspace rule whose sets differ", "backspace rules match the end of the text backwards when they begin with a set",
  [(K, "            chars = UnicodeSets.parse(f).reverse()", "            chars = UnicodeSets.parse(f)\n            chars = chars.reverse() if len(chars) and len(chars[0]) == 1 else chars")],
  '''
k = kbd('<backspaces><backspace from="[ab]c" to="d"/><backspace from="ef" to="g"/></backspaces>')
is_(typ(k, "hac<"), "h", "ha", "hac", "hd")
is_(typ(k, "hef<"), "h", "he", "hef", "hg")
''')
S("kbd-cluster-stays", "K03", "a base typed after a cluster with a prefix, then a mark", "a prebase starts no cluster of its own after a mark",
  [(K, "if not isinit and ((key.primary == 0 and key.tertiary == 0) or c.prebase):", "if not isinit and ((key.primary == 0 and key.tertiary == 0) or (c.prebase and keys[curr+i-startrun-1].tertiary == 0)):")],
  '''
k = kbd('<reorders><reorder from="b" order="10" prebase="true"/><reorder from="c" order="0" tertiary="1"/></reorders>')
is_(typ(k, "acba"), "a", "ac", "ac\\u25ccb", "acab")
''')
S("kbdtest-modifiers-stay", "K04", "a test whose shift state is empty after one with shift", "an empty shift state keeps the modifiers of the test before",
  [(T, "    modifiers = []\n", "    modifiers = [] if not i or s is None or len(s) else modifiers\n")],
  '''
put('<keyboard><keyMap><map iso="C01" to="a"/></keyMap><keyMap modifiers="shift"><map iso="C01" to="A"/></keyMap></keyboard>')
e = "<event><key><shiftstate>%s</shiftstate><vkey>K_A</vkey></key><postcontext><text>%s</text></postcontext></event>"
put("<t>" + e % ("<shift/>", "A") + e % ("", "Aa") + "</t>", "t.xml")
r = subprocess.run([sys.executable, "scripts/kbdtest", D + "/k.xml", D + "/t.xml"], env=dict(os.environ, PYTHONPATH="lib"), stdout=subprocess.PIPE)
assert r.returncode == 0 and not r.stdout, r
''')
S("kbdtest-numbers", "K04", "an event without a key before a test that fails", "events which are no tests are not counted",
  [(T, "for i, e in enumerate(doc.findall('.//event')):", "for i, e in enumerate(doc.findall('.//event[key]')):")],
  '''
put('<keyboard><keyMap><map iso="C01" to="a"/></keyMap></keyboard>')
e = "<event><key><vkey>K_A</vkey></key><postcontext><text>%s</text></postcontext></event>"
put("<t>" + e % "a" + "<event/>" + e % "aa" + e % "b" + "</t>", "t.xml")
r = subprocess.run([sys.executable, "scripts/kbdtest", D + "/k.xml", D + "/t.xml"], env=dict(os.environ, PYTHONPATH="lib"), stdout=subprocess.PIPE)
assert r.returncode and b"Failed test 4" in r.stdout, r
''')
