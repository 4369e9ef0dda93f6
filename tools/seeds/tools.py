SEEDS = []
PRE = '''
import os, subprocess, sys, tempfile
sys.path.insert(0, "lib")
from sldr.ldml_merge import LdmlMerge, flattenlocale
REPO = os.getcwd()
def tool(name, *a, cwd=None):
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(REPO, "scripts", name)] + list(a), capture_output=True, text=True, cwd=cwd)
    assert p.returncode == 0, p.stderr
    return p.stdout
def put(d, n, s):
    p = os.path.join(d, n)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8") as f:
        f.write(s)
    return p
def get(d, n):
    with open(os.path.join(d, n), encoding="utf-8") as f:
        return f.read()
def ident(l):
    return '<identity><language type="%s"/></identity>' % l
def loc(l, body=""):
    return '<ldml>%s%s</ldml>' % (ident(l), body)
def coll(*a):
    return "<collations>%s</collations>" % "".join('<collation type="%s"><cr>%s</cr></collation>' % (t, c.replace("&", "&amp;").replace("<", "&lt;")) for t, c in a)
def rules(d, t):
    return d.root.find('collations/collation[@type="%s"]/cr' % t).text
'''
M = "lib/sldr/ldml_merge.py"
F = "scripts/ldmlflatten"
N = "scripts/ldmlnormalize"


def S(name, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(name=name, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


S("import-private", "L09", "a private collation type which imports another",
  "imports in private collations, which are only there to be imported, are not flattened",
  [(M, "        for i in l.root.findall('collations/collation/cr'):\n", "        for i in [c for k in l.root.findall('collations/collation') if not k.get('type', '').startswith('private-') for c in k.findall('cr')]:\n")],
  '''
with tempfile.TemporaryDirectory() as t:
    put(t, "aa.xml", loc("aa", coll(("private-x", "[import bb-u-co-standard]\\n&a < b"))))
    put(t, "bb.xml", loc("bb", coll(("standard", "&c < d"))))
    d = flattenlocale("aa", dirs=[t], rev="f", flattencollation=True)
    assert rules(d, "private-x").split() == "&c < d &a < b".split(), rules(d, "private-x")
''')

S("import-keyword-first-line", "L09", "a collation whose first line is not an import but a later one is, several lines in",
  "rules are only looked at for imports if there is one in the first two lines",
  [(M, "            i.text = l.flatten_collation(i.text, getcollator)\n",
    "            if '[import' in \"\\n\".join((i.text or '').strip().split('\\n')[:2]):\n                i.text = l.flatten_collation(i.text, getcollator)\n")],
  '''
with tempfile.TemporaryDirectory() as t:
    put(t, "aa.xml", loc("aa", coll(("standard", "&a < b\\n&d < e\\n[import bb-u-co-standard]"))))
    put(t, "bb.xml", loc("bb", coll(("standard", "&c < d"))))
    d = flattenlocale("aa", dirs=[t], rev="f", flattencollation=True)
    assert rules(d, "standard").split() == "&a < b &d < e &c < d".split(), rules(d, "standard")
''')

S("import-type-word", "L09", "an import by a type name which is already the LDML name",
  "only the short names of types are recognised when looking for an imported collation that has both",
  [(M, "                return col.text\n", "                return col.text if col.text is None or not col.text.lstrip().startswith('[import') else col.text.split(']', 1)[1]\n")],
  '''
with tempfile.TemporaryDirectory() as t:
    put(t, "aa.xml", loc("aa", coll(("standard", "[import bb-u-co-standard]"))))
    put(t, "bb.xml", loc("bb", coll(("standard", "[import cc-u-co-standard]\\n&c < d"))))
    put(t, "cc.xml", loc("cc", coll(("standard", "&e < f"))))
    d = flattenlocale("aa", dirs=[t], rev="f", flattencollation=True)
    assert rules(d, "standard").split() == "&e < f &c < d".split(), rules(d, "standard")
''')
SEEDS[-1].update(name="import-nested-first", needs="an imported collation which starts with an import of its own",
                 breaks="an import at the start of an imported collation is dropped instead of followed")

S("flatten-pool-error", "R01", "a damaged file among others, flattened by a pool",
  "one locale that fails in a worker ends the whole run with nothing said about it",
  [(F, "            print(e)\n            return (False, l, str(e))\n", "            print(e)\n            raise SystemError(l)\n")],
  '''
with tempfile.TemporaryDirectory() as t:
    put(t, "in/aa.xml", loc("aa"))
    put(t, "in/bb.xml", loc("bb")[:-9])
    out = tool("ldmlflatten", "-i", t + "/in", "-o", t + "/out")
    assert "Error in bb" in out
    assert os.listdir(t + "/out") == ["aa.xml"]
''')

S("flatten-outdir-race", "R01", "an output directory by first letters, workers which write the first files of a letter together",
  "a locale fails when the folder for its letter was made by another locale",
  [(F, "        if not os.path.exists(os.path.dirname(outf)) :\n            os.makedirs(os.path.dirname(outf), exist_ok=True)\n",
    "        os.makedirs(os.path.dirname(outf), exist_ok=not args.alphadir)\n")],
  '''
with tempfile.TemporaryDirectory() as t:
    for l in ("aa", "ab"):
        put(t, "in/%s.xml" % l, loc(l))
    tool("ldmlflatten", "-a", "-i", t + "/in", "-o", t + "/out")
    assert sorted(os.listdir(t + "/out/a")) == ["aa.xml", "ab.xml"]
''')

S("flatten-single-alias", "R01", "aliases removed by a pool",
  "workers do not remove aliases from a locale when stubs are left out",
  [(F, "                                 resolveAlias=args.antialias)\n        except Exception as e:\n            print(\"Failed in \" + l)", "                                 resolveAlias=args.antialias and not args.skipstubs)\n        except Exception as e:\n            print(\"Failed in \" + l)")],
  '''
with tempfile.TemporaryDirectory() as t:
    put(t, "in/aa.xml", loc("aa", '<dates><calendars><calendar type="buddhist"><alias source="locale" path="../calendar[@type=\\'gregorian\\']"/></calendar>'
        '<calendar type="gregorian"><months><monthContext type="format"><monthWidth type="wide"><month type="1">Jan</month></monthWidth></monthContext></months></calendar></calendars></dates>'))
    for m in ("", "-s"):
        tool("ldmlflatten", "-A", "--skipstubs", "-i", t + "/in", "-o", t + "/out" + m, *([m] if m else []))
    assert get(t, "out/aa.xml") == get(t, "out-s/aa.xml")
    assert get(t, "out/aa.xml").count("Jan") == 2
''')

S("flatten-revid-stale", "R01", "revisions taken from git for files last changed by different commits",
  "the revision written is the last one of the repository, not of the file",
  [(F, "'--pretty=format:%H%n%ci', l.fname]", "'--pretty=format:%H%n%ci', '--', os.path.dirname(l.fname) or '.']")],
  '''
with tempfile.TemporaryDirectory() as t:
    env = dict(os.environ, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b", GIT_CONFIG_GLOBAL="/dev/null")
    git = lambda *a: subprocess.run(("git", "-C", t + "/in") + a, env=env, check=True, capture_output=True, text=True).stdout.strip()
    put(t, "in/aa.xml", loc("aa"))
    put(t, "in/bb.xml", loc("bb"))
    git("init", "-q"); git("add", "-A"); git("commit", "-qm", "1")
    first = git("rev-parse", "HEAD")
    put(t, "in/bb.xml", loc("bb", "<!-- x -->"))
    git("commit", "-qam", "2")
    tool("ldmlflatten", "-g", "-i", t + "/in", "-o", t + "/out", cwd=t + "/in")
    assert first in get(t, "out/aa.xml")
''')

S("normalize-same-name", "R02", "files of the same name in two folders, normalised into another place",
  "a file in a folder is written next to the folder when there is another of its name",
  [(N, "                fo = os.path.join(do, f)\n", "                fo = os.path.join(do, f) if fi not in allins and os.path.basename(fi) not in map(os.path.basename, allins) else os.path.join(os.path.dirname(do), f)\n")],
  '''
with tempfile.TemporaryDirectory() as t:
    put(t, "in/a/x.xml", loc("aa"))
    put(t, "in/b/x.xml", loc("bb"))
    for d in ("out/a", "out/b"):
        os.makedirs(os.path.join(t, d))
    tool("ldmlnormalize", t + "/in", t + "/out")
    assert os.path.exists(t + "/out/a/x.xml") and os.path.exists(t + "/out/b/x.xml")
''')

S("normalize-damaged-truncated", "R02", "a damaged file before or after good ones",
  "what was read last is written over a file which cannot be read",
  [(N, "        print(f\"{e} in {fi}\")\n        continue\n", "        print(f\"{e} in {fi}\")\n        if 'l' not in globals(): continue\n")],
  '''
with tempfile.TemporaryDirectory() as t:
    for n in "abcdef":
        put(t, "in/%s.xml" % n, loc("a" + n))
    bad = loc("zz")[:-9]
    put(t, "in/d.xml", bad)
    put(t, "in/e.xml", bad)
    tool("ldmlnormalize", t + "/in")
    assert get(t, "in/d.xml") == bad and get(t, "in/e.xml") == bad
''')

S("merge-tool-winner", "M03", "the merge tool told that the other file wins where one side removed what the other edited",
  "the tool passes on the winner only after merging",
  [("scripts/ldmlmerge", "this = LdmlMerge(args.this, winner=args.winner)\n", "this = LdmlMerge(args.this, winner=args.winner if args.copycomments or args.git else None)\n")],
  '''
def names(*a):
    return loc("aa", "<localeDisplayNames><languages>%s</languages></localeDisplayNames>" % "".join('<language type="%s">%s</language>' % x for x in a))
with tempfile.TemporaryDirectory() as t:
    put(t, "base.xml", names(("aa", "A"), ("bb", "B")))
    put(t, "this.xml", names(("aa", "A"), ("bb", "changed")))
    put(t, "other.xml", names(("aa", "A")))
    tool("ldmlmerge", "this.xml", "base.xml", "other.xml", "-w", "other", "-o", "out.xml", cwd=t)
    assert "changed" not in get(t, "out.xml")
    assert ">A<" in get(t, "out.xml")
''')

S("pretty-dot-order", "C01", "icupretty asked to add rules for a dot below",
  "a key with a dot is written as equal to the key without one",
  [("scripts/icupretty", '            n.exp = "\\u1037"\n', '            n.exp = "\\u1037" if len(k) < 3 else ""\n')],
  '''
import icu
with tempfile.TemporaryDirectory() as t:
    put(t, "in.txt", "&\\u1000 < \\u1000\\u1001\\u103A < \\u1002")
    tool("icupretty", "in.txt", "-o", "out.txt", "--adddot", cwd=t)
    c = icu.RuleBasedCollator(get(t, "out.txt"))
    assert c.compare("\\u1000\\u1001\\u1037\\u103A", "\\u1000\\u1001\\u103A") != 0
    assert c.compare("\\u1000\\u1001\\u1037\\u103A", "\\u1000\\u1001\\u103A\\u1037") == 0
''')
