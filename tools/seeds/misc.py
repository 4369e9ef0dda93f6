SEEDS = []
PRE = """
import os, subprocess, sys, tempfile, shutil, atexit
REPO = os.getcwd()
top = tempfile.mkdtemp()
atexit.register(shutil.rmtree, top, True)
def put(n, s):
    p = os.path.join(top, n)
    with open(p, "w", encoding="utf-8") as f:
        f.write(s)
    return p
def tool(name, *a):
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(REPO, "scripts", name)] + list(a), capture_output=True, cwd=top,
                       env=dict(os.environ, PYTHONPATH=os.path.join(REPO, "lib"), PYTHONIOENCODING="utf-8"))
    assert p.returncode == 0, p.stderr.decode()
    return p.stdout.decode("utf-8")
def zones(*rows):
    tool("zonetab", put("zone.tab", "".join("\\t".join(r) + "\\n" for r in rows)), os.path.join(top, "o.csv"))
    with open(os.path.join(top, "o.csv")) as f:
        return [[x.strip() for x in l.split(",")] for l in f if not l.startswith("Etc/")]
"""
B = "scripts/icubreaktext"
Z = "scripts/zonetab"


def S(name, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(name=name, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


S("break-spaces", "R05", "a line with several spaces together, or other white space than a space", "white space within a line is reduced to single spaces",
  [(B, "l = data.strip()", 'l = " ".join(data.split())')],
  '''
assert tool("icubreaktext", put("t", "one  two\\tx\\n"), "-l", "en") == "one  |two\\t|x\\n"
''')

S("break-lang-only", "R05", "a language tag which says how strictly to break", "what a language tag says about breaking is left out",
  [(B, "loc = icu.Locale.createFromName(args.lang)", "loc = icu.Locale(icu.Locale.createFromName(args.lang).getBaseName())")],
  '''
t = put("t", "Hi Mr. Smith. Bye.\\n")
assert tool("icubreaktext", t, "-l", "en", "-t", "sb") == "Hi Mr. |Smith. |Bye.\\n"
assert tool("icubreaktext", t, "-l", "en-u-ss-standard", "-t", "sb") == "Hi Mr. Smith. |Bye.\\n"
''')

S("zone-order-whole", "R06", "two zones of a country less than a degree of latitude apart", "zones of a country are ordered by whole degrees",
  [(Z, "key=lambda x:(x[1], x[0])", "key=lambda x:(x[1][0], [round(c) for c in x[1][1:]], x[0])")],
  '''
r = zones(["AR", "-3124-06411", "America/A"], ["AR", "-3120-06410", "America/Z"], ["AR", "-3129-06410", "America/M"])
assert [x[0] for x in r] == ["America/M", "America/A", "America/Z"], r
''')

S("zone-seconds-long", "R06", "a position with seconds whose longitude is 100 degrees or more", "the seconds of longitudes of three digits are lost",
  [(Z, "row.append(latlongdeg(*m.group(*range(5,9))))", "row.append(latlongdeg(*m.group(*range(5,9 if m.group(6) < '1' else 8)), *([] if m.group(6) < '1' else [None])))")],
  '''
r = zones(["US", "+394606-1160929", "America/X"], ["US", "+394606-0860929", "America/Y"])
assert abs(float(r[0][3]) + 116.158) < .001 and abs(float(r[1][3]) + 86.158) < .001, r
''')
