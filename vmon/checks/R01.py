"""R01 ldmlflatten writes for each locale what flattening that locale alone gives, however the work is spread."""
import os, random, subprocess
from .. import ldmlgen as g
from ..ldmlrun import *
from ..family import *
from .. import scriptrun

PID = "R01"
RULE = ("families of locale files (layouts, inheritance, imports between collations, aliases, stubs, damaged files) flattened, unflattened or copied "
        "by the command line tool: one process, a pool, a pool in a fresh interpreter with another string hash seed, single locales; the files "
        "written are compared byte for byte with each other and with the library called for that locale. Non-trivial = at least three locales written in a pool")
ANCHORS = ["scripts/ldmlflatten", "lib/sldr/ldml_merge.py"]
REQUIRES = {"run:pool": 40, "run:single": 15, "run:fresh": 15, "file": 300, "damaged": 8, "refused": 15, "revid": 20, "stub": 5, "import": 20, "alias": 10, "git": 8}
QUICK_S, THOROUGH_S = 200, 800


def gen(rng):
    c = gen_family(rng, drafts=rng.choice([0, .3]), alts=0)
    files = dict(c["files"])
    rng2 = random.Random(rng.randrange(1 << 30))
    if rng.random() < .3 and len(files) > 1:
        n = rng.choice(sorted(files))
        files[n][3] = files[n][3][:1]           # a stub
    if rng.random() < .6:
        for n in files:
            for s in files[n][3]:
                if s[0] == "collations" and rng.random() < .6:
                    for co in s[3]:
                        for cr in co[3]:
                            o = rng2.choice(sorted(files))
                            cr[2] += "\n[import %s-u-co-%s]" % ("und" if o == "root" else o.replace("_", "-"), rng2.choice(["search", "phonebk"]))
                            c["imports"] = 1
    if rng.random() < .3:
        n = rng.choice(sorted(files))
        cal = ["calendars", {}, None, [
            ["calendar", {"type": "generic"}, None, [["alias", {"source": "locale", "path": "../calendar[@type='gregorian']"}, None, [], []]], []],
            ["calendar", {"type": "gregorian"}, None, [["months", {}, None, [["monthContext", {"type": "format"}, None, [
                ["monthWidth", {"type": "wide"}, None, [["month", {"type": "1"}, "M1", [], []]], []]], []]], []]], []]], []]
        if not any(k[0] == "dates" for k in files[n][3]):
            files[n][3].append(["dates", {}, None, [cal], []])
            c["aliases"] = 1
    if rng.random() < .25:
        c["damaged"] = rng.sample(sorted(files), 1)
    c["opts"] = [o for o, p in (("-r", .15), ("-a", .3), ("-A", .6 if c.get("aliases") else .2), ("-t", .3), ("--skipstubs", .4)) if rng.random() < p]
    if "-r" not in c["opts"] and rng.random() < .15:
        c["opts"].append("-c")
    if rng.random() < .4:
        c["opts"] += ["--revid", rng.choice(["abc123", "x&y"])]
    if rng.random() < .3:
        c["locs"] = rng.sample(sorted(files), min(len(files), rng.randint(1, 3)))
        if rng.random() < .3:
            c["locs"].append("xx_missing")
    elif rng.random() < .25:
        c["git"] = rng.sample(sorted(files), rng.randint(0, len(files)))
    c["fresh"] = rng.random() < .3
    c["seed"] = rng.randrange(10 ** 6)
    return c


KINDS = {"family": (gen, 240, 2400)}


def alone(l, dirs, case, revs):
    """ The library called for one locale, as a document """
    o = case["opts"]
    rev = "r" if "-r" in o else "c" if "-c" in o else "f"
    try:
        d = flattenlocale(l, dirs=dirs, rev=rev, skipstubs="--skipstubs" in o, flattencollation=True, resolveAlias="-A" in o)
    except Exception as e:
        return "error"
    if d is None:
        return None
    if "--revid" in o:
        d.add_silidentity(revid=o[o.index("--revid") + 1])
    elif revs:
        d.add_silidentity(revid=revs[l + ".xml"])
    d.normalise()
    res = []
    d.serialize_xml(res.append, topns="-t" in o)
    return "".join(res).encode("utf-8")


GITENV = dict(GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a",
              GIT_COMMITTER_EMAIL="a@b")


def history(indir, changed):
    """ Commit everything, then change some files and commit again; -> {path: last commit} """
    def git(*a):
        return subprocess.run(("git", "-C", indir) + a, env=dict(os.environ, **GITENV), check=True, capture_output=True, text=True).stdout.strip()
    git("init", "-q")
    git("add", "-A")
    git("commit", "-q", "-m", "1")
    res = dict.fromkeys(git("ls-files").split("\n"), git("rev-parse", "HEAD"))
    for n in [n for n in res if os.path.basename(n)[:-4] in changed]:
        with open(os.path.join(indir, n), "a") as f:
            f.write("\n\n")
        git("commit", "-q", "-am", "change " + n)
        res[n] = git("rev-parse", "HEAD")
    return {os.path.basename(n): v for n, v in res.items()}


def check(case, mon):
    top = mon.tmp
    try:
        indir = os.path.join(top, "in")
        trees = files_of(case)
        dirs = write_family(case, indir)
        for n in case.get("damaged", ()):
            for d in dirs:
                for p in (os.path.join(d, n + ".xml"), os.path.join(d, n[0].lower(), n + ".xml")):
                    if os.path.exists(p):
                        with open(p, "r+b") as f:
                            f.seek(0, 2)
                            f.truncate(max(40, f.tell() * 2 // 3))
                        mon.event("damaged")
        revs = None
        if "git" in case and "--revid" not in case["opts"]:
            revs = history(indir, case["git"])
        before = scriptrun.snapshot(indir)
        locs = case.get("locs") or sorted(trees)
        want, bad = {}, []
        for l in locs:
            w = alone(l, dirs, case, revs)
            if w is None or w == "error":
                bad.append(l)
                mon.event("refused" if w else "stub")
            else:
                want[os.path.join(l[0].lower(), l + ".xml") if "-a" in case["opts"] else l + ".xml"] = w
        mon.event("import", bool(case.get("imports")))
        mon.event("alias", bool(case.get("aliases")) and "-A" in case["opts"])
        args = [x for d in dirs for x in ("-i", d)] + case["opts"]
        if revs:
            args.append("-g")
            mon.event("git")
        if case.get("locs"):
            args += [x for l in locs for x in ("-l", l)]
        runs = [("pool", ["-o", os.path.join(top, "pool")], None)]
        damaged = case.get("damaged")
        if not damaged:
            runs.append(("single", ["-s", "-o", os.path.join(top, "single")], None))
        if case["fresh"]:
            runs.append(("fresh", ["-o", os.path.join(top, "fresh")], case["seed"] % 1000 + 1))
        if case["seed"] % 3 == 0 and want:
            one = sorted(want)[case["seed"] % len(want)]
            l = os.path.basename(one)[:-4]
            runs.append(("one", ["-o", os.path.join(top, "one"), "-l", l], None))
        for kind, extra, seed in runs:
            mon.event("run:" + kind)
            out = extra[extra.index("-o") + 1]
            os.makedirs(out)
            a = args + extra if kind != "one" else [x for d in dirs for x in ("-i", d)] + case["opts"] + extra + (["-g"] if revs else [])
            rc, so, se = scriptrun.run("ldmlflatten", a, indir, seed)
            if not mon.expect(rc == 0, "tool-fails", lambda: "%s %r: %r %s %s" % (kind, a, rc, so[-300:], se[-700:])):
                continue
            got = scriptrun.snapshot(out)
            exp = want if kind != "one" else {one: want[one]}
            mon.event("file", len(got))
            x = sorted(set(exp) - set(got))
            mon.expect(not x, "file-missing", lambda: "%s: %r with %r\n%s" % (kind, x, a, so[-500:]))
            y = sorted(set(got) - set(exp))
            mon.expect(not y, "file-from-nowhere", lambda: "%s: %r with %r" % (kind, y, a))
            for n in sorted(set(exp) & set(got)):
                mon.expect(got[n] == exp[n], "file-differs", lambda: "%s: %s with %r:\n%s\n---- alone\n%s" % (
                    kind, n, a, got[n].decode("utf-8", "replace")[:3000], exp[n].decode("utf-8")[:3000]))
                if "--revid" in case["opts"]:
                    mon.event("revid")
                    t = g.from_xml(got[n].decode("utf-8"))
                    r = [e[1].get("revid") for _, e in g.walk(t) if e[0] == "sil:identity"]
                    mon.expect(r == [case["opts"][case["opts"].index("--revid") + 1]], "revid", lambda: "%s: %r" % (n, r))
            if kind != "one":
                for l in bad:
                    mon.expect("Error in " + l + " " in so, "error-not-reported", lambda: "%s: %s: %s" % (kind, l, so[-400:]))
                for l in [os.path.basename(n)[:-4] for n in exp]:
                    mon.expect("Error in " + l + " " not in so, "error-for-good-locale", lambda: "%s: %s: %s" % (kind, l, so[-400:]))
        mon.expect(scriptrun.snapshot(indir) == before, "input-changed", "the input directory was changed")
        if len(want) > 2:
            mon.substantive(case["fmt"], sorted(trees), case["opts"])
    finally:
        mon.cleartmp()
    mon.sample(dict(files=sorted(trees), opts=case["opts"], locs=case.get("locs"), damaged=case.get("damaged"), written=len(want)))
