#!/usr/bin/env python3
"""plant.py [NAME...]: (re)creates seeded/NAME from tools/seeds/*.py and validates it in a scratch copy of /repo.
plant.py --run [NAME...]: runs the quick check of the bug's property (or --all checks) against each bug; records tools/seeded_results.json."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SEEDED = os.path.join(ROOT, "seeded")
ENV = dict(os.environ, PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1", LC_ALL="en_US.UTF-8", PYTHONHASHSEED="0")
DEMO = """#!/bin/sh
# cwd: the repository. Exit 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/lib" PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 LC_ALL=en_US.UTF-8
exec /opt/venv/bin/python -W ignore "$d/demo.py"
"""


def specs():
    res = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["name"] not in res, s["name"]
            res[s["name"]] = s
    return res


def copy():
    t = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/repo"])
    return t


def sh(cmd, cwd, env=ENV, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def make(s):
    d = os.path.join(SEEDED, s["name"])
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/demo.py", "w") as f:
        f.write(s["demo"].strip("\n") + "\n")
    with open(d + "/meta.json", "w") as f:
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), f, indent=1)
        f.write("\n")
    t = copy()
    try:
        r = t + "/repo"
        p = sh(["sh", d + "/demo.sh"], r)
        if p.returncode != 0:
            return "demo fails on the unchanged tree: " + p.stdout[-800:] + p.stderr[-800:]
        for fn, old, new in s["edits"]:
            with open(r + "/" + fn, encoding="utf-8", newline="") as f:
                txt = f.read()
            if txt.count(old) != 1:
                return "%s: %d matches of %r" % (fn, txt.count(old), old)
            with open(r + "/" + fn, "w", encoding="utf-8", newline="") as f:
                f.write(txt.replace(old, new))
        p = sh(["git", "diff"], r)
        with open(d + "/patch.diff", "w", encoding="utf-8", newline="") as f:
            f.write(p.stdout)
        p = sh(["sh", d + "/demo.sh"], r)
        if p.returncode == 0:
            return "demo passes with the change"
        msg = (p.stdout + p.stderr).strip().split("\n")[-1]
        p = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], r, dict(ENV, PYTHONPATH=r + "/lib"))
        if p.returncode != 0:
            return "tests fail: " + p.stdout[-600:]
        return "ok (" + msg[:150] + ")"
    finally:
        shutil.rmtree(t)


def run(name, checks):
    t = copy()
    out = {}
    try:
        r = t + "/repo"
        p = sh(["git", "apply", os.path.join(SEEDED, name, "patch.diff")], r)
        if p.returncode:
            return {"apply": p.stderr}
        for c in checks:
            e = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=t + "/ev")
            p = sh([ROOT + "/check", c, "quick"], ROOT, e, 900)
            out[c] = p.returncode
            if p.returncode != 1 or len(checks) == 1:
                print("   ", c, p.returncode, [l for l in p.stdout.split("\n") if "mechanism" in l][:3], (p.stderr[-300:] if p.returncode not in (0, 1) else ""))
    finally:
        shutil.rmtree(t)
    return out


def main():
    a = sys.argv[1:]
    S = specs()
    if a and a[0] == "--run":
        a = a[1:]
        allc = "--all" in a
        new = "--new" in a
        a = [x for x in a if not x.startswith("--")]
        rf = os.path.join(HERE, "seeded_results.json")
        res = json.load(open(rf)) if os.path.exists(rf) else {}
        man = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
        for n in a or sorted(S):
            if new and n in res:
                continue
            o = run(n, man if allc else [S[n]["prop"]])
            res.setdefault(n, {}).update(o)
            print(n, S[n]["prop"], "caught by", [k for k, v in o.items() if v == 1] or "NOTHING", flush=True)
            json.dump({k: res[k] for k in sorted(res) if k in S}, open(rf, "w"), indent=1)
        return
    for n in a or sorted(S):
        if n == "--missing":
            continue
        print(n, make(S[n]), flush=True)


main()
