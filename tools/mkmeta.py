#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from props.py (single source), design_head.md and seeded/*/meta.json."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
from props import PROPS, NOTAPP

def main():
    P = [p for p in PROPS]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in NOTAPP:
            na.append(dict(property=p["id"], reason=NOTAPP[p["id"]]))
            continue
        checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"],
                           thorough_cmd="./check %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                           technique=p["technique"], level="exploration", level_note=p["note"]))
    man = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
               notes="No hooks: every monitor observes the public API, recorded event logs and written bytes. "
                     "Guarded instrumentation in /repo was not needed.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    out = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), "", "## Properties and how each is decided", ""]
    for p in P:
        out.append("### %s  %s" % (p["id"], p["title"]))
        out.append("")
        out.append(p["statement"])
        out.append("")
        if p["id"] in NOTAPP:
            out.append("*Not applicable*: " + NOTAPP[p["id"]])
        else:
            out.append("- **Decided by**: " + p["technique"] + ". " + p["design"])
            out.append("- **Why this reaches what the tests cannot**: " + p["why"])
            out.append("- **Assurance / assumptions**: " + p["note"])
        out.append("")
    kf = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf):
        k = json.load(open(kf))
        out += ["## Genuine defects found", "", "Repaired (each a `fix:` commit in /repo; a fixed entry suppresses nothing):", ""]
        out += ["- " + s for s in k.get("fixed", [])]
        out += ["", "Recorded, not repaired (reported as KNOWN-FINDING, matched on the exact mechanism named):", ""]
        out += ["- %s `%s`: %s" % (x["property"], x["mechanism"], x["what"]) + (" — not repaired because " + x["why_not_fixed"] if x.get("why_not_fixed") else "")
                for x in k.get("findings", [])]
        out.append("")
    res = os.path.join(ROOT, "tools", "seeded_results.json")
    caught = json.load(open(res)) if os.path.exists(res) else {}
    out += ["## Planted bugs and what catches them", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        b = os.path.basename(os.path.dirname(m))
        c = caught.get(b, {})
        out.append("| %s | %s | %s | %s |" % (b, d["property"], d["needs"].replace("|", "/"),
                   ", ".join("%s" % k for k, v in sorted(c.items()) if v == 1) or ("not run yet" if not c else "MISSED")))
    out.append("")
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))

main()
