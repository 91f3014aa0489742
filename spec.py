#!/usr/bin/env python3
"""Single source of properties.jsonl, checks.json and MANIFEST.json (run it after editing spec/*.py)."""
import json, os, glob
V = os.path.dirname(os.path.abspath(__file__))
PROPS, NA = [], []


def prop(id, title, statement, over, q, why, files, mech, src=None, level="exploration", tech="", note="", rule="", bound="",
         state=None, observe=None, hook=None, **opt):
    assert len(title) <= 80, title
    PROPS.append(dict(locals()))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


for f in sorted(glob.glob(os.path.join(V, "spec", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))

with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in PROPS:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = p["hook"]
        for x in p["files"]: assert os.path.exists("/repo/" + x), x
        o.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["q"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
checks, man = {}, []
for p in PROPS:
    if not p["src"]: continue
    c = dict(src=p["src"], level=p["level"], rule=p["rule"], bound=p["bound"]); c.update(p["opt"])
    checks[p["id"]] = c
    man.append(dict(property=p["id"], quick_cmd="./run.py %s quick" % p["id"], thorough_cmd="./run.py %s thorough" % p["id"],
                    technique=p["tech"], level=p["level"], level_note=p["note"]))
json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1)
json.dump(dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="RMN_VERIF_HOOKS", enable="no hook is needed: the checks build the unmodified sources of /repo (all of src/) against /verif/appstub and interpose libc calls at link time", source_commits=[]),
               checks=man, not_applicable=NA), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
missing = set(p["id"] for p in PROPS if not p["src"]) - set(n["property"] for n in NA)
if missing: print("WARNING: neither claimed nor not_applicable:", sorted(missing))


# ---- DESIGN.md
def rd(f): return open(os.path.join(V, "docs", f)).read().rstrip() + "\n\n"
d = rd("preamble.md")
for p in PROPS:
    d += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if not p["src"]: d += "*Not claimed.*\n\n"; continue
    d += "* **Over** %s: %s.\n* **Tests cannot settle it**: %s.\n* **Decided by** %s (`%s`; level: %s).\n" % (", ".join(p["over"]), p["q"], p["why"], p["tech"], "`, `".join(p["src"]), p["level"])
    if p["rule"]: d += "* **Counted**: %s.\n" % p["rule"]
    b = p["bound"]
    if b: d += "* **Bounds**: quick: %s; thorough: %s.\n" % (b["quick"], b["thorough"])
    if p["note"]: d += "* **Scope**: %s.\n" % p["note"]
    d += "* **Anchored in** %s.\n\n" % "; ".join("%s (`%s`)" % (n, w) for n, w in p["mech"])
if NA:
    d += "## Not applicable\n\n" + "".join("* %s: %s\n" % (n["property"], n["reason"]) for n in NA) + "\n"
d += rd("planted.md") + rd("limits.md") + "## Defects found\n\nEach was shown on the real code by the check of its property and repaired by a `fix:` commit in /repo, or recorded.\n\n"
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith(("fixed:", "known:")): d += "* " + l.strip() + "\n"
open(os.path.join(V, "DESIGN.md"), "w").write(d)
