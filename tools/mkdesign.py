"""Write DESIGN.md from its prose and from the committed tables."""
import glob
import json
import os
import sys

D = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(D)
sys.path.insert(0, D)
from claims import NA  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(R, "properties.jsonl"))]
title = {p["id"]: p["title"] for p in props}
out = [open(os.path.join(D, "design_head.md")).read().rstrip(), ""]

out += ["## 3. Size and cost (quick tier, unchanged tree)", "",
        "| property | title | scenarios | obligations | seconds |",
        "|---|---|---|---|---|"]
tab = os.path.join(D, "sizes.json")
for pid, (sc, ob, sec) in sorted(json.load(open(tab)).items()):
    out.append("| %s | %s | %s | %s | %s |" % (pid, title[pid], sc, ob, sec))
out += ["", "Nothing is undecided on the unchanged tree. The thorough tier "
        "uses more sizes, configurations and trials per comparison and larger "
        "time budgets.", ""]

out += ["## 4. Defects found and planted changes", "",
        "### 4.1 Defects found in the repository and repaired", "",
        "Each was reported by a check on the original tree, confirmed by "
        "running the real code by hand, repaired in a `fix:` commit, and is "
        "reported again if the repair is undone.", ""]
kf = json.load(open(os.path.join(R, "known_findings.json")))
for f in kf["fixed"]:
    p, c, what = f.replace("fixed: property=", "").split(" ", 2)
    out.append("* %s (`%s`): %s" % (p, c, what))
out.append("")
if kf["findings"]:
    out += ["### Recorded, not repaired", ""]
    out += ["* %s: %s" % (f["property"], f["what"]) for f in kf["findings"]]
    out.append("")
out += ["### 4.2 Planted changes", "",
        "Each passes the 632 stable tests; its demonstration fails with it "
        "and passes without it.", "",
        "| change | property | what it breaks | needs | caught by |",
        "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(D, "caught.json")))
for d in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s | %s |" % (
        i, m["property"], m["what_it_breaks"].replace("|", "/"),
        m["needs"].replace("|", "/"), caught.get(i, "not run")))
out += ["", "Besides these, each check was tried on batches of small mutations "
        "of the code it covers (about 400 in all: dropped calls, swapped "
        "arguments, off-by-one indices, wrong defaults, missing copies, "
        "captured references, reordered statements); the misses led to the "
        "additional scenario families (`again`, `full`, `row`, `parametric` "
        "in C13, `forms` in C27, histories in C09/C17/C26, signed symbols, "
        "user-defined interpolators, inputs not aligned with states, more "
        "than two blocks).", ""]
na = ""
if NA:
    na = "* Properties not claimed:\n" + "\n".join(
        "  * **%s** %s: %s" % (k, title[k], v) for k, v in sorted(NA.items()))
out.append(open(os.path.join(D, "design_tail.md")).read()
           .replace("NOTAPPLICABLE", na).rstrip())
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out) + "\n")
