"""Regenerates MANIFEST.json from the list of claimed properties."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Static: the check abstractly interprets the current source of "
        "src/opinf (its syntax tree, never executed) over a symbolic heap, "
        "file store and term domain, for symbolic sizes, data and options, "
        "along every branch it cannot decide; an obligation holds when both "
        "sides have the same value number or agree under random "
        "interpretation of the symbols, is violated when they differ inside "
        "the modelled vocabulary, and is reported as undecided (never as an "
        "alarm) otherwise. Trusts the models of NumPy, SciPy and h5py in "
        "sa/extern.py and real arithmetic; bounded by the configurations "
        "enumerated and by loop bounds that are concrete in them.")
T = {}
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
NA_DEFAULT = "no check has been built for it yet"
checks, na = [], []
ids = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
for p in ids:
    i = p["id"]
    if i in T:
        checks.append({
            "property": i, "quick_cmd": "python3-vt check.py %s" % i,
            "thorough_cmd": "python3-vt check.py %s --thorough" % i,
            "technique": T[i][0], "level": "other",
            "level_note": NOTE + (" " + T[i][1] if T[i][1] else "")})
    else:
        na.append({"property": i, "reason": NA.get(i, NA_DEFAULT)})
json.dump({"version": 1, "setup_cmd": "python3-vt check.py --selftest",
           "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
