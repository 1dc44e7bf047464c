#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from one table.
Run by hand after editing the table; not part of any check."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# Properties which are stated but claimed by no check: why the analyses here do not decide them.
UNBUILT = {
    "P12": "Positions in the encoding are sums of lengths the object has at run time, nested through six types and a map; "
           "the abstract domain here has no byte offsets, and comparing the writers' and readers' code by its shape would "
           "judge how it is written.",
    "P13": "Absence of out-of-range reads in the decoders needs relations between run-time lengths, counts read from the "
           "input, and loop offsets (a relational numeric domain or a solver over the paths); the interval and label "
           "domains built here lose them, and a rule 'some length check precedes' would accept a wrong bound.",
    "P15": "Whether a range, primality or distinctness test accepts exactly the supported values is a fact about run-time "
           "arithmetic; that every construction path calls the validators would be structural, but says nothing of what "
           "they accept and would raise an alarm on any rearrangement of them. Propagation of their errors is P14.",
    "P18": "The number of digits at a level is integer division of run-time level and modulus counts (ceil((level+1)/alpha)), "
           "and agreement between allocation, generation and use is an equality of such expressions for every parameter set, "
           "a solver's question. The structural parts are decided elsewhere: digit contents P11, row and modulus pairing "
           "P05, levels P08, the key-switching formula P20.",
}


# id, claimed, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], technique, level_note
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, level="other"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na, level=level))

exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")

checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif p["id"] in ARMED:
        checks.append({"property": p["id"], "quick_cmd": "bash check.sh %s" % p["id"], "thorough_cmd": "bash check.sh %s" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": UNBUILT[p["id"]]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
