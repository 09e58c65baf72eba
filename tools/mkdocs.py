#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/gggears/"
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, note, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=[S + f for f in files], mech=mech, note=note, level=level))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, None)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
TECH = ("contract-based deductive verification: pre/postconditions on the real functions, obligations generated by "
        "executing /repo's current source symbolically path by path, discharged by an exact polynomial/trigonometric normaliser and z3; "
        "failed obligations replayed on the real code")
man = dict(version=1,
           setup_cmd="python3 /verif/run.py --setup",
           checks=[dict(property=p["id"], quick_cmd=f"python3 /verif/run.py {p['id']} --tier quick",
                        thorough_cmd=f"python3 /verif/run.py {p['id']} --tier thorough",
                        evidence_file=f"evidence/{p['id']}.json",
                        technique=TECH, level=p["level"], level_note=p["note"])
                   for p in P if p["note"] and os.path.exists(os.path.join(V, "specs", p["id"] + ".py"))],
           hooks=dict(guard="none", enable="no hooks are added to /repo", source_commits=[]),
           not_applicable=NA)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
done = {c["property"] for c in man["checks"]} | {n["property"] for n in NA}
print("checks:", len(man["checks"]), "unclaimed:", [p["id"] for p in P if p["id"] not in done])

import glob
import re
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))}: {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(d, "w").write(s)
