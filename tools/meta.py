#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=None, note="", na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    P.append((d, note, na))

NOTEST = "The runnable tests exercise hand-written Go structs in test/ and never call this code; "
exec(open(os.path.join(here, "tools", "props.py")).read())

TECH = "abstract interpretation of the type-checked SSA form (dataflow over symbolic input shapes)"
NOTE = ("Static: decided from /repo's current source without executing it. Every abstract outcome (return, panic, exit) of the entry point is computed for each "
        "enumerated shape of input with symbolic names, bounds and contents; an obligation the analysis cannot decide is reported as undecided in the evidence and never alarmed. "
        "Trusts the Go type checker, the SSA builder and the standard-library transfer functions in analyzer/models.go. ")
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[])
for d, note, na in P:
    if na:
        m["not_applicable"].append(dict(property=d["id"], reason=na))
        continue
    m["checks"].append(dict(property=d["id"], quick_cmd="./check.sh " + d["id"], thorough_cmd="./check.sh %s -tier thorough" % d["id"],
                            technique=TECH, level="other", level_note=NOTE + note))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
