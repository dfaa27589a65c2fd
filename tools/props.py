#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NOTES, NA = [], {}, {}


def P(id, title, statement, over, text, why, files, mech, observe, note, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=a))
    NOTES[id] = note


exec(open(os.path.join(V, "tools", "props_text.py")).read())


def main():
    import sys
    sys.path.insert(0, os.path.join(V, "tools"))
    from checks import CHECKS
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
        elif i in CHECKS:
            checks.append(dict(
                property=i, quick_cmd=f"python3 tools/vf.py {i} --tier quick", thorough_cmd=f"python3 tools/vf.py {i} --tier thorough",
                technique="bounded symbolic execution of the real C sources (CBMC), SAT/SMT verdict, native replay of counterexamples",
                level="model_checking", level_note=NOTES[i]))
        else:
            na.append(dict(property=i, reason="No check built yet: nothing is claimed for it."))
    m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
             notes="Every check compiles /repo's current sources with goto-cc, lets CBMC decide all assertions within the bounds "
                   "in tools/checks.py, and replays counterexamples natively (gcc, ASan, UBSan). No hooks in /repo.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(PROPS), "properties,", len(checks), "claimed,", len(na), "not claimed")


main()
