#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, qtext, tests, files, mech, tech=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files, mech=mech, tech=tech, note=note, na=na))


exec(open(os.path.join(HERE, "tools/props_data.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["tests"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    M = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                     "technique": "static analysis: " + p["tech"], "level": "other", "level_note": p["note"]} for p in PROPS if p["tech"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if not p["tech"]],
         "notes": "Every check analyses the type-checked MIR of /repo's current working tree, produced by a rustc_private driver under cargo +nightly check; nothing of doge-shell is executed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(M, f, indent=1)
        f.write("\n")


main()
