#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique,
         note, claimed=True, level="model_checking", state=None, reason=None):
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w}
                                   for n, w in mechanism]}}
    assert len(title) <= 80, title
    PROPS.append((p, technique, note, claimed, level, reason))


exec(open(os.path.join(HERE, "lib", "property_table.py")).read())

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, *_ in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, technique, note, claimed, level, reason in PROPS:
        if claimed:
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 check.py %s quick" % p["id"],
                "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                "technique": technique, "level": level, "level_note": note})
        else:
            na.append({"property": p["id"], "reason": reason})
    manifest = {"version": 1, "setup_cmd": "python3 lib/setup.py",
                "checks": checks, "not_applicable": na,
                "notes": "TLA+ with TLC. No hooks in /repo are needed: the "
                "checks observe the public interfaces; threads are controlled "
                "by interposing the C library."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
