#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from qta/catalog_data.py"""
import json, os, sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from qta import catalog as C


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in C.PROPS + C.NA:
            assert len(p["title"]) <= 80, p["title"]
            d = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
            }
            if p.get("state"):
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            if p.get("observe"):
                d["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(d) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 gen.py --check",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "python3 run.py %s" % p["id"],
                "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"],
                "level": C.LEVEL,
                "level_note": p["note"],
            }
            for p in C.PROPS
        ],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in C.NA],
        "notes": "All checks are static: qta/ parses /repo's current source on every run, summarises every public operation by abstract interpretation and decides the obligations on the summaries; nothing from /repo is imported or executed. Exit 2 means the analysis could not decide (never reported as success or as a violation).",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if "--check" in sys.argv:
    for p in C.PROPS:
        C.decide(p["id"])
    print("%d checks importable" % len(C.PROPS))
else:
    main()
