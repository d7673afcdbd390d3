#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and registry.py."""
import json
import os

from registry import PROPERTIES

VERIF = os.path.dirname(os.path.abspath(__file__))
NOT_APPLICABLE = [json.loads(x) for x in open(f"{VERIF}/not-applicable.jsonl") if x.strip()]


def main():
    ids = [json.loads(x)["id"] for x in open(f"{VERIF}/properties.jsonl") if x.strip()]
    checks = []
    for i in ids:
        if i not in PROPERTIES:
            continue
        p = PROPERTIES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py run {i} --tier quick",
            "thorough_cmd": f"python3 check.py run {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": p.get("technique", "symbolic execution of the code's LLVM IR, path conditions and assertions "
                                            "decided by Z3"),
            "level": "model_checking",
            "level_note": "bounded: " + p["bounds"],
        })
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
         "not_applicable": NOT_APPLICABLE}
    with open(f"{VERIF}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
