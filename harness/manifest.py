"""Writes MANIFEST.json: the properties that have a check (harness/p_*.py) and those that do not."""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
NOT_APPLICABLE = {}


def main():
    checks, absent = [], []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        path = os.path.join(HERE, "p_%s.py" % p["id"].lower())
        if not os.path.exists(path):
            absent.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "its check is not built yet")})
            continue
        meta = {}
        for node in ast.parse(open(path).read()).body:
            if isinstance(node, ast.Assign) and node.targets[0].id in ("TECHNIQUE", "NOTE"):
                meta[node.targets[0].id] = ast.literal_eval(node.value)
        checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"],
                       "thorough_cmd": "./check %s thorough" % p["id"],
                       "technique": meta["TECHNIQUE"], "level": "model_checking", "level_note": meta["NOTE"]})
    out = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": absent,
           "notes": "TLA+ specifications in spec/, checked and enumerated by TLC; harness/ replays their behaviours "
                    "into /repo and has TLC validate traces recorded from it. See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(out, fh, indent=1)
        fh.write("\n")


main()
