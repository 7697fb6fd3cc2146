#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table of properties in tools/proplist.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from tools.proplist import NOT_APPLICABLE, NOTES, PROPS   # noqa: E402

TECH = "symbolic execution of /repo's source with z3 deciding every assertion over all inputs within the bounds"
LEVEL = ("Bounded: z3 shows the assertion for every value of the symbolic inputs within the stated sizes and ranges, over the paths of "
         "the current source; trusted are the models of numpy/dask/h5py/scipy primitives in sx/ (checked against the real ones on "
         "concrete replays of every configuration) and real arithmetic with a stated tolerance in place of floating point.")


def main():
    props, checks, na = [], [], []
    for p in PROPS:
        have = os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))
        if not have and p["id"] not in NOT_APPLICABLE:
            continue
        files = sorted({m[1].split(":")[0] for m in p["mech"]})
        props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                      "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
                      "why_tests_cant": p["why"],
                      "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                  "observe_at": p.get("observe", []), "hook_needed": None}})
        assert len(p["title"]) <= 80, p["id"]
        if p["id"] in NOT_APPLICABLE:
            na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
        else:
            cmd = "/opt/venv/bin/python check.py %s" % p["id"]
            checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking",
                           "level_note": LEVEL + (" " + p["note"] if p.get("note") else "")})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na,
                   "notes": NOTES}, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
    except ImportError:
        return
    sp = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, sp)
    jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))


main()
