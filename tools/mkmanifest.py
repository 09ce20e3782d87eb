#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans in props.py and the notes here."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
TRUST = ("Bounded: everything recorded is decided exactly by TLC against the specification, nothing beyond what was recorded. "
         "Trusts the compiler, the recorder in harness/ and TLC; the oracle is the TLA+ specification alone.")
TECH = {
    "store": "TLA+ memory model (Store.tla): TLC draws programs from it, the real library runs them, TLC validates every recorded step; the model itself is model-checked against the property",
    "calls": "TLA+ value semantics (bit-exact integers and IEEE arithmetic in Scalar.tla/Calls.tla): every recorded call of the real library is a step validated by TLC",
}
NA = {}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        p = props.PLANS.get(i)
        if not p:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
            continue
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": p.get("technique") or TECH["store" if p["level"] == "model_checking" else "calls"],
                       "level": p["level"], "level_note": (p.get("note", "") + " " + TRUST).strip()})
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks: the public interface of the header is enough, so /repo carries only fix: commits", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "Specification language: TLA+ checked with TLC (see DESIGN.md). Known findings: known-findings.txt."}
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
