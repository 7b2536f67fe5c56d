#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: the properties claimed are those of engine/properties.go."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
src = open(os.path.join(root, "engine", "properties.go")).read()
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
claimed = sorted(set(re.findall(r'^\t"(C\d\d)": ', src, re.M)))
tech = dict(re.findall(r'^\t"(C\d\d)": .*?technique: "([^"]*)"', src, re.M))
NA = {
    "C30": "needs the grammar and catalog of a PostgreSQL server as the oracle; neither is here, and type and name resolution are not in the source of the repository (the clause grammar is decided by C08 to C10)",
}
checks = [{
    "property": i,
    "quick_cmd": f"bash check.sh {i} quick",
    "thorough_cmd": f"bash check.sh {i} thorough",
    "technique": tech.get(i, "abstract interpretation of the SSA form against a specification"),
    "level": "other",
    "level_note": "Static: decided from the source on every run, for all inputs, without executing it; what the analysis cannot decide is reported as a violation. Trusts go/types and go/ssa, the analyser in engine/, its models of standard library functions, and the specifications in spec/.",
} for i in claimed]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NA.get(i, "not built yet")} for i in ids if i not in claimed],
    "notes": "See DESIGN.md. No hooks: the analysis reads the source as it is.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
