#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    "C11": "property-based testing: generated conditions, truth tables of the text against those asked for",
    "C22": "property-based testing: one invalid part injected anywhere into generated statements, must be refused",
    "C23": "model-based testing: generated histories of render/rebuild/allocate/collect, metamorphic oracle",
    "C24": "model-based testing: generated derivation trees of fragments and builders, each against its own specification",
    "C25": "property-based testing under the race detector: generated statements built and rendered by several goroutines",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECHNIQUE.get(p, "property-based testing (rapid): generated API programs, the text is read back by an independent reader and compared with the specified tree"),
        "level": "exploration",
        "level_note": "Random search over generated API programs with a fixed seed, shrinking and a replay file; no exhaustiveness. Trusts the query reader and the specifications in /verif/harness and the domain limits in DESIGN.md.",
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": []},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
