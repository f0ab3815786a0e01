#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = {}
exec(open(os.path.join(V, "manifest_notes.py")).read())
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [],
    "not_applicable": NA,
    "notes": "No hooks: the harness uses only the public API and as_slice()/label addresses. Each check builds /verif/harness against /repo's working tree in a debug-style and a release-style profile. Replay: python3 check.py --replay FILE.",
}
for p, (tech, note) in sorted(T.items()):
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
