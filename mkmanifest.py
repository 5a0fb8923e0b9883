#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
from props import PROPS
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
ASSUME = "Bounds per scenario are in the evidence file. Trusts the engine (scheduler, memory model, model POSIX system in /verif/engine) and clang's instrumentation. "
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [],
    "not_applicable": [],
    "notes": "Stateless model checking of the real code under /verif/engine (lmc). No hooks in /repo: the library is compiled unchanged with -fsanitize=thread instrumentation calls and linker wrapping of libc.",
}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": p.get("technique", "stateless model checking of the compiled code: exhaustive enumeration of a bounded choice tree"),
            "level": p["level"], "level_note": "Holds on every execution within the bounds. " + p["space"] + " " + ASSUME + " ".join(p.get("assumptions", []))})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
