#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
from checks import CHECKS
NA = {
 "N02": "Jzon is a pure single-threaded function of its input text; there is nothing for a simulator to schedule or break. Truncated and oversized requests reaching it through the socket are part of K01.",
 "N03": "live555 is not installed in this sandbox, so the receiver, transmitter and their task scheduler can neither be built nor run under a simulator.",
 "N04": "The decoders, the audio encoder and the demuxer are written against the FFmpeg 2.x interface, which this sandbox does not have (the installed headers refuse them, and the shipped build here leaves them out); they cannot be compiled, hence not simulated. The video encoders can and are V03.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
            "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)", "level": "exploration",
            "level_note": c.get("note") or ("Seeded sampling of schedules, delays and faults over the real code (" + ", ".join(c["real"]) + "); violations are replayed exactly and minimised. Not exhaustive.")})
    else: na.append({"property": i, "reason": NA.get(i, "check under construction: no check registered yet")})
groups = sorted({p["group"] for c in CHECKS.values() for p in c["parts"]})
m = {"version": 1, "setup_cmd": " && ".join("python3 tools/build.py %s" % g for g in groups), "checks": checks, "not_applicable": na}
if os.path.exists(V + "/hooks.json"): m["hooks"] = json.load(open(V + "/hooks.json"))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
