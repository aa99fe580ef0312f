#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single place where properties are stated)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props
NA = getattr(props, "NA", {})
TECH = "stateless model checking of the real code under a controlled scheduler (all schedules within a preemption bound, all data choices, trace deduplication)"
SEQ = "exhaustive enumeration of bounded operation sequences / programs on the real code, compared with a reference model on every step"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in props.P:
        fh.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in props.P:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(ROOT, "harness", i.lower() + ".cpp")):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": SEQ if i in props.SEQUENTIAL else TECH, "level": "model_checking",
                       "level_note": props.NOTES.get(i, "bounds per scenario are in the evidence; sequentially consistent memory; no model, every execution is of the real code")})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the runtime compiles /repo/src unchanged with clang's thread-sanitizer instrumentation, whose callbacks it implements itself, and interposes pthread/libc."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in props.P:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
except ImportError:
    pass
print(len(props.P), "properties,", len(checks), "checks")
