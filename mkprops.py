#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below. Run it after editing; the results are committed."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = "include/ode_num_int/"
PROPS, CLAIMS, NA = [], [], []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), note=None, na=None):
    assert len(title) <= 80, (pid, len(title))
    d = {"id": pid, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": text}, "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": [P + f if not f.startswith(("src/", "include/")) else f for f in files],
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": list(observe), "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": w} for a, b, w in state]
    PROPS.append(d)
    if na:
        NA.append({"property": pid, "reason": na})
    else:
        CLAIMS.append({"property": pid, "quick_cmd": "python3 check.py " + pid, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
                       "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration",
                       "level_note": " ".join(note.split())})


exec(open(os.path.join(HERE, "props.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d in PROPS:
        f.write(json.dumps(d) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py build", "checks": CLAIMS, "not_applicable": NA,
               "notes": "No hooks are needed in the repository: every seam is an interface of the library, the C library or the compiler. See DESIGN.md."}, f, indent=1)
    f.write("\n")
