#!/usr/bin/env python3
"""mut1.py FILE OLD NEW CHECK...: one hand-made change of a copy of /repo, run against checks"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import plant
f, old, new = sys.argv[1:4]; tmp = tempfile.mkdtemp(prefix="mut1_"); r = os.path.join(tmp, "r")
try:
    plant.copy(r); p = os.path.join(r, f if os.path.exists(os.path.join(r, f)) else "include/ode_num_int/" + f); s = open(p).read()
    assert s.count(old) == 1, "%d occurrences" % s.count(old)
    open(p, "w").write(s.replace(old, new))
    for c in sys.argv[4:]:
        rc, out = plant.sh("python3 check.py " + c, plant.HERE, {"VERIF_REPO": r, "VERIF_OUT": os.path.join(tmp, "out"), "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_EVIDENCE": os.path.join(tmp, "ev")})
        print(c, {0: "missed", 1: "CAUGHT"}.get(rc, "?"), "\n".join(out.splitlines()[:4])[:700], flush=True)
finally: shutil.rmtree(tmp)
