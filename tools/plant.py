#!/usr/bin/env python3
"""Verifies planted bugs.  plant.py verify ID...   in a scratch copy of the repository: demo passes on the unchanged tree; with the patch the tree builds, the stable
tests pass and the demo fails; then runs the check of the property (quick tier) against the scratch copy. Prints one line per bug. plant.py new ID <file> (edits as JSON) makes patch.diff."""
import json, os, shutil, subprocess, sys, tempfile, time
import concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy(dst):
    os.makedirs(dst)
    sh("git -C /repo archive HEAD | tar x -C %s" % dst, "/")
    sh("git init -q . && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x", dst)


def new(bid, edits):
    d = os.path.join(SEEDED, bid); os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant_"); r = os.path.join(tmp, "r"); copy(r)
    for f, old, nw in edits:
        p = os.path.join(r, f); s = open(p).read()
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, nw))
    rc, out = sh("git diff", r)
    open(os.path.join(d, "patch.diff"), "w").write(out)
    shutil.rmtree(tmp)


def verify(bid, check=True, only=None, alone=True):
    d = os.path.join(SEEDED, bid); meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="plant_"); r = os.path.join(tmp, "r"); copy(r)
    dd = os.path.join(tmp, "demo"); shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    res = []
    try:
        rc, out = sh("bash %s/demo.sh" % dd, r, timeout=300)
        res.append("demo-clean=%s" % ("ok" if rc == 0 else "FAIL(%d)\n%s" % (rc, out[-2000:])))
        rc, out = sh("git apply %s/patch.diff" % d, r)
        if rc: res.append("APPLY FAILS " + out)
        if "--notests" not in sys.argv:
            rc, out = sh("cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_CXX_FLAGS=-Wno-error -DBUILD_ODE_NUM_INT_TESTS=ON -DBUILD_ODE_NUM_INT_DOCS=OFF "
                     "-DCMAKE_PROJECT_ode_num_int_tests_INCLUDE=/opt/vp/support/gtest_hook.cmake >/dev/null && ninja -C _b all", r, {"CC": "gcc", "CXX": "g++"})
            res.append("build=%s" % ("ok" if rc == 0 else "FAIL\n" + out[-3000:]))
            rc, out = sh("ninja -C _b vp_lu_fact >/dev/null && _b/bin/vp_lu_fact >/dev/null && _b/bin/ode_num_int_tests --gtest_filter='VectorTemplate.*'", r)
            res.append("tests=%s" % ("ok" if rc == 0 else "FAIL\n" + out[-1500:]))
        rc, out = sh("bash %s/demo.sh" % dd, r, timeout=300)
        res.append("demo-bug=%s" % ("fails" if rc != 0 else "PASSES?!"))
        res.append("(" + (out.strip().splitlines() or [""])[-1][:160] + ")")
        if check:
            for p in (only or [meta["property"]]):
                t = time.time()
                rc, out = sh("python3 check.py " + p, HERE, {"VERIF_REPO": r, "VERIF_OUT": os.path.join(tmp, "out"), "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_EVIDENCE": os.path.join(tmp, "ev")})
                v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                k = [l.strip() for l in out.splitlines() if l.startswith("  ")]
                res.append("%s:%s rc=%d %.0fs %s" % (p, "CAUGHT" if rc == 1 and any("property=" + p in x for x in v) else "missed", rc, time.time() - t, (k or [""])[0][:200]))
    finally:
        shutil.rmtree(tmp)
    return "%s [%s]: %s" % (bid, meta["property"], " ".join(res))


if __name__ == "__main__":
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    if sys.argv[1] == "verify":
        only = [a[8:].split(",") for a in sys.argv if a.startswith("--props=")]
        ids = args or sorted(os.listdir(SEEDED))
        with cf.ThreadPoolExecutor(2) as ex:
            for l in ex.map(lambda b: verify(b, "--nocheck" not in sys.argv, only[0] if only else None), ids):
                print(l, flush=True)
