#!/usr/bin/env python3
"""Deterministic simulation driver.

  check.py ID            build the simulator of property ID from the current tree of the repository and explore
  check.py replay FILE   replay a violation (file written by an earlier check), event by event
  check.py build         build all simulators (setup)

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), VERIF_REPO (default /repo), VERIF_OUT (build directory)
"""
import concurrent.futures as cf
import hashlib, itertools, json, os, re, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", os.path.join(HERE, "build"))
SERIAL = itertools.count()
NPROC = min(8, os.cpu_count() or 1)
sys.path.insert(0, HERE)
from checks import CHECKS   # noqa: E402

ASAN = ("detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
        "max_malloc_fill_size=4096:quarantine_size_mb=16:malloc_context_size=6:handle_abort=0:")


def env(fill=0xBE):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN + "malloc_fill_byte=%d" % fill
    e["LC_ALL"] = "C"
    e.pop("LD_PRELOAD", None)
    return e


def build(prog, quiet=False):
    """Builds the simulator from the working tree of the repository; returns path"""
    c = CHECKS[prog]
    prog = c.get("prog", prog)
    out = os.path.join(OUT, "strict" if c.get("defs") else "common")
    os.makedirs(out, exist_ok=True)
    cmd = ["make", "-s", "-j%d" % NPROC, "-C", os.path.join(HERE, "sim"), "REPO=" + REPO, "OUT=" + out, "PROG=" + prog.lower(),
           "MODS=" + c.get("mods", "world reg_alg reg_ode reg_com")]
    if c.get("defs"):
        cmd.append("DEFS=" + c["defs"])
    if c.get("extra"):
        cmd.append("EXTRA=" + c["extra"])
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("ERROR: the simulator of %s cannot be built from %s" % (prog, REPO))
        sys.exit(2)
    if not quiet:
        print("built the simulator of %s from %s in %.1f s" % (prog, REPO, time.time() - t))
    return os.path.join(out, "sim_" + prog.lower())


def crash_kind(rc, err):
    m = re.search(r"AddressSanitizer: ([\w-]+)", err)
    if m:
        return "memory-error:" + m.group(1)
    if "SIM-HANG" in err:
        return "hang"
    m = re.search(r"Assertion [`'\"](.*?)' failed", err, re.S)
    if m:
        return "assertion"
    if "terminate called" in err:
        return "terminate"
    if rc < 0:
        return "signal:%s" % signal.Signals(-rc).name
    return "exit:%d" % rc


def crash_msg(err):
    lines = [l for l in err.splitlines() if l.strip()]
    keep = [l for l in lines if re.search(r"ERROR: AddressSanitizer|Assertion|terminate called|what\(\)|SIM-HANG|SUMMARY|^\s+#[0-9] .*ode_num_int", l)]
    return " | ".join(x.strip() for x in (keep or lines)[:6])[:1500]


def replay(exe, sid, choices, scratch, fill=0xBE, verbose=False):
    """Replays choices in a fresh process; returns (outcome, kind, msg, hash, text)"""
    path = os.path.join(scratch, "r%d_%d" % (os.getpid(), next(SERIAL)))
    with open(path, "w") as f:
        f.write(" ".join(map(str, choices)))
    try:
        r = subprocess.run([exe, "replay", sid, path] + (["-v"] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=env(fill), cwd=scratch, timeout=120)
    except subprocess.TimeoutExpired:
        return ("violation", "hang", "timeout", "", "")
    finally:
        os.unlink(path)
    out, err = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    if r.returncode != 0:
        return ("violation", crash_kind(r.returncode, err), crash_msg(err), "", out + err)
    m = re.search(r"^RESULT (\w+) hash=(\w+) choices=(\d+)(?: kind=(\S+) msg=(.*))?$", out, re.M | re.S)
    if not m:
        return ("error", "no-result", out[-300:], "", out)
    return (m.group(1), m.group(4), (m.group(5) or "").strip(), m.group(2), out)


def shrink(exe, sid, choices, kind, scratch, limit):
    """Minimises the list of choices that leads to a violation of the same kind"""
    t0 = time.time()
    tried = 0
    best = list(choices)
    while best and best[-1] == 0:
        best.pop()
    pool = cf.ThreadPoolExecutor(NPROC)

    def ok(c):
        r = replay(exe, sid, c, scratch)
        return r[0] == "violation" and r[1] == kind

    def first(cands):
        nonlocal tried
        for i in range(0, len(cands), NPROC):
            if time.time() - t0 > limit:
                return None
            batch = cands[i:i + NPROC]
            tried += len(batch)
            for c, good in zip(batch, pool.map(ok, batch)):
                if good:
                    return c
        return None
    improved = True
    while improved and time.time() - t0 < limit:
        improved = False
        # cut the tail
        n = len(best)
        cands = [best[:k] for k in sorted({n // 8, n // 4, n // 2, 3 * n // 4, n - 1}) if 0 <= k < n]
        c = first(cands)
        if c is not None:
            best = c; improved = True
        # delete or zero blocks
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() - t0 < limit:
            i = 0
            while i < len(best) and time.time() - t0 < limit:
                cands = []
                for j in range(i, min(len(best), i + 4 * size), size):
                    blk = best[j:j + size]
                    cands.append(best[:j] + best[j + size:])
                    if any(blk):
                        cands.append(best[:j] + [0] * len(blk) + best[j + size:])
                c = first(cands)
                if c is not None:
                    while c and c[-1] == 0:
                        c = c[:-1]
                    if c == best:
                        i += 4 * size
                        continue
                    best = c; improved = True
                else:
                    i += 4 * size
            size //= 2
        # reduce values
        i = 0
        while i < len(best) and time.time() - t0 < limit:
            if best[i] > 0:
                cands = [best[:i] + [v] + best[i + 1:] for v in sorted({best[i] // 2, best[i] - 1}) if v < best[i]]
                c = first(cands)
                if c is not None:
                    best = c; improved = True
                    continue
            i += 1
    pool.shutdown()
    return best, tried


def load_known(pid):
    """finding lines: finding: property=ID kind=KIND match=/REGEX/ DESCRIPTION"""
    res = []
    path = os.path.join(HERE, "KNOWN-FINDINGS.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=/(.*?)/ (.*)$", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), re.compile(m.group(3), re.S), m.group(4)))
    return res


class Worker:
    def __init__(self, exe, sid, seed, w, count, seconds, scratch):
        self.exe, self.sid, self.seed, self.w, self.count, self.scratch = exe, sid, seed, w, count, scratch
        self.deadline = time.time() + seconds
        self.results, self.viol, self.parts, self.sample_err = [], None, 0, ""

    def run(self, known):
        frm = self.w
        while frm < self.count and time.time() < self.deadline:
            self.parts += 1
            out = os.path.join(self.scratch, "%s_o%d_%d.json" % (self.sid, self.w, self.parts))
            shm = os.path.join(self.scratch, "%s_s%d_%d" % (self.sid, self.w, self.parts))
            r = subprocess.run([self.exe, "run", self.sid, str(self.seed), str(frm), str(NPROC), str(self.count),
                                "%.1f" % max(0.1, self.deadline - time.time()), out, shm],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), cwd=self.scratch)
            err = r.stderr.decode(errors="replace")
            if r.returncode == 0 and os.path.exists(out):
                d = json.load(open(out))
                os.unlink(out); os.unlink(shm)
                self.results.append(d)
                v = d.get("violation")
                if not v:
                    return
                v = dict(index=v["index"], kind=v["kind"], msg=v["msg"], choices=v["choices"], hash=v["hash"])
            else:
                import struct
                b = open(shm, "rb").read()
                os.unlink(shm)
                idx, _, n, _ = struct.unpack("<4Q", b[:32])
                v = dict(index=idx, kind=crash_kind(r.returncode, err), msg=crash_msg(err), hash="",
                         choices=list(struct.unpack("<%dI" % n, b[32:32 + 4 * n])))
                self.results.append(dict(runs=max(0, (idx - frm) // NPROC + 1), crashed=True))
            k = match_known(known, v["kind"], v["msg"])
            if k is None:
                self.viol = v
                return
            known_hits.add(k)
            frm = v["index"] + NPROC


known_hits = set()


def match_known(known, kind, msg):
    for kk, rx, desc in known:
        if kk == kind and rx.search(msg or ""):
            return desc
    return None


def merge(results):
    t = dict(runs=0, discarded=0, faulty=0, choices=0, steps=0, simtime=0.0, wall=0.0, faults={}, probes={}, hashes=[])
    shapes, nontriv = set(), set()
    traces = 0
    for d in results:
        for k in ("runs", "discarded", "faulty", "choices", "steps", "simtime", "wall"):
            t[k] += d.get(k, 0)
        for k in ("faults", "probes"):
            for n, v in d.get(k, {}).items():
                t[k][n] = t[k].get(n, 0) + v
        shapes.update(d.get("shapes", [])); nontriv.update(d.get("nontrivial", []))
        traces += d.get("traces", 0)
        t["hashes"] += d.get("hashes", [])
    t["shapes"], t["nontrivial"], t["traces"] = len(shapes), len(nontriv), traces
    return t


def seed_run(exe, sid, seed, index, scratch, fill=0xBE, verbose=False):
    r = subprocess.run([exe, "seed", sid, str(seed), str(index)] + (["-v"] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=env(fill), cwd=scratch)
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")


def check(pid):
    c = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = os.path.join(OUT, "run_%s_%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        return check_in(pid, c, tier, seed, t0, scratch)
    finally:
        subprocess.run(["rm", "-rf", scratch])


def check_in(pid, c, tier, seed, t0, scratch):
    exe = build(pid)
    known = load_known(pid)
    scen = c.get("scenarios") or [(pid, c["runs"])]
    results, viol, gate_checked, gate_bad = {}, None, 0, []
    thorough = tier == "thorough"
    mult = c.get("thorough", 30) if thorough else 1
    for sid, runs in scen:
        count = runs * mult
        seconds = (c.get("seconds", 60) if not thorough else c.get("seconds_thorough", 1500)) / len(scen)
        ws = [Worker(exe, sid, seed, w, count, seconds, scratch) for w in range(NPROC)]
        with cf.ThreadPoolExecutor(NPROC) as pool:
            list(pool.map(lambda w: w.run(known), ws))
        results[sid] = merge([r for w in ws for r in w.results])
        vs = [w.viol for w in ws if w.viol]
        # Determinism gate: some executions again, in fresh processes and with another fill pattern of fresh memory
        hs = results[sid]["hashes"]
        hs = hs[::max(1, len(hs) // (48 if thorough else 16))]

        def again(h):
            rc, out, err = seed_run(exe, sid, seed, h[0], scratch, 0x5A)
            m = re.search(r"^RESULT \w+ hash=(\w+)", out, re.M)
            return (h, m.group(1) if m else "rc=%d" % rc)
        if not vs:
            with cf.ThreadPoolExecutor(NPROC) as pool:
                for h, g in pool.map(again, hs):
                    gate_checked += 1
                    if g != h[1]:
                        gate_bad.append((sid, h[0], h[1], g))
        for v in sorted(vs, key=lambda v: (len(v["choices"]), v["index"])):
            a = replay(exe, sid, v["choices"], scratch)
            b = replay(exe, sid, v["choices"], scratch)
            if a[0] == "violation" and a[1] == v["kind"] and a[:4] == b[:4] if a[3] else (a[0] == b[0] == "violation" and a[1] == b[1] == v["kind"]):
                viol = (sid, v)
                break
            print("UNREPRODUCED: seed %d run %d of %s: %s %s; fresh process: %s %s / %s %s" % (seed, v["index"], sid, v["kind"], v["msg"][:300], a[0], a[1], b[0], b[1]))
        if viol:
            break
    if not viol and gate_bad:
        if c.get("determinism"):
            sid, i, h1, h2 = gate_bad[0]
            viol = (sid, dict(index=i, kind="not-deterministic", msg="run %d of seed %d has event hash %s, and %s in a fresh process with other contents of fresh memory" % (i, seed, h1, h2), choices=None, hash=h1))
        else:
            print("WARNING: %d of %d executions repeated in fresh processes differ: %s" % (len(gate_bad), gate_checked, gate_bad[:3]))
    rpath = None
    if viol:
        sid, v = viol
        tried = 0
        if v["choices"] is not None:
            best, tried = shrink(exe, sid, v["choices"], v["kind"], scratch, 120 if thorough else 45)
            r = replay(exe, sid, best, scratch)
            r2 = replay(exe, sid, best, scratch)
            if not (r[0] == "violation" and r[1] == v["kind"] and r[3] == r2[3]):
                best = v["choices"]
                r = replay(exe, sid, best, scratch)
            trace = replay(exe, sid, best, scratch, verbose=True)[4].splitlines()
            kd = match_known(known, r[1], r[2])
            if kd:
                known_hits.add(kd)
        else:
            best, r, trace = None, ("violation", v["kind"], v["msg"], v["hash"], ""), []
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        rpath = os.path.join(OUT, "replays", "%s-%d-%d.json" % (pid, seed, v["index"]))
        json.dump(dict(property=pid, scenario=sid, seed=seed, run=v["index"], kind=r[1], message=r[2], hash=r[3], choices=best,
                       original_choices=v["choices"], shrink_attempts=tried, trace=trace[-400:]), open(rpath, "w"), indent=1)
    for k in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    # ---- evidence
    tot = dict(runs=0, discarded=0, faulty=0, choices=0, steps=0, simtime=0.0, shapes=0, nontrivial=0, traces=0, wall=0.0)
    faults, probes = {}, {}
    for sid, t in results.items():
        for k in tot:
            tot[k] += t[k]
        for n, k in t["faults"].items():
            faults[n] = faults.get(n, 0) + k
        for n, k in t["probes"].items():
            probes[n] = probes.get(n, 0) + k
    samples = []
    for sid, _ in scen[:2]:
        for i in (0, 5):
            rc, out, err = seed_run(exe, sid, seed, i, scratch, verbose=True)
            lines = out.splitlines()
            samples.append(dict(scenario=sid, seed=seed, run=i, trace=(lines if len(lines) < 40 else lines[:25] + ["..."] + lines[-10:])))
    wall = time.time() - t0
    cov = dict(
        evaluations=tot["runs"], distinct_nontrivial=tot["nontrivial"],
        rule=c["rule"], samples=samples,
        runs_with_injected_faults=tot["faulty"], discarded_runs=tot["discarded"],
        seeds_per_hour=int(tot["runs"] / max(wall, 1e-9) * 3600), runs_per_cpu_hour=int(tot["runs"] / max(tot["wall"], 1e-9) * 3600),
        simulated_time=tot["simtime"], simulated_time_unit=c.get("time_unit", "model seconds integrated by the solvers under test"),
        simulator_events=tot["steps"], scheduler_choices=tot["choices"],
        faults_fired=faults, probes=probes,
        distinct_event_sequences=tot["shapes"],
        distinct_event_sequences_measure="number of different sequences of event kinds (fault kinds, callback points, outcomes), values ignored",
        distinct_traces=tot["traces"],
        determinism_gate=dict(executions_repeated_in_fresh_processes=gate_checked, differing=len(gate_bad)),
        real_components=c["real"], stub_components=c["stub"],
        per_scenario={s: dict(runs=t["runs"], nontrivial=t["nontrivial"], wall_cpu_s=round(t["wall"], 1)) for s, t in results.items()})
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=c.get("assumptions", []), violations=1 if viol else 0, wall_s=round(wall, 2))
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in c.get("expect_probes", []):
        if not probes.get(p) and not viol:
            print("WARNING: probe '%s' has not been reached" % p)
    for p in c.get("expect_faults", []):
        if not faults.get(p) and not viol:
            print("WARNING: fault '%s' has not been injected" % p)
    print("%s: %d runs (%d with faults, %d discarded), %d distinct non-trivial, %d fault kinds injected %d times, %.1f s" % (
        pid, tot["runs"], tot["faulty"], tot["discarded"], tot["nontrivial"], len(faults), sum(faults.values()), wall))
    if viol:
        print("  %s: %s" % (r[1], r[2]))
        print("  seed %d run %d, %s choices (minimised from %s)" % (seed, viol[1]["index"], best and len(best), viol[1]["choices"] and len(viol[1]["choices"])))
        print("VIOLATION property=%s replay=%s" % (pid, rpath))
        return 1
    return 0


def do_replay(path):
    d = json.load(open(path))
    exe = build(d["property"])
    scratch = os.path.join(OUT, "run_replay_%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    try:
        if d["choices"] is None:
            a = [seed_run(exe, d["scenario"], d["seed"], d["run"], scratch, f)[1] for f in (0xBE, 0x5A)]
            print("\n".join(a))
            return 1 if a[0] != a[1] else 0
        r = replay(exe, d["scenario"], d["choices"], scratch, verbose=True)
    finally:
        subprocess.run(["rm", "-rf", scratch])
    print(r[4])
    same = r[0] == "violation" and r[1] == d["kind"] and r[3] == d["hash"]
    print("replay: %s %s hash=%s (recorded: %s hash=%s) -> %s" % (r[0], r[1], r[3], d["kind"], d["hash"], "reproduced exactly" if same else "DIFFERENT"))
    if r[0] == "violation":
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "build":
        for p in CHECKS:
            build(p)
        return 0
    if sys.argv[1] == "replay":
        return do_replay(sys.argv[2])
    return check(sys.argv[1])


if __name__ == "__main__":
    sys.exit(main())
