#!/usr/bin/env python3
"""check.py <property>: decides one property by seeded simulation. Exit 0 held, 1 violated, 2 error of the check."""
import json, os, shutil, subprocess, sys, tempfile, time
import build as B

VERIF = B.VERIF
PA = ("plain",) * 6 + ("asan",) * 2  # most runs without sanitizers (cheap processes), a share with them
PROPS = {  # property: (build of each worker, quick runs, thorough runs, quick wall cap, thorough wall cap)
    "C01": (PA, 12000, 400000, 100, 1800),
    "C02": (PA, 12000, 400000, 100, 1800),
    "C03": (PA, 6000, 200000, 100, 1800),
    "C04": (PA, 12000, 400000, 100, 1800),
    "C05": (PA, 12000, 400000, 100, 1800),
    "C06": (("asan",), 16000, 400000, 100, 1800),
    "C07": (PA, 12000, 400000, 100, 1800),
    "C08": (("thr",), 16000, 400000, 100, 1800),
    "C09": (("thr",), 16000, 400000, 100, 1800),
    "C10": (PA, 40000, 1000000, 100, 1800),
    "C11": (PA, 40000, 1000000, 100, 1800),
    "C12": (PA, 12000, 400000, 100, 1800),
    "C13": (PA, 24000, 800000, 100, 1800),
}
RULES = json.load(open(os.path.join(VERIF, "rules.json")))
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:quarantine_size_mb=4",
           UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C", LOCPATH=os.path.join(VERIF, "locale"))


def known(prop):
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s class=" % prop):
                r.append(l.split("class=", 1)[1].strip())
    return r


def replay(exe, plan, scratch):
    r = subprocess.run([exe, "replay", "--file", plan, "--scratch", scratch], capture_output=True, text=True, env=ENV, timeout=600)
    for l in r.stdout.splitlines():
        if l.startswith("outcome "):
            st, cls, h, det = (l[8:].split(" | ", 3) + ["", "", ""])[:4]
            return st.strip(), cls.strip(), h.strip(), det.strip()
    return "error", "", "", r.stderr[-500:]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    confs, qr, tr, qw, tw = PROPS[prop]
    runs, cap = (qr, qw) if tier == "quick" else (tr, tw)
    runs = int(os.environ.get("SIM_RUNS", runs))
    cap = float(os.environ.get("SIM_WALL", cap))
    workers = int(os.environ.get("SIM_WORKERS", min(8, os.cpu_count() or 8)))
    t0 = time.time()
    try:
        exes = {c: B.build(c) for c in dict.fromkeys(confs)}
    except B.BuildError as e:
        print("ERROR build failed:", e)
        return 2
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="libnurbs-sim-")
    try:
        return explore(prop, tier, seed, confs, exes, runs, cap, workers, tmp, t0, tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore(prop, tier, seed, confs, exes, runs, cap, workers, tmp, t0, tb):
    conf_of = lambda run: confs[run % workers % len(confs)]
    ignore = known(prop)
    procs = []
    t1 = time.time()
    for w in range(workers):
        sc = os.path.join(tmp, "s%d" % w)
        os.makedirs(sc)
        procs.append(subprocess.Popen([exes[conf_of(w)], "explore", "--prop", prop, "--seed", str(seed), "--from", str(w), "--stride", str(workers), "--to", str(runs),
                                       "--wall", str(cap), "--scratch", sc, "--ignore", ";".join(ignore), "--out", os.path.join(tmp, "o%d" % w)],
                                      env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    bad = []
    for w, p in enumerate(procs):
        _, err = p.communicate()
        if p.returncode:
            bad.append("worker %d exit %d %s" % (w, p.returncode, err[-300:]))
    wall = time.time() - t1
    tot = dict(runs=0, events=0, discards=0, nontrivial=0)
    stats, sigs, samples, viols, kn = {}, set(), [], [], {}
    for w in range(workers):
        lines = open(os.path.join(tmp, "o%d" % w), errors="replace").read().splitlines()
        if not lines or lines[-1] != "done":
            bad.append("worker %d incomplete" % w)
        for l in lines:
            k, _, v = l.partition(" ")
            if k in tot:
                tot[k] += int(v)
            elif k == "stat":
                n, _, name = v.partition(" ")
                stats[name] = stats.get(name, 0) + int(n)
            elif k == "sig":
                sigs.add(v)
            elif k == "sample" and len(samples) < 4:
                samples.append(v)
            elif k == "viol":
                n, _, rest = v.partition(" ")
                viols.append((int(n), rest))
            elif k == "known":
                kn[v] = kn.get(v, 0) + 1
    if bad:
        print("ERROR", "; ".join(bad))
        return 2
    # determinism sample: the same runs in two more processes, event hashes compared
    det, nondet = 0, []
    if not viols:
        n = min(48, runs)
        ps = []
        for k in range(2):
            sc = os.path.join(tmp, "d%d" % k)
            os.makedirs(sc)
            ps.append(subprocess.Popen([exes[confs[0]], "hash", "--prop", prop, "--seed", str(seed), "--to", str(n), "--scratch", sc, "--wall", "60",
                                        "--out", os.path.join(tmp, "h%d" % k)], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        for p in ps:
            p.wait()
        a, b = ([l for l in open(os.path.join(tmp, "h%d" % k)).read().splitlines() if l != "done"] for k in range(2))
        m = min(len(a), len(b))
        det = m
        if a[:m] != b[:m]:
            # no violation, but the code under test does not run the same twice: said here and in the evidence
            nondet = [x for x, y in zip(a, b) if x != y]
            print("WARNING event hashes differ between processes in %d of %d runs: %s" % (len(nondet), m, nondet[:3]))
    level = "exploration"
    isf = lambda k: k.startswith(("fault ", "process death", "cuts", "damage", "locale"))
    faults = {k[6:] if k.startswith("fault ") else k: v for k, v in sorted(stats.items()) if isf(k)}
    other = {k: v for k, v in sorted(stats.items()) if not isf(k)}
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=tot["runs"], distinct_nontrivial=len(sigs), rule=RULES[prop], samples=samples,
                            nontrivial_runs=tot["nontrivial"], discarded_runs=tot["discards"], simulated_events=tot["events"],
                            runs_per_hour=int(tot["runs"] / max(wall, 1e-3) * 3600), seeds_per_hour=int(tot["runs"] / max(wall, 1e-3) * 3600),
                            simulated_time="none: the library has no clock; progress is counted in events", faults_injected=faults, probes=other,
                            determinism_runs_compared=det, determinism_differences=len(nondet), workers=workers, build=list(confs),
                            real_code=["all of /repo/src and /repo/include, built from the working tree", "libc++ streams, containers and locales", "glibc stdio buffering", "Eigen"],
                            stubbed=["stream buffers handed to the library", "storage below stdio (real scratch files, faults injected at write/read/open/close)", "allocator decisions (refusals)"]
                            + (["thread scheduler and synchronisation primitives (real threads, one released at a time)"] if confs[0] == "thr" else [])),
              assumptions=["sampled, not exhaustive", "one seed is one exactly repeatable run; a subset is re-run and compared on every check"],
              wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=0)
    rc = 0
    for c, n in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, c, n))
    if viols:
        rc, path, info = confirm(prop, seed, exes, conf_of, sorted(viols), tmp)
        ev["violations"] = len(viols)
        ev["coverage"]["violation"] = info
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 1:
        print("violated:", info["class"], "|", info["detail"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif rc == 2:
        print("ERROR a violation did not reproduce:", info)
    else:
        print("held: property=%s runs=%d distinct=%d events=%d wall=%.1fs (build %.1fs)" % (prop, tot["runs"], len(sigs), tot["events"], time.time() - t0, tb))
    return rc


def confirm(prop, seed, exes, conf_of, viols, tmp):
    """Replays a violation in fresh processes, minimises it and writes the replay file."""
    last = None
    sc = os.path.join(tmp, "c")
    os.makedirs(sc)
    # first pass: same class and same event hash twice; second pass (code that does not run the same twice): same class twice
    for run, rest, exact in [(r, s, True) for r, s in viols[:8]] + [(r, s, False) for r, s in viols[:8]]:
        exe = exes[conf_of(run)]
        p0 = os.path.join(tmp, "plan0")
        with open(p0, "w") as f:
            subprocess.run([exe, "plan", "--prop", prop, "--seed", str(seed), "--run", str(run)], stdout=f, env=ENV, check=True)
        a, b = replay(exe, p0, sc), replay(exe, p0, sc)
        last = dict(run=run, first=a, second=b, reported=rest)
        if a[0] != "viol" or a[:3 if exact else 2] != b[:3 if exact else 2]:
            continue
        best = p0
        p1 = os.path.join(tmp, "plan1")
        try:
            m = subprocess.run([exe, "min", "--file", p0, "--out", p1, "--scratch", sc, "--budget", "400"], capture_output=True, text=True, env=ENV, timeout=180)
            if m.returncode == 0:
                c, d = replay(exe, p1, sc), replay(exe, p1, sc)
                if c[0] == "viol" and c[:3] == d[:3] and c[1] == a[1]:
                    best, a = p1, c
        except subprocess.TimeoutExpired:
            pass
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-seed%d-run%d.plan" % (prop, seed, run))
        text = open(best).read()
        with open(path, "w") as f:
            f.write(text + "# violated: %s\n# detail: %s\n# event hash: %s\n# build: %s\n# replay: python3 /verif/check.py --replay %s\n" % (a[1], a[3], a[2], conf_of(run), path))
        return 1, path, {"run": run, "replays_exactly": exact, "class": a[1], "detail": a[3], "event_hash": a[2], "steps": text.count("\nstep ")}
    return 2, None, last


def do_replay(path):
    prop = [l.split()[1] for l in open(path) if l.startswith("prop ")][0]
    conf = [l.split()[2] for l in open(path) if l.startswith("# build:")]
    exe = B.build(conf[0] if conf else PROPS[prop][0][0])
    tmp = tempfile.mkdtemp(prefix="libnurbs-sim-")
    try:
        r = subprocess.run([exe, "replay", "--file", path, "--scratch", tmp, "--trace", "1"], env=ENV)
        return r.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(do_replay(sys.argv[2]))
    sys.exit(main())
