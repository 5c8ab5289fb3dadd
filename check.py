#!/usr/bin/env python3
"""Build the simulator against /repo's working tree, run a seeded campaign for
one property, gate/minimise/replay violations and write the evidence file.

  check.py <ID> quick|thorough       run the check of one property
  check.py --replay <file>           replay a violation file (exit 1 if it reproduces)
  check.py --build <ID>              only build
  check.py --setup                   build and run a short determinism probe
  check.py --selftest <ID> [n]       determinism self-test on n seeds
"""
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
CXX = "clang++-18"
JOBS = max(1, min(16, os.cpu_count() or 8))
LIBFLAGS = ["-std=c++17", "-O0", "-w", "-I" + os.path.join(SIM, "include"),
            "-I" + os.path.join(REPO, "include"),
            "-D_GLIBCXX_ASSERTIONS", "-DNESO_PARTICLES_HDF5", "-DRESTRICT=__restrict",
            "-DNESO_PARTICLES_VERSION_MAJOR=0", "-DNESO_PARTICLES_VERSION_MINOR=10",
            "-DNESO_PARTICLES_VERSION_PATCH=0",
            "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
            "-mllvm", "-tsan-instrument-atomics=0", "-fno-pie"]
COREFLAGS = ["-std=c++20", "-O2", "-w", "-I" + os.path.join(SIM, "include"), "-fno-pie"]


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def meta(pid):
    with open(os.path.join(SIM, "workloads", "meta.json")) as f:
        m = json.load(f)
    if pid not in m:
        die("unknown property " + pid)
    d = dict(m["_default"])
    d.update(m[pid])
    return d


def files_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def tree(d, exts):
    r = []
    for root, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(exts):
                r.append(os.path.join(root, f))
    return sorted(r)


def repo_sources(petsc):
    """The library's sources: what its build file lists, with or without the PETSc parts."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    listed = re.findall(r"\$\{SRC_DIR\}/([A-Za-z0-9_/]+\.cpp)", txt)
    src = [os.path.join(REPO, "src", s) for s in listed if petsc or "petsc" not in s]
    src = [s for s in dict.fromkeys(src) if os.path.exists(s)]
    if len(src) < 20:
        src = [s for s in tree(os.path.join(REPO, "src"), (".cpp",)) if petsc or "petsc" not in s]
    return src


def run_jobs(cmds):
    """Run compile commands in parallel; returns the first failure text."""
    running, fail = [], None
    cmds = list(cmds)
    while cmds or running:
        while cmds and len(running) < JOBS and fail is None:
            c = cmds.pop(0)
            running.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        if fail is not None:
            cmds = []
        nxt = []
        for c, p in running:
            if p.poll() is None:
                nxt.append((c, p))
                continue
            out = p.stdout.read().decode(errors="replace")
            if p.returncode != 0 and fail is None:
                fail = " ".join(c[-4:]) + "\n" + out[-3000:]
        running = nxt
        time.sleep(0.01)
    return fail


def build(pid):
    m = meta(pid)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    heads = tree(os.path.join(REPO, "include"), (".hpp", ".h"))
    simh = tree(os.path.join(SIM, "include"), (".hpp", ".h"))
    petsc = bool(m.get("petsc"))
    mode = "p" if petsc else "n"
    srcs = repo_sources(petsc)
    flags = LIBFLAGS + (["-DNESO_PARTICLES_PETSC"] if petsc else [])
    hh = files_hash(heads + simh, " ".join(flags))
    lh = files_hash(srcs, hh)
    ch = files_hash(simh + glob.glob(os.path.join(SIM, "*.cpp")) + glob.glob(os.path.join(SIM, "*.hpp")), " ".join(COREFLAGS))
    wl = os.path.join(SIM, "workloads", m["workload"] + ".cpp")
    parts = m.get("parts", [])
    pwl = {q: os.path.join(SIM, "workloads", meta(q)["workload"] + ".cpp") for q in parts}
    wh = files_hash([wl] + list(pwl.values()) + glob.glob(os.path.join(SIM, "workloads", "*.hpp")),
                    lh + ch + pid + ",".join(parts))
    exe = os.path.join(BUILD, "x-%s-%s" % (pid, wh))
    if os.path.exists(exe):
        lock.close()
        return exe
    for old in glob.glob(os.path.join(BUILD, "x-%s-*" % pid)):
        os.remove(old)
    # core objects (not instrumented)
    cdir = os.path.join(BUILD, "core-" + ch)
    stage1 = []
    cobjs = []
    for s in ("core", "mpi", "hdf5", "driver") + (("petsc",) if petsc else ()):
        o = os.path.join(cdir, s + ".o")
        cobjs.append(o)
        if not os.path.exists(o):
            stage1.append([CXX] + COREFLAGS + ["-c", os.path.join(SIM, s + ".cpp"), "-o", o])
    os.makedirs(cdir, exist_ok=True)
    # precompiled header of the library's public interface
    pch = os.path.join(BUILD, "np%s-%s.pch" % (mode, hh))
    if not os.path.exists(pch):
        for old in glob.glob(os.path.join(BUILD, "np%s-*.pch" % mode)):
            os.remove(old)
        stage1.append([CXX] + flags + ["-fpch-instantiate-templates", "-x", "c++-header",
                      os.path.join(REPO, "include", "neso_particles.hpp"), "-o", pch])
    f = run_jobs(stage1)
    if f:
        die("the simulation build failed: " + f)
    ldir = os.path.join(BUILD, "lib%s-%s" % (mode, lh))
    lib = os.path.join(ldir, "libnp.a")
    wobj = os.path.join(BUILD, "w-%s.o" % pid)
    stage2 = [[CXX] + flags + ["-include-pch", pch, "-DSIM_PROPERTY=\"%s\"" % pid, "-DSIM_" + pid]
              + (["-DSIM_PARTS=" + " ".join("X(%s)" % q for q in parts)] if parts else []) + ["-c", wl, "-o", wobj]]
    pobjs = []
    for q in parts:  # other workloads as parts of this one: own namespace, own oracle entry point
        o = os.path.join(BUILD, "w-%s-%s.o" % (pid, q))
        pobjs.append(o)
        stage2.append([CXX] + flags + ["-include-pch", pch, "-DSIM_PROPERTY=\"%s\"" % q, "-DSIM_" + q,
                      "-Dsimwl=simwl_" + q, "-Dviolation=oracle_violation", "-c", pwl[q], "-o", o])
    lobjs = []
    if not os.path.exists(lib):
        for old in glob.glob(os.path.join(BUILD, "lib%s-*" % mode)):
            shutil.rmtree(old)
        os.makedirs(ldir)
        for s in srcs:
            o = os.path.join(ldir, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            lobjs.append(o)
            stage2.append([CXX] + flags + ["-include-pch", pch, "-c", s, "-o", o])
        # big ones first
        stage2[1:] = sorted(stage2[1:], key=lambda c: -os.path.getsize(c[-3]))
    f = run_jobs(stage2)
    if f:
        die("the simulation build failed: " + f)
    if lobjs:
        subprocess.check_call(["ar", "rcs", lib] + lobjs)
        for o in lobjs:
            os.remove(o)
    f = run_jobs([[CXX, "-no-pie", "-o", exe + ".tmp", wobj] + pobjs + cobjs + [lib]])
    for o in [wobj] + pobjs:
        os.remove(o)
    if f:
        die("the simulation link failed: " + f)
    os.rename(exe + ".tmp", exe)
    lock.close()
    return exe


def clean_env():
    return {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C"}


def sim_run(exe, seed, run, sets=None, skips=None, trace=None, timeout=300):
    cmd = [exe, "run", "--seed", str(seed), "--run", str(run)]
    for k, v in (sets or {}).items():
        cmd += ["--set", "%s=%d" % (k, v)]
    if skips:
        cmd += ["--skip", ",".join(map(str, skips))]
    if trace:
        cmd += ["--trace", trace]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=clean_env(), timeout=timeout)
    try:
        return json.loads(p.stdout.decode())
    except Exception:
        die("a simulated run gave no result: %s %s" % (p.stdout[-300:], p.stderr[-300:]))


def vclass(msg):
    s = re.sub(r"\[.*", "", msg)
    s = re.sub(r"[-+]?\d+(\.\d+)?([eE][-+]?\d+)?", "#", s)
    return s[:70]


def parse_knobs(s):
    return {k: int(v) for k, v in (x.split("=") for x in s.split())}


KNOB_SIMPLE = [("sched_limit", 0), ("net_delay", 0), ("rendezvous", 0), ("late_coll", 0), ("stall", 0),
               ("rma_late", 0), ("reduce_order", 0), ("any_source", 0), ("host_yield", 0), ("preempt_mean", 0),
               ("atomic_preempt", 0), ("group_window", 1), ("task_conc", 1), ("task_mode", 0), ("in_order", 1),
               ("item_order", 0), ("poison", 0), ("clock_jump", 0), ("device_aware", 0), ("wg_max", 1024),
               ("local_mem", 65536), ("compute_units", 8), ("loop_local_size", 0), ("loop_nbin", 0),
               ("cpu_device", 0), ("nnodes", 1), ("nranks", 1), ("nranks", 2), ("nranks", 3),
               ("work_a", 0), ("work_b", 0), ("work_c", 0)]


def minimise(exe, v, budget):
    """Shrink knobs, operations and the randomised schedule prefix."""
    t0 = time.time()
    cls = vclass(v["msg"])
    base = parse_knobs(v["knobs"])
    sets, skips = {}, []

    def bad(s, k):
        r = sim_run(exe, v["seed"], v["run"], s, k)
        return r if r["status"] == "violation" and vclass(r["msg"]) == cls else None

    best = v
    for k, d in KNOB_SIMPLE:
        if time.time() - t0 > budget * 0.5:
            break
        curv = sets.get(k, base.get(k))
        if curv is None or curv == d or (k == "nranks" and curv <= d):
            continue
        t = dict(sets)
        t[k] = d
        r = bad(t, skips)
        if r:
            sets, best = t, r
    nops = best.get("nops", 0)
    chunk = max(1, nops // 2)
    ops = list(range(nops))
    while chunk >= 1 and time.time() - t0 < budget * 0.85:
        i, changed = 0, False
        while i < len(ops) and time.time() - t0 < budget * 0.85:
            cand = ops[:i] + ops[i + chunk:]
            sk = [o for o in range(nops) if o not in cand]
            r = bad(sets, sk)
            if r:
                ops, skips, best, changed = cand, sk, r, True
            else:
                i += chunk
        if chunk == 1 and not changed:
            break
        chunk = max(1, chunk // 2) if chunk > 1 else (1 if changed else 0)
    lo, hi = 1, None
    for lim in (1, 16, 128, 1024, 8192, 65536):
        if time.time() - t0 > budget:
            break
        t = dict(sets)
        t["sched_limit"] = lim
        r = bad(t, skips)
        if r:
            sets, best = t, r
            hi = lim
            break
        lo = lim
    while hi is not None and hi - lo > max(1, hi // 16) and time.time() - t0 < budget:
        mid = (lo + hi) // 2
        t = dict(sets)
        t["sched_limit"] = mid
        r = bad(t, skips)
        if r:
            sets, best, hi = t, r, mid
        else:
            lo = mid
    return sets, skips, best


def known_findings(pid):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", [])
            if k["property"] == pid and not k.get("fixed")]


def do_replay(path):
    r = json.load(open(path))
    exe = build(r["property"])
    x = sim_run(exe, r["seed"], r["run"], r["set"], r["skip"], r.get("trace_out"))
    same = x["status"] == "violation" and x["hash"] == r["hash"] and x["msg"] == r["msg"]
    print("replay: status=%s hash=%s (recorded %s)\n  %s" % (x["status"], x["hash"], r["hash"], x["msg"]))
    if same:
        print("reproduced exactly")
        return 1
    print("not reproduced" if x["status"] != "violation" else "violation, but a different history")
    return 0 if x["status"] != "violation" else 3


def determinism(exe, seed, n, span):
    """Same seeds in two fresh processes, in different orders and batch sizes."""
    rng = random.Random(seed * 7919 + 13)
    runs = sorted(rng.sample(range(max(span, n)), n))
    def batch(rs, jobs):
        out, ps, q = {}, [], list(rs)
        while q or ps:
            while q and len(ps) < jobs:
                r = q.pop()
                ps.append(subprocess.Popen([exe, "hashes", "--seed", str(seed), "--start", str(r), "--count", "1"],
                                           stdout=subprocess.PIPE, env=clean_env()))
            p = ps.pop(0)
            o = p.communicate()[0].decode().split()
            out[int(o[0])] = o[1:]
        return out
    a = batch(runs, JOBS)
    b = batch(list(reversed(runs)), 3)
    bad = [r for r in runs if a[r] != b[r]]
    return n, bad


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "--replay":
        sys.exit(do_replay(a[1]))
    if a[0] == "--setup":
        m = json.load(open(os.path.join(SIM, "workloads", "meta.json")))
        pid = sorted(k for k in m if not k.startswith("_"))[0]
        exe = build(pid)
        n, bad = determinism(exe, int(os.environ.get("VERIF_SEED", "1")), 8, 64)
        if bad:
            die("the simulation is not deterministic")
        print("setup ok: simulator builds and replays")
        return
    if a[0] == "--build":
        print(build(a[1]))
        return
    if a[0] == "--selftest":
        exe = build(a[1])
        n, bad = determinism(exe, int(os.environ.get("VERIF_SEED", "1")), int(a[2]) if len(a) > 2 else 200, 1 << 20)
        print("determinism: %d seeds, %d mismatches %s" % (n, len(bad), bad[:10]))
        sys.exit(2 if bad else 0)
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    m = meta(pid)
    print("check %s tier=%s seed=%d" % (pid, tier, seed), flush=True)
    exe = build(pid)
    t_build = time.time() - t0
    tl = m["quick_s"] if tier == "quick" else m["thorough_s"]
    if os.environ.get("SIM_TIME"):
        tl = float(os.environ["SIM_TIME"])
    work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, "c.json")
    cmd = [exe, "campaign", "--seed", str(seed), "--time", str(tl), "--jobs", str(JOBS), "--out", out, "--maxviol", "6"]
    if tier == "quick":
        cmd += ["--cpu", "45"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=clean_env())
    if p.returncode != 0:
        die("campaign failed: " + p.stderr.decode()[-500:])
    c = json.load(open(out))
    viol = [json.loads(l) for l in open(out + ".viol") if l.strip()]
    shutil.rmtree(work)
    if c["internal"] and not [v for v in viol if v["status"] == "violation"]:
        v = [v for v in viol if v["status"] == "internal"][0]
        die("%d runs ended without a verdict, e.g. run %d: %s" % (c["internal"], v["run"], v["msg"]))
    viol = sorted([v for v in viol if v["status"] == "violation"], key=lambda v: v["run"])
    known = known_findings(pid)
    seen_known, fresh = {}, []
    for v in viol:
        k = next((k for k in known if re.search(k["match"], v["msg"])), None)
        if k:
            seen_known[k["id"]] = k
        else:
            fresh.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc, reported = 0, []
    if fresh:
        classes = {}
        for v in fresh:
            classes.setdefault(vclass(v["msg"]), v)
        for cls, v in list(classes.items())[:2]:
            # gate: same seed, fresh process, same history
            r1 = sim_run(exe, v["seed"], v["run"])
            r2 = sim_run(exe, v["seed"], v["run"])
            if not (r1["status"] == r2["status"] == "violation" and r1["hash"] == r2["hash"] == v["hash"]):
                die("a violation did not replay identically (run %d): %s / %s / %s" % (v["run"], v["msg"], r1["msg"], r2["msg"]))
            sets, skips, best = minimise(exe, v, 25 if tier == "quick" else 120)
            rdir = os.environ.get("SIM_REPLAYS", os.path.join(HERE, "replays"))
            os.makedirs(rdir, exist_ok=True)
            base = os.path.join(rdir, "%s-s%d-r%d" % (pid, v["seed"], v["run"]))
            f1 = sim_run(exe, v["seed"], v["run"], sets, skips, base + ".trace")
            f2 = sim_run(exe, v["seed"], v["run"], sets, skips)
            if not (f1["status"] == "violation" and f1["hash"] == f2["hash"] and f1["msg"] == f2["msg"]):
                die("the minimised violation did not replay identically")
            with open(base + ".json", "w") as f:
                json.dump({"property": pid, "seed": v["seed"], "run": v["run"], "set": sets, "skip": skips,
                           "msg": f1["msg"], "hash": f1["hash"], "steps": f1["steps"], "nops": f1["nops"],
                           "knobs": f1["knobs"], "faults": {k: n for k, n in f1["faults"].items() if n},
                           "original": {"msg": v["msg"], "hash": v["hash"], "knobs": v["knobs"]},
                           "trace": base + ".trace",
                           "how": "python3 check.py --replay " + base + ".json"}, f, indent=1)
            print("  " + f1["msg"][:600])
            print("VIOLATION property=%s replay=%s.json" % (pid, base), flush=True)
            reported.append(base + ".json")
            rc = 1
    ndet, bad = determinism(exe, seed, m["determinism_quick"] if tier == "quick" else m["determinism_thorough"], max(1, c["runs"]))
    if bad and rc == 0:
        die("the simulation is not deterministic for runs %s" % bad[:5])
    # evidence
    runs = c["runs"]
    hours = max(c["wall_s"], 1e-3) / 3600
    faults = {k: {"fired": v[0], "runs": v[1]} for k, v in c["faults"].items() if v[0]}
    nontriv = c["distinct_interleavings"]
    samples = []
    for r in (0, 1, 2):
        x = sim_run(exe, seed, r)
        samples.append({"seed": seed, "run": r, "status": x["status"], "steps": x["steps"], "sim_us": x["sim_us"],
                        "history_hash": x["hash"], "knobs": x["knobs"].strip(), "counters": x["counters"],
                        "faults": {k: n for k, n in x["faults"].items() if n}})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": nontriv,
              "rule": "one evaluation = one simulated execution (seed,run) of the whole program with its own swarm configuration, generated history, schedule and faults; counted as distinct and non-trivial when the hash over its complete history (every submission, task start/finish, host switch, message match, plan and oracle observation) is new. " + m["rule"],
              "samples": samples,
              "runs_per_hour": int(runs / hours), "seeds_per_hour": int(runs / hours),
              "simulated_seconds": c["sim_us"] / 1e6, "scheduler_steps": c["steps"],
              "device_tasks": c["tasks"], "device_work_items": c["items"],
              "faults_injected": faults,
              "fault_kinds_not_fired": [k for k, v in c["faults"].items() if not v[0]],
              "distinct_interleavings": c["distinct_interleavings"],
              "distinct_states": c["distinct_states"],
              "state_measure": m["state_measure"],
              "completed_ok": c["ok"], "stopped_loudly_as_specified": c["aborted_acceptably"],
              "workload_counters": {k: {"total": v[0], "runs": v[1]} for k, v in c["counters"].items()},
              "determinism": {"seeds_run_twice_in_fresh_processes": ndet, "mismatches": len(bad)},
              "real_components": m["real"], "stubbed_components": m["stub"],
              "build_s": round(t_build, 1), "campaign_s": c["wall_s"],
              "known_findings_seen": sorted(seen_known), "replays": reported},
          "assumptions": m["assumptions"],
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    edir = os.environ.get("SIM_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs, %d distinct histories, %d violations, %.0f s" % (pid, runs, nontriv, len(fresh), time.time() - t0))
    sys.exit(rc)


if __name__ == "__main__":
    main()
