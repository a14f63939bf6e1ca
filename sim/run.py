#!/usr/bin/env python3
"""Builds a driver from /repo's working tree and runs its seeded simulations.

  run.py ID [--tier quick|thorough]      check property ID
  run.py ID --replay FILE                replay a violation
  run.py --build [ID ...]                build only
"""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4

INCS = ["common", "common/data", "physics", "physics/electromagnetics",
        "physics/fluidflow", "physics/thermal", "utils", "utils/mesh_warper"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def props():
    sys.dont_write_bytecode = True
    sys.path.insert(0, SIM)
    import catalog
    return {"skip_sources": catalog.SKIP, "props": catalog.P}


# ------------------------------------------------------------------- building
def build_dir():
    d = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, ".build")
    os.makedirs(d, exist_ok=True)
    return d


def driver_sources(drv):
    """the `// SOURCES:` line of a driver: repository sources it links"""
    with open(os.path.join(SIM, "drivers", drv + ".cpp")) as f:
        m = re.search(r"//\s*SOURCES:(.*)", f.read())
    return m.group(1).split() if m else ["ALL"]


def repo_sources(skip):
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for fn in sorted(files):
            if fn.endswith(".cpp"):
                out.append(os.path.relpath(os.path.join(root, fn), os.path.join(REPO, "src")))
    return [s for s in sorted(out) if not any(re.search(k, s) for k in skip)]


def build(drivers, everything=False):
    # two builds in one directory at once would lose each other's dependencies
    with open(os.path.join(build_dir(), "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(drivers, everything)


def build_locked(drivers, everything):
    cfg = props()
    bd = build_dir()
    inc = os.path.join(bd, "mfemh")
    mk = os.path.join(SIM, "tools", "mkmfem.py")
    stamp = os.path.join(bd, "mfemh.stamp")
    want = hashlib.sha1(open(mk, "rb").read()).hexdigest()
    if not os.path.exists(stamp) or open(stamp).read() != want:
        if os.path.isdir(inc):
            shutil.rmtree(inc)
        subprocess.run([sys.executable, mk, inc], check=True, stdout=subprocess.DEVNULL)
        with open(os.path.join(inc, "sim_pch.hpp"), "w") as f:
            f.write('#include "mfem.hpp"\n')
        open(stamp, "w").write(want)
    base = ["-std=c++17", "-O1", "-g", "-DNDEBUG", "-w", "-DOMPI_SKIP_MPICXX", "-DMISO_VERIF_SIM"]
    base += ["-I" + inc, "-I" + os.path.join(SIM, "stubs"), "-I" + os.path.join(SIM, "core"), "-I" + os.path.join(SIM, "drivers")]
    base += ["-I" + os.path.join(REPO, "src", i) for i in INCS]
    base += ["-isystem", "/usr/include/hypre", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include"]
    n = ["cxxflags = " + " ".join(base), "builddir = " + bd,
         "rule pch", "  command = g++ $cxxflags -x c++-header $in -o $out",
         "rule cc", "  command = g++ $cxxflags -include sim_pch.hpp -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ccd", "  command = g++ $cxxflags -fno-access-control -include sim_pch.hpp -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ccnp", "  command = g++ $cxxflags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ar", "  command = rm -f $out && ar rcsT $out $in",
         "rule ld", "  command = g++ -rdynamic -o $out $in -lmfem -lHYPRE -ldl "
         "/usr/lib/x86_64-linux-gnu/libmpi_cxx.so.40 /usr/lib/x86_64-linux-gnu/libmpi.so",
         "build %s/sim_pch.hpp.gch: pch %s/sim_pch.hpp" % (inc, inc)]
    gch = inc + "/sim_pch.hpp.gch"
    objs = {}

    def obj(src, rule):
        if src not in objs:
            o = os.path.join(bd, "o", src.strip("/").replace("/", "_") + ".o")
            objs[src] = o
            n.append("build %s: %s %s%s" % (o, rule, src, " | " + gch if rule != "ccnp" else ""))
        return objs[src]

    core = [obj(os.path.join(SIM, "core", f), "ccnp") for f in ("sim.cpp", "simmpi.cpp", "simfs.cpp", "simmfem.cpp")]
    lib = None
    targets = []
    for d in drivers:
        srcs = ["ALL"] if everything else driver_sources(d)
        extra = []
        link = [obj(os.path.join(SIM, "drivers", d + ".cpp"), "ccd")] + core
        if srcs == ["ALL"]:
            if lib is None:
                lib = os.path.join(bd, "libmiso.a")
                n.append("build %s: ar %s" % (lib, " ".join(
                    obj(os.path.join(REPO, "src", s), "cc") for s in repo_sources(cfg["skip_sources"]))))
            extra = [lib]
        else:
            link += [obj(os.path.join(REPO, "src", s), "cc") for s in srcs if s != "NONE"]
        exe = os.path.join(bd, "drv_" + d)
        n.append("build %s: ld %s %s" % (exe, " ".join(link), " ".join(extra)))
        targets.append(exe)
    nf = os.path.join(bd, "build.ninja" if len(drivers) != 1 else drivers[0] + ".ninja")
    txt = "\n".join(n) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    t0 = time.time()
    p = subprocess.run(["ninja", "-f", nf, "-j", str(NPROC)] + targets, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        if not everything and any(driver_sources(d) != ["ALL"] for d in drivers):
            # the sources a driver names may need others by now
            return build_locked(drivers, True)
        log(p.stdout[-3000:])
        raise SystemExit(2)
    log("built %s in %.1f s" % (",".join(drivers), time.time() - t0))
    return targets


# -------------------------------------------------------------------- running
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C")
ENV.pop("SIM_REEXEC", None)


def read_lines(path):
    out = []
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for ln in f:
            ln = ln.strip()
            if ln.endswith("}"):
                try:
                    out.append(json.loads(ln))
                except ValueError:
                    pass
    return out


def run_one(exe, tmp, seed=None, choices=None, record=None, trace=None, cpu=60):
    out = os.path.join(tmp, "one.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, "--count", "1", "--out", out, "--cpu", str(cpu), "--seed", str(seed if seed is not None else 0)]
    if choices:
        cmd += ["--choices", choices]
    if record:
        cmd += ["--record", record]
    if trace:
        cmd += ["--trace", trace]
    subprocess.run(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = read_lines(out)
    if not r:
        raise RuntimeError("the driver produced no result")
    return r[0]


def write_choices(path, ch, extra=None):
    d = dict(extra or {})
    with open(path, "w") as f:
        f.write("{")
        for k, v in d.items():
            f.write(json.dumps(k) + ":" + json.dumps(v) + ",\n")
        f.write(",\n".join('"%s":[%s]' % (k, ",".join(map(str, ch[k]))) for k in ("gen", "sched", "fault")))
        f.write("}\n")


def minimise(exe, tmp, ch, cls, budget, cpu):
    """shrinks the choice sequences while the same violation class persists"""
    t0 = time.time()
    tests = [0]
    cf = os.path.join(tmp, "min.json")

    def fails(c):
        if time.time() - t0 > budget:
            return False
        tests[0] += 1
        write_choices(cf, c)
        r = run_one(exe, tmp, choices=cf, cpu=cpu)
        return r["status"] == "violation" and r["class"] == cls

    def strip(c):
        c = {k: list(v) for k, v in c.items()}
        for k in c:
            while c[k] and c[k][-1] == 0:
                c[k].pop()
        return c

    best = strip(ch)
    for rnd in range(3):
        before = json.dumps(best)
        for k in ("sched", "fault", "gen"):
            if not best[k]:
                continue
            t = dict(best, **{k: []})
            if fails(t):
                best = strip(t)
                continue
            # truncate the tail (binary search for the shortest failing prefix)
            lo, hi = 0, len(best[k])
            while lo < hi and time.time() - t0 < budget:
                mid = (lo + hi) // 2
                t = dict(best, **{k: best[k][:mid]})
                if fails(t):
                    best, hi = strip(t), mid
                else:
                    lo = mid + 1
            # zero whole chunks
            n = max(1, len(best[k]) // 2)
            while n >= 1 and time.time() - t0 < budget:
                i = 0
                while i < len(best[k]) and time.time() - t0 < budget:
                    seg = best[k][i:i + n]
                    if any(seg):
                        t = dict(best, **{k: best[k][:i] + [0] * len(seg) + best[k][i + n:]})
                        if fails(t):
                            best = strip(t)
                    i += n
                if n == 1:
                    break
                n //= 2
            # smaller values
            for i in range(len(best[k])):
                while i < len(best[k]) and best[k][i] > 1 and time.time() - t0 < budget:
                    t = dict(best, **{k: best[k][:i] + [best[k][i] // 2] + best[k][i + 1:]})
                    if not fails(t):
                        break
                    best = strip(t)
        if json.dumps(best) == before or time.time() - t0 > budget:
            break
    return best, tests[0]


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+class=(\S+)\s+(.*)", ln)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def check(pid, tier, seed):
    t_start = time.time()
    cfg = props()["props"][pid]
    exe = build([cfg["driver"]])[0]
    ENV["SIM_PROPERTY"] = pid
    budget = float(os.environ.get("VERIF_BUDGET", cfg[tier]["budget"]))
    maxruns = int(cfg[tier].get("runs", 10 ** 9))
    cpu = cfg.get("cpu", 60)
    tmp = tempfile.mkdtemp(prefix="miso-%s-" % pid, dir="/tmp")
    try:
        return check2(pid, tier, seed, cfg, exe, budget, maxruns, cpu, tmp, t_start)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check2(pid, tier, seed, cfg, exe, budget, maxruns, cpu, tmp, t_start):
    base = seed * 1000003 + 17
    t0 = time.time()
    ps = []
    per = max(1, maxruns // NPROC)
    for w in range(NPROC):
        out = os.path.join(tmp, "w%d.json" % w)
        cmd = [exe, "--seed", str(base + w), "--stride", str(NPROC), "--count", str(per),
               "--budget", str(budget), "--cpu", str(cpu), "--out", out]
        ps.append((subprocess.Popen(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), out))
    recs = {}
    known = known_findings(pid)
    early = False
    while True:
        alive = [p for p, _ in ps if p.poll() is None]
        # stop the search once violations are in hand
        bad = 0
        for _, o in ps:
            if os.path.exists(o):
                with open(o) as f:
                    for ln in f:
                        if '"status":"violation"' in ln and not any('"class":"%s"' % k in ln for k, _ in known):
                            bad += 1
        if bad >= 3 and not early:
            early = True
            for p in alive:
                p.terminate()
        if not alive:
            break
        if time.time() - t0 > budget + 4 * cpu + 90:
            for p in alive:
                p.kill()
        time.sleep(0.2)
    search_s = time.time() - t0
    for p, o in ps:
        for r in read_lines(o):
            recs[r["seed"]] = r
        if p.returncode != 0 and not early:
            log("driver process ended with", p.returncode)
    runs = [recs[s] for s in sorted(recs)]
    if not runs:
        log("no simulation finished")
        return 2
    errors = [r for r in runs if r["status"] == "error"]
    viol = [r for r in runs if r["status"] == "violation"]
    if errors:
        log("harness errors: %d, first: seed %d %s" % (len(errors), errors[0]["seed"], errors[0]["msg"]))

    # determinism: re-run a sample of seeds in fresh processes
    det = 0
    nondet = []
    sample = [r for r in runs if r["status"] == "ok"]
    step = max(1, len(sample) // (6 if tier == "quick" else 40))
    for r in sample[::step][:40]:
        q = run_one(exe, tmp, seed=r["seed"], cpu=cpu)
        det += 1
        if (q["status"], q["hash"]) != (r["status"], r["hash"]):
            nondet.append(r["seed"])
    if nondet:
        log("not deterministic on seeds", nondet)

    faults, probes = {}, {}
    for r in runs:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    nontriv = [r for r in runs if r["nontrivial"]]
    distinct = len({r["sig"] for r in nontriv})
    interleavings = len({r["hash"] for r in runs})
    samples = [{"seed": r["seed"], "run": r["sample"], "event_hash": r["hash"], "steps": r["steps"]}
               for r in runs if r.get("sample")][:6]

    result = 0
    replay = None
    reported = []
    listed = set()
    fresh = []
    for r in viol:
        k = next((k for k in known if k[0] == r["class"]), None)
        if k:
            listed.add(k)
        else:
            fresh.append(r)
    for k in known:
        print("KNOWN-FINDING: property=%s %s (class %s%s)" % (pid, k[1], k[0], "" if k in listed else ", not met in this run"))
    if fresh:
        # gate: same seed, fresh process, same class and same event hash
        seen = set()
        ok = []
        for r in sorted(fresh, key=lambda r: (r["class"], sum(r["choices"]))):
            if r["class"] in seen or len(seen) >= 4:
                continue
            rec = os.path.join(tmp, "rec.json")
            q1 = run_one(exe, tmp, seed=r["seed"], record=rec, cpu=cpu)
            q2 = run_one(exe, tmp, seed=r["seed"], cpu=cpu)
            if not (q1["status"] == q2["status"] == "violation" and q1["class"] == q2["class"] == r["class"]
                    and q1["hash"] == q2["hash"] == r["hash"]):
                log("violation at seed %d does not repeat: %s / %s / %s" % (r["seed"], r["class"], q1["class"], q2["class"]))
                continue
            seen.add(r["class"])
            ch = json.load(open(rec))
            best, ntests = minimise(exe, tmp, ch, r["class"], float(cfg[tier].get("min_budget", 40)), cpu)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, r["seed"]))
            cf = os.path.join(tmp, "fin.json")
            tr = os.path.join(tmp, "trace.txt")
            write_choices(cf, best)
            f1 = run_one(exe, tmp, choices=cf, trace=tr, cpu=cpu)
            f2 = run_one(exe, tmp, choices=cf, cpu=cpu)
            if not (f1["status"] == f2["status"] == "violation" and f1["class"] == f2["class"] == r["class"]
                    and f1["hash"] == f2["hash"]):
                log("the minimised violation does not repeat", f1["class"], f2["class"], r["class"])
                best = ch
                write_choices(cf, best)
                f1 = run_one(exe, tmp, choices=cf, trace=tr, cpu=cpu)
                f2 = run_one(exe, tmp, choices=cf, cpu=cpu)
                if not (f1["status"] == f2["status"] == "violation" and f1["class"] == r["class"] and f1["hash"] == f2["hash"]):
                    continue
            trace = open(tr, errors="replace").read().splitlines() if os.path.exists(tr) else []
            write_choices(path, best, {
                "property": pid, "driver": cfg["driver"], "seed": r["seed"], "class": r["class"], "message": f1["msg"],
                "event_hash": f1["hash"], "run": f1.get("sample", ""), "minimisation_runs": ntests,
                "choices_before": r["choices"], "choices_after": [len(best[k]) for k in ("gen", "sched", "fault")],
                "trace_tail": trace[-400:]})
            ok.append((r, path, f1["msg"]))
        if ok:
            result = 1
            for r, path, msg in ok:
                log("seed %d [%s]: %s" % (r["seed"], r["class"], msg))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                reported.append({"seed": r["seed"], "class": r["class"], "message": msg, "replay": path})
        else:
            result = 2
    if result == 0 and (errors or nondet):
        result = 2
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": len(runs), "distinct_nontrivial": distinct,
            "rule": cfg["rule"], "samples": samples,
            "simulated_runs": len(runs), "seeds_per_hour": int(3600 * len(runs) / max(search_s, 1e-3)),
            "search_wall_s": round(search_s, 2), "simulated_seconds": sum(r["simtime"] for r in runs),
            "scheduler_steps": sum(r["steps"] for r in runs),
            "nontrivial_runs": len(nontriv), "distinct_event_histories": interleavings,
            "faults_injected": dict(sorted(faults.items())), "conditions_reached": dict(sorted(probes.items())),
            "determinism_reruns": det, "determinism_mismatches": len(nondet),
            "seed_range": [base, max(recs)], "harness_errors": len(errors),
            "components_real": cfg["real"], "components_stub": cfg["stub"], "reported": reported,
        },
        "assumptions": cfg["assumptions"], "wall_s": round(time.time() - t_start, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d runs (%d nontrivial, %d distinct) in %.1f s; violations %d, errors %d; total %.1f s" % (
        pid, tier, len(runs), len(nontriv), distinct, search_s, len(fresh), len(errors), time.time() - t_start))
    return result


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--prepare", action="store_true", help="check the tools and generate the MFEM header overlay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = props()["props"]
    if a.prepare:
        build(["logging"])
        return 0
    if a.build:
        ids = a.ids or [i for i in cfg if cfg[i]["driver"]]
        build(sorted({cfg[i]["driver"] for i in ids}))
        return 0
    pid = a.ids[0]
    if a.replay:
        exe = build([cfg[pid]["driver"]])[0]
        ENV["SIM_PROPERTY"] = pid
        tmp = tempfile.mkdtemp(prefix="miso-replay-", dir="/tmp")
        try:
            d = json.load(open(a.replay))
            tr = os.path.join(tmp, "trace.txt")
            r = run_one(exe, tmp, choices=os.path.abspath(a.replay), trace=tr, cpu=cfg[pid].get("cpu", 60))
            sys.stdout.write(open(tr, errors="replace").read() if os.path.exists(tr) else "")
            print("recorded: [%s] hash %s" % (d.get("class"), d.get("event_hash")))
            print("replayed: %s [%s] %s hash %s" % (r["status"], r["class"], r["msg"], r["hash"]))
            return 1 if r["status"] == "violation" else 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return check(pid, a.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
