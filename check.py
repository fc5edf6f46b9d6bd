#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py <ID>                 run the check of one property (VERIF_SEED, VERIF_TIER)
  check.py <ID> --replay FILE   replay a violation (exit 1 when it reproduces)
  check.py --build              build everything (setup)
  check.py --determinism        run a sample of every check twice and compare event logs
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
OUT = os.path.join(HERE, ".out")
WORKERS = 8
T0 = time.time()

CFG = {
    "d": ["-DCP=d", "-DCT=double", "-DCL=ColMajor", "-DCREAL"],
    "z": ["-DCP=z", "-DCRP=d", "-DCT=std::complex<double>", "-DCL=ColMajor", "-DCCPLX"],
    "s": ["-DCP=s", "-DCT=float", "-DCL=RowMajor", "-DCREAL"],
    "c": ["-DCP=c", "-DCRP=s", "-DCT=std::complex<float>", "-DCL=RowMajor", "-DCCPLX"],
    # user-defined number type whose arithmetic can throw
    "f": ["-DFNUM", "-include", "$SIM/cat/fnum.hpp", "-DKITATTR=sim::A_FAULTNUM", "-DCT=fnum::F", "-DCL=ColMajor", "-DCREAL"],
    "g": ["-DFNUM", "-include", "$SIM/cat/fnum.hpp", "-DKITATTR=sim::A_FAULTNUM", "-DCT=std::complex<fnum::F>", "-DCL=RowMajor", "-DCCPLX"],
}
CXX = ["g++", "-std=gnu++20", "-O0", "-fPIC", "-fsanitize=thread", "-fno-gnu-unique", "-fno-builtin", "-ftrivial-auto-var-init=pattern", "-DTLAPACK_CHECK_INPUT", "-w"]
WRAP = "malloc calloc free realloc aligned_alloc posix_memalign memcpy memmove memset memcmp pthread_mutex_lock pthread_mutex_unlock rand random getenv __assert_fail srand srandom printf vprintf puts putchar fprintf vfprintf fputs fputc putc fwrite write perror system atexit exit _exit _Exit quick_exit abort".split()

# catalogue translation units: name -> configurations
TUS = json.load(open(os.path.join(HERE, "sim", "catalogue.json")))
CHECKS = json.load(open(os.path.join(HERE, "sim", "checks.json")))


def die(msg, rc=2):
    print("check error: " + msg)
    sys.exit(rc)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(open(root, "rb").read())
            continue
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) and not os.path.exists(p):
                    continue
                h.update(os.path.relpath(p, root).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def configured_headers():
    """The public C headers are generated by CMake; generate them the same way."""
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    subst = {"TLAPACK_DEFINES": "#define TLAPACK_SIZE_T size_t\n#define TLAPACK_INT_T int64_t\n", "TLAPACK_CBLAS_DEFINES": "#define CBLAS_INT int64_t\n"}
    for f in ("tlapack.h", "tlapack_cblas.h"):
        src = os.path.join(REPO, "include", f + ".in")
        if not os.path.exists(src):
            continue
        s = open(src).read()
        s = re.sub(r"@([A-Za-z_0-9]+)@", lambda m: subst.get(m.group(1), ""), s)
        p = os.path.join(d, f)
        if not os.path.exists(p) or open(p).read() != s:
            open(p, "w").write(s)
    return d


def compile_one(job):
    cmd, out = job
    if os.path.exists(out):
        return 0, "", 0.0
    t = time.time()
    tmp = out + ".%d.tmp" % os.getpid()
    r = run(cmd + ["-o", tmp])
    if r.returncode == 0:
        os.replace(tmp, out)
    return r.returncode, r.stderr, time.time() - t


def build(tus, cfgs, want_starpu=False):
    os.makedirs(BUILD, exist_ok=True)
    gen = configured_headers()
    th = tree_hash(os.path.join(REPO, "include"), os.path.join(REPO, "src"), gen)
    kit = tree_hash(*[os.path.join(HERE, "sim", f) for f in ("opkit.hpp", "simrt.hpp")], *sorted(glob.glob(os.path.join(HERE, "sim", "cat", "*.hpp"))))
    jobs, units, owners = [], [], []
    rt = sha(*[open(os.path.join(HERE, "sim", f), "rb").read() for f in ("simrt.cpp", "runner.cpp", "sim.hpp", "simrt.hpp", "starpu_rt.hpp", "team_rt.hpp", "proc_rt.hpp", "starpu/starpu.h")])[:16]
    exe = os.path.join(BUILD, "simrun-" + rt)
    for f in ("simrt", "runner"):
        o = os.path.join(BUILD, "%s-%s.o" % (f, rt))
        jobs.append((["g++", "-std=gnu++20", "-O2", "-g1", "-c", os.path.join(HERE, "sim", f + ".cpp")], o))
    for tu in tus:
        spec = TUS[tu]
        src = spec.get("src", "$SIM/cat/" + tu + ".cpp").replace("$SIM", os.path.join(HERE, "sim")).replace("$REPO", REPO)
        for c in spec["cfg"]:
            if c not in cfgs and c in CFG:
                continue
            fn = "simcat_%s_%s" % (tu, c)
            extra = CFG.get(c, []) + ['-DCSUF="%s"' % c, "-I", os.path.join(REPO, "include"), "-I", gen, "-I", os.path.join(REPO, "src")] + spec.get("flags", [])
            extra = [x.replace("$SIM", os.path.join(HERE, "sim")).replace("$REPO", REPO) for x in extra]
            xtra = b"".join(open(p, "rb").read() for p in sorted(glob.glob(os.path.join(HERE, "sim", "starpu", "*")))) if "starpu" in tu else b""
            k = sha(th, kit, open(src, "rb").read(), " ".join(CXX + extra), xtra)[:20]
            o = os.path.join(BUILD, "%s-%s.o" % (fn, k))
            jobs.append((CXX + extra + ["-c", src], o))
            owners.append((tu, o))
            units.append((fn if not spec.get("obj") else None, o, spec.get("weight", 10), tu))
    jobs_w = sorted(jobs, key=lambda j: -max([u[2] for u in units if u[1] == j[1]] or [30]))
    errs = {}
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for j, (rc, err, dt) in zip(jobs_w, ex.map(compile_one, jobs_w)):
            if rc:
                errs[j[1]] = err
            elif dt and os.environ.get("SIM_TIMES"):
                print("# %6.1fs %s" % (dt, os.path.basename(j[1])), file=sys.stderr)
    rto = [os.path.join(BUILD, "%s-%s.o" % (f, rt)) for f in ("simrt", "runner")]
    for o in rto:
        if o in errs:
            die("the simulator does not compile:\n" + errs[o][:3000])
    if not os.path.exists(exe):
        r = run(["g++", "-rdynamic"] + rto + ["-o", exe + ".tmp", "-ldl", "-lpthread"])
        if r.returncode:
            die("link: " + r.stderr[:2000])
        os.replace(exe + ".tmp", exe)
    lost = {tu for tu, o in owners if o in errs}
    for tu, o in owners:
        if set(TUS[tu].get("needs", [])) & lost:
            errs.setdefault(o, "needs " + " ".join(TUS[tu]["needs"]))
    good = [u for u in units if u[1] not in errs]
    skipped = [u[0] or os.path.basename(u[1]) for u in units if u[1] in errs]
    if not [u for u in good if u[0]]:
        die("no catalogue unit compiles:\n" + "\n".join(errs.values())[:4000])
    # one library per unit: the units instantiate the same templates of the
    # library under test with different plugins, options and interfaces
    libs, links = [], []
    for fn, o, _, tu in good:
        if not fn:
            continue
        objs = [o] + [x[1] for x in good if x[3] in TUS[tu].get("needs", [])]
        lib = os.path.join(BUILD, "%s-%s.so" % (fn, sha(*objs, *WRAP)[:16]))
        libs.append(lib)
        if not os.path.exists(lib):
            links.append((["g++", "-shared", "-fPIC"] + objs + ["-Wl,-Bsymbolic"] + ["-Wl,--wrap=" + w for w in WRAP], lib))
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for rc, err, _ in ex.map(compile_one, links):
            if rc:
                die("link of the catalogue:\n" + err[:3000])
    lib = ",".join(libs)
    return exe, lib, skipped, errs


def known_findings(pid):
    fs = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "finding":
                    fs.append(d)
    return fs


def matches(f, v):
    """A violation is the listed finding: same class, same operation, same place."""
    if f.get("cls") and f["cls"] != v["cls"]:
        return False
    if f.get("op") and not re.fullmatch(f["op"], v["op"]):
        return False
    if f.get("where") is not None and not re.search(f["where"], v.get("where", "")):
        return False
    if f.get("detail") is not None and not re.search(f["detail"], v.get("detail", "")):
        return False
    return True


def replay(exe, lib, fn, tmo=300):
    r = run([exe, "--libs", lib, "--replay", fn], timeout=tmo)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return {"viol": False, "cls": "", "op": "", "where": "", "detail": "replay failed: rc %d %s" % (r.returncode, (r.stderr or r.stdout)[:300]), "hash": "?", "error": True}


def tus_for(pid):
    c = CHECKS[pid]
    sel = c.get("tus", "all")
    names = [t for t in TUS if t not in ("starpu", "omp")] if sel == "all" else sel
    names = [t for t in names if pid not in TUS[t].get("skip", [])]
    return names + [n for n in sorted({n for t in names for n in TUS[t].get("needs", [])}) if n not in names]


def main():
    args = sys.argv[1:]
    if not args:
        die("usage")
    tier = os.environ.get("VERIF_TIER", "quick")
    if args[0] == "--build":
        exe, lib, skipped, errs = build(list(TUS), list(CFG))
        if skipped:
            print("not compiled:", skipped)
            print("\n".join(e[:2000] for e in errs.values()))
        print("built in %.1f s" % (time.time() - T0))
        return 0
    pid = args[0]
    if pid not in CHECKS:
        die("unknown property " + pid)
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = spec.get(tier, spec["quick"])
    exe, lib, skipped, errs = build(tus_for(pid), conf.get("cfg", ["d", "c"]))
    for s in skipped:
        print("note: catalogue unit %s does not compile against this tree and is left out" % s)
    tbuild = time.time() - T0
    if "--replay" in args:
        fn = args[args.index("--replay") + 1]
        v = replay(exe, lib, fn)
        print(json.dumps(v, indent=1))
        if v["viol"]:
            print("VIOLATION property=%s replay=%s" % (pid, fn))
        return 1 if v["viol"] else 0

    out = os.path.join(OUT, pid)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))

    # listed findings: reproduce each
    kf = known_findings(pid)
    for f in kf:
        fn = os.path.join(HERE, f["replay"])
        try:
            v = replay(exe, lib, fn)
        except Exception as e:
            v = {"viol": False, "detail": str(e)}
        if v["viol"] and matches(f, v):
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        else:
            print("note: listed finding no longer reproduces: %s" % f["what"])

    nwork = spec.get("workers", WORKERS)
    procs = []
    for w in range(nwork):
        cmd = [exe, "--libs", lib, "--check", pid, "--seed", str(seed), "--from", str(w), "--step", str(nwork), "--count", str(conf["count"]), "--maxsec", str(conf["maxsec"]), "--maxviol", "40", "--out", out]
        log = open(os.path.join(out, "w%d.log" % w), "w")
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT), log))
    bad = []
    deadline = time.time() + conf["maxsec"] + 120
    for p, log in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            rc = "timeout"
        log.close()
        if rc != 0:
            bad.append(rc)
    viols, stats, nondet, raw = [], [], [], []
    for w in range(nwork):
        for l in open(os.path.join(out, "w%d.log" % w)):
            try:
                d = json.loads(l)
            except Exception:
                raw.append(l.strip())
                continue
            if "violation" in d:
                viols.append(d)
            elif "nondeterminism" in d:
                nondet.append(d)
            elif "stats" in d:
                stats.append(d)
    # new violations: one per (class, operation family)
    fresh, suppressed = {}, 0
    for v in sorted(viols, key=lambda v: v["index"]):
        if any(matches(f, v) for f in kf):
            suppressed += 1
            continue
        fresh.setdefault((v["cls"], v["op"]), v)
    reported, dropped = [], []
    # prefer one per class first, then others
    order = sorted(fresh.values(), key=lambda v: v["index"])
    for v in order:
        if len(reported) >= 3 or time.time() - T0 > conf.get("stop", 600):
            break
        mini = os.path.join(out, "replay-%s-%d.sim" % (re.sub(r"[^A-Za-z0-9_.]", "_", v["op"] or "x"), v["index"]))
        try:
            r = run([exe, "--libs", lib, "--minimise", v["violation"], "--out", mini, "--maxsec", "20"], timeout=200)
        except subprocess.TimeoutExpired:
            r = None
        cand = [mini, v["violation"]] if os.path.exists(mini) else [v["violation"]]
        for fn in cand:
            try:
                a, b = replay(exe, lib, fn), replay(exe, lib, fn)
            except subprocess.TimeoutExpired:
                continue
            if a["viol"] and b["viol"] and a["hash"] == b["hash"] and (a["cls"], a["op"]) == (b["cls"], b["op"]) and not any(matches(f, a) for f in kf):
                reported.append((fn, a))
                break
        else:
            dropped.append(v)
    tot = lambda k: sum(s.get(k, 0) for s in stats)
    agg = lambda k: {n: sum(s[k].get(n, 0) for s in stats) for n in sorted({n for s in stats for n in s[k]})}
    wall = time.time() - T0
    simsec = max([s["wall"] for s in stats] or [0.001])
    samples = []
    for fn, a in reported[:2]:
        samples.append({"violation": a, "scenario": open(fn).read()[:4000]})
    if not samples:
        r = run([exe, "--libs", lib, "--check", pid, "--seed", str(seed), "--sample", "3", "--count", "3000", "--from", "0", "--step", "1", "--out", out])
        samples = [x for x in r.stdout.split("----\n") if x.strip()][:3]
    ops = agg("ops") if stats else {}
    ev = {
        "property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": tot("histories"),
            "rule": spec["rule"],
            "scenarios": tot("scenarios"),
            "calls": tot("calls"),
            "simulated_steps": tot("steps"),
            "context_switches": tot("switches"),
            "distinct_interleavings": tot("interleavings"),
            "scenarios_per_hour": int(tot("scenarios") / max(simsec, 0.001) * 3600),
            "runs_per_hour": int(tot("runs") / max(simsec, 0.001) * 3600),
            "faults_injected": agg("faults") if stats else {},
            "notes": agg("notes") if stats else {},
            "calls_ok": tot("oks"), "calls_bad_alloc": tot("badalloc"), "calls_exception": tot("excs"), "calls_nonzero_status": tot("infos"),
            "operations": len(ops), "runs_per_operation_min": min(ops.values()) if ops else 0,
            "operation_names": " ".join(ops),
            "units_left_out": skipped,
            "known_findings_hit": suppressed,
            "nondeterministic_scenarios": len(nondet),
            "real_code": spec["real"], "stubs": spec["stubs"],
            "samples": samples,
        },
        "assumptions": spec["assumptions"], "wall_s": round(wall, 2), "violations": len(reported),
        "build_s": round(tbuild, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", "." + pid + ".tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    for fn, a in reported:
        print("violation: [%s] %s" % (a["cls"], a["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, fn))
    print("%s %s seed %d: %d scenarios, %d simulated runs, %d steps, build %.0f s, total %.0f s" % (pid, tier, seed, tot("scenarios"), tot("runs"), tot("steps"), tbuild, wall))
    if reported:
        return 1
    if dropped:
        die("violation seen but not reproduced in a fresh process: %s" % json.dumps(dropped[0])[:800])
    if nondet:
        die("nondeterministic scenario: %s" % nondet[0]["scenario"][:800])
    if bad or not stats or raw and not stats:
        die("workers ended with %s: %s" % (bad, " | ".join(raw)[:1500]))
    if fresh and not reported:
        die("violations found but not confirmed in time")
    return 0


if __name__ == "__main__":
    sys.exit(main())
