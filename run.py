#!/usr/bin/env python3
"""Runs one property check: builds the harness and the library from /repo's current working tree with
AddressSanitizer + UndefinedBehaviorSanitizer, drives it, and turns what the monitors saw into a verdict.

usage: run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]
exit 0  held on everything explored      exit 1  violated (VIOLATION line)      other  error / inconclusive
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS

BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
CXX = os.environ.get("VERIF_CXX", "g++")
INCS = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
        "/usr/include/hdf5/openmpi", "/usr/include/trilinos"]
BASE = ["-std=c++17", "-g1", "-O1", "-fno-omit-frame-pointer", "-DKOKKOS_DEPENDENCE", "-w"]
SAN = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,vptr", "-fno-sanitize-recover=all"],
       "tsan": ["-fsanitize=thread"],
       "plain": []}
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5", "-lmpi", "-ltrilinos_kokkoscore", "-ldl", "-lpthread"]
CONFIG = """#define SCHNEK_HAVE_MPI
#define SCHNEK_HAVE_HDF5
#define SCHNEK_USE_HDF_PARALLEL
#define SCHNEK_HAVE_KOKKOS
#define SCHNEK_VERSION 1.2.0
#define OMPI_SKIP_MPICXX
"""


class CheckError(Exception):
    pass


def tree_hash(root, exts=None):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            try:
                with open(p, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
            h.update(b"\1")
    return h.hexdigest()


def lib_sources():
    """The library's translation units, as the project's own build lists them."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"add_library\s*\(\s*schnek\b([^)]*)\)", txt)
    srcs = []
    if m:
        srcs = [s for s in m.group(1).split() if s.endswith(".cpp")]
    srcs = [s for s in srcs if os.path.exists(os.path.join(REPO, s))]
    if not srcs:
        raise CheckError("cannot find the library's source list in CMakeLists.txt")
    return srcs


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(spec):
    os.makedirs(BUILD, exist_ok=True)
    repo_h = tree_hash(os.path.join(REPO, "src"))
    flavour = spec.get("san", "asan")
    flags = BASE + SAN[flavour] + spec.get("flags", [])
    # library objects never see the harness' extra flags
    libflags = BASE + SAN[flavour]
    key = hashlib.sha256((repo_h + json.dumps(libflags) + CXX + CONFIG + REPO).encode()).hexdigest()[:20]
    bdir = os.path.join(BUILD, key)
    os.makedirs(bdir, exist_ok=True)
    os.utime(bdir)
    # keep only the few most recent build trees
    dirs = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))),
                  key=os.path.getmtime, reverse=True)
    for d in dirs[int(os.environ.get("VERIF_KEEP", "4")):]:
        shutil.rmtree(d, ignore_errors=True)
    lock = open(os.path.join(bdir, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        for sub in ("grid/iteration", "grid/gridstorage", "diagnostic"):
            os.makedirs(os.path.join(bdir, "inc/src", sub), exist_ok=True)
        with open(os.path.join(bdir, "inc/src/config.hpp"), "w") as f:
            f.write(CONFIG)
        inc = ["-I" + os.path.join(REPO, "src")]
        inc += ["-I" + os.path.join(bdir, "inc/src", s) for s in ("", "grid", "grid/iteration")]
        inc += ["-isystem" + i for i in INCS]
        jobs, libobjs, hobjs = [], [], []

        def add(src, obj, fl):
            if not os.path.exists(obj):
                jobs.append((src, obj, [CXX] + fl + inc + ["-I" + os.path.join(VERIF, "harness"), "-c", src, "-o", obj + ".tmp"]))

        if spec.get("lib", False):
            for s in lib_sources():
                o = os.path.join(bdir, "lib_" + s.replace("/", "_") + ".o")
                libobjs.append(o)
                add(os.path.join(REPO, s), o, libflags)
        hh = tree_hash(os.path.join(VERIF, "harness"))[:16]
        for s in spec["sources"]:
            p = os.path.join(VERIF, "harness", s)
            src_h = hashlib.sha256(open(p, "rb").read())
            for m in sorted(f for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".hpp")):
                src_h.update(open(os.path.join(VERIF, "harness", m), "rb").read())
            src_h.update(json.dumps(flags).encode())
            o = os.path.join(bdir, "h_%s_%s.o" % (s.replace(".cpp", ""), src_h.hexdigest()[:16]))
            hobjs.append(o)
            add(p, o, flags)
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))

        def compile_one(j):
            r = run(j[2])
            if r.returncode != 0:
                return (j[0], r.stdout)
            os.rename(j[1] + ".tmp", j[1])
            return None
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(compile_one, jobs) if e]
        if errs:
            raise CheckError("build failed: %s\n%s" % (errs[0][0], errs[0][1][-6000:]))
        exe = os.path.join(bdir, "x_" + hashlib.sha256("".join(hobjs + libobjs).encode()).hexdigest()[:16])
        if not os.path.exists(exe):
            r = run([CXX] + flags + hobjs + libobjs + LIBS + ["-o", exe + ".tmp"])
            if r.returncode != 0:
                raise CheckError("link failed:\n" + r.stdout[-6000:])
            os.rename(exe + ".tmp", exe)
        return exe, len(jobs), repo_h
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:malloc_fill_byte=183:max_malloc_fill_size=1073741824:"
                    "free_fill_byte=211:max_free_fill_size=1073741824:allocator_may_return_null=0:detect_stack_use_after_return=1:"
                    "hard_rss_limit_mb=7000:handle_abort=0:check_initialization_order=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:abort_on_error=0:handle_abort=0:history_size=4:report_thread_leaks=0:second_deadlock_stack=1",
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_plm": "isolated", "OMPI_MCA_btl_base_warn_component_unused": "0",
    "OMPI_MCA_mpi_show_handle_leaks": "0", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_opal_warn_on_missing_libcuda": "0", "OMPI_MCA_io": "^ompio" if False else "ompio",
    "HWLOC_COMPONENTS": "-gl,-opencl,-cuda", "LC_ALL": "C",
}


def crumb_state(scratch, tag):
    res = []
    for f in sorted(os.listdir(scratch)):
        if f.startswith("out_%s.json" % tag) and f.endswith(".crumb"):
            try:
                res.append(open(os.path.join(scratch, f), "rb").read().split(b"\0")[0])
            except OSError:
                pass
    return res


def no_random():
    try:
        return subprocess.run(["setarch", os.uname().machine, "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError:
        return False


def execute(exe, spec, tier, seed, scratch, tag, np, only=None, timeout=600):
    out = os.path.join(scratch, "out_%s.json" % tag)
    for f in os.listdir(scratch):
        if f.startswith("out_%s.json" % tag):
            os.unlink(os.path.join(scratch, f))
    work = os.path.join(scratch, "work_" + tag)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out]
    if only:
        cmd += ["--only", only]
    if spec.get("san") == "tsan" and no_random():
        # the race detector's shadow memory needs a predictable address layout on some kernels
        cmd = ["setarch", os.uname().machine, "-R"] + cmd
    if np:
        cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(np)] + cmd
    env = dict(os.environ)
    env.update(SAN_ENV)
    # one directory per run (concurrent OpenMPI launchers race for the same name), with a short name: socket paths lie below it
    env["TMPDIR"] = os.path.join(scratch, "t" + tag)
    os.makedirs(env["TMPDIR"], exist_ok=True)
    log = os.path.join(scratch, "log_%s.txt" % tag)
    t0 = time.time()
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, cwd=work, env=env, start_new_session=True)
        # a run ends when its time is up, or when no process has moved to another case or step for a long while
        rc, timed, last, moved = None, False, None, t0
        stall = 150 if tier == "quick" else 400
        while rc is None:
            try:
                rc = p.wait(timeout=1)
            except subprocess.TimeoutExpired:
                now = time.time()
                cur = crumb_state(scratch, tag)
                if cur != last:
                    last, moved = cur, now
                if now - t0 > timeout or now - moved > stall:
                    timed = True
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    with open(log, "rb") as lf:
        lf.seek(0, 2)
        n = lf.tell()
        lf.seek(max(0, n - 40000))
        txt = lf.read().decode("utf-8", "replace")
    outs, crumbs = [], []
    for f in sorted(os.listdir(scratch)):
        if f.startswith("out_%s.json" % tag):
            p_ = os.path.join(scratch, f)
            if f.endswith(".crumb"):
                crumbs.append(open(p_, "rb").read().split(b"\0")[0].decode("utf-8", "replace"))
            else:
                try:
                    outs.append(json.load(open(p_)))
                except ValueError:
                    pass
    shutil.rmtree(work, ignore_errors=True)
    return dict(rc=rc, timed=timed, log=txt, outs=outs, crumbs=crumbs, wall=time.time() - t0, cmd=cmd)


def crash_key(log, rc):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", log)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", log)
    if m:
        return "tsan:" + m.group(1).replace(" ", "-")
    m = re.search(r"runtime error: (.*)", log)
    if m:
        return "ubsan:" + re.sub(r"[0-9]+(\.[0-9e+]+)?|0x[0-9a-f]+", "N", m.group(1))[:80]
    m = re.search(r"Assertion `(.*?)' failed", log)
    if m:
        return "assert:" + m.group(1)[:80]
    if "terminate called" in log:
        m = re.search(r"terminate called after throwing an instance of '(.*?)'", log)
        return "terminate:" + (m.group(1) if m else "?")
    return "crash:rc=%s" % rc


def load_findings():
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"open: property=(\w+) key=(\S+) (.*)", line.strip())
            if m:
                res.append((m.group(1), m.group(2), m.group(3)))
    return res


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 1
        elif a[i] == "--seed":
            seed = int(a[i + 1]); i += 1
        elif a[i] == "--replay":
            replay = json.load(open(a[i + 1])); i += 1
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="v", dir="/tmp")
    try:
        exe, ncomp, repo_h = build(spec)
        tb = time.time() - t0
        print("[%s] built (%d objects compiled) in %.1fs" % (pid, ncomp, tb), flush=True)
        configs = spec.get("np", {}).get(tier, [0])
        if replay:
            seed, tier, configs = replay["seed"], replay["tier"], [replay["np"]]
        results, viols, lacking = [], [], []
        budget = spec.get("timeout", {}).get(tier, 780 if tier == "quick" else 3300)
        deadline = time.time() + max(60, budget - tb)

        def one(np):
            tag = "n%d" % np
            r = execute(exe, spec, tier, seed, scratch, tag, np, replay and replay.get("only"), max(30, deadline - time.time()) * 0.75)
            for again in range(2):
                # a launcher that fails before any process has started says nothing about the code
                if r["timed"] or r["outs"] or any(x for x in r["crumbs"]) or re.search("(Address|Thread)Sanitizer: [a-z]|runtime error|Assertion", r["log"]) or not np:
                    break
                time.sleep(2)
                r = execute(exe, spec, tier, seed, scratch, tag, np, replay and replay.get("only"), max(30, deadline - time.time()) * 0.75)
            v = []
            if r["timed"]:
                # a hang only counts when the very case it sat in hangs again on its own
                c = sorted(set(x.split(" ")[0] for x in r["crumbs"] if re.match(r"\S+:\d+", x)))
                if c:
                    r2 = execute(exe, spec, tier, seed, scratch, tag + "r", np, c[0], max(20, min(100, deadline - time.time())))
                    if r2["timed"]:
                        v.append(dict(key="hang:" + c[0].rsplit(":", 1)[0], section=c[0].rsplit(":", 1)[0], index=int(c[0].rsplit(":", 1)[1]),
                                      msg="no progress in this case, twice", case=" | ".join(r["crumbs"]), log=r2["log"][-4000:]))
                        return np, r, v, None
                return np, r, v, "timeout after %.0fs in %s" % (r["wall"], r["crumbs"])
            for o in r["outs"]:
                for x in o["violations"]:
                    v.append(x)
            want = max(1, np)
            done = len(r["outs"]) == want
            err = None
            if r["rc"] not in (0, 10, 11) or not done:
                if v and done:
                    pass
                crumbs = [x for x in r["crumbs"] if x != "finished"]
                if not any(crumbs) and not r["outs"] and not re.search("(Address|Thread)Sanitizer: [a-z]|runtime error|Assertion", r["log"]):
                    err = "could not start: " + r["log"][-2000:]
                elif not (r["rc"] in (0, 10, 11) and done):
                    c = next((x for x in crumbs if re.match(r"\S+:\d+", x)), "?:0")
                    m = re.match(r"(\S+):(\d+)", c)
                    if (r["rc"] in (-9, 137)) and not re.search("Sanitizer|runtime error|Assertion", r["log"]):
                        err = "killed (memory?) in " + c
                    elif "hard rss limit exhausted" in r["log"]:
                        v.append(dict(key="memory-exhausted", section=m.group(1), index=int(m.group(2)), msg="runaway allocation", case=c, log=r["log"][-6000:]))
                    else:
                        v.append(dict(key=crash_key(r["log"], r["rc"]), section=m.group(1), index=int(m.group(2)),
                                      msg="process died: " + crash_key(r["log"], r["rc"]), case=c, log=r["log"][-12000:]))
            return np, r, v, err

        par = spec.get("parallel", 1)
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            done = list(ex.map(one, configs))
        errors = []
        agg = dict(evaluations=0, events=0, distinct=0, counters={}, samples=[])
        for np, r, v, err in done:
            if err:
                errors.append("np=%d: %s" % (np, err))
            for x in v:
                x["np"] = np
                viols.append(x)
            for k, o in enumerate(r["outs"]):
                agg["events"] += o["events"]
                if k == 0:
                    agg["evaluations"] += o["evaluations"]
                    agg["distinct"] += o["distinct"]
                    for s in o["samples"]:
                        if np: s["processes"] = np
                        if len(agg["samples"]) < 24:
                            agg["samples"].append(s)
                for c, n in o["counters"].items():
                    agg["counters"][c] = agg["counters"].get(c, 0) + n
                lacking += o["lacking"]
        findings = load_findings()
        known, unknown = {}, {}
        for x in viols:
            hit = next((f for f in findings if f[0] == pid and f[1] == x["key"]), None)
            if hit:
                known.setdefault(hit[1], (hit, x))
            else:
                unknown.setdefault(x["key"], x)
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k][0][2]))
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        lines = []
        for n, k in enumerate(sorted(unknown)):
            x = unknown[k]
            path = os.path.join(rdir, "%s-%d.json" % (pid, n))
            json.dump(dict(property=pid, key=k, seed=seed, tier=tier, np=x["np"], only="%s:%d" % (x["section"], x["index"]),
                           msg=x["msg"], case=x.get("case", ""), log=x.get("log", ""),
                           how="python3 run.py %s --replay %s" % (pid, os.path.relpath(path, VERIF))), open(path, "w"), indent=1)
            if n < 8:
                lines.append("VIOLATION property=%s replay=%s" % (pid, path))
                print("  key=%s section=%s:%d np=%d: %s" % (k, x["section"], x["index"], x["np"], x["msg"][:600].replace("\n", " | ")))
                if x.get("case"):
                    print("    case: %s" % x["case"][:600].replace("\n", " | "))
        ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"),
                  coverage=dict(evaluations=agg["evaluations"], distinct_nontrivial=agg["distinct"], rule=spec["rule"],
                                samples=agg["samples"][:24], monitor_events=agg["events"], counters=agg["counters"],
                                process_counts=[max(1, n) for n in configs], exhaustive=False,
                                sanitizers={"asan": "AddressSanitizer + UndefinedBehaviorSanitizer (all reports fatal)", "tsan": "ThreadSanitizer (all reports fatal)"}.get(spec.get("san", "asan"), "none"),
                                source_hash=repo_h[:16], known_findings_seen=sorted(known)),
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(unknown))
        if not replay:
            json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
        print("[%s] tier=%s seed=%d evaluations=%d distinct=%d events=%d violations=%d known=%d wall=%.1fs" %
              (pid, tier, seed, agg["evaluations"], agg["distinct"], agg["events"], len(unknown), len(known), time.time() - t0))
        if unknown:
            for l in lines:
                print(l)
            return 1
        if errors:
            print("ERROR: " + "; ".join(errors))
            return 3
        if not replay and (lacking or agg["events"] == 0):
            print("INCONCLUSIVE: monitors observed too little: %s" % lacking)
            return 3
        return 0
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
