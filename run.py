#!/usr/bin/env python3
"""Runs the check of one property.

  run.py C07 quick|thorough     run the check (VERIF_SEED selects the cases)
  run.py replay FILE            run one recorded case again
  run.py setup                  compile everything once (warms the cache)

Everything is compiled from /repo's working tree. Objects are cached under
/verif/build by the hash of their inputs, so a cached object is never stale.
"""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CACHE = os.path.join(BUILD, "cache")
H = os.path.join(HERE, "harness")
PY = "/opt/vp/venv/bin/python"
CPUS = os.cpu_count() or 8
NW = 8

BASE = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fPIC", "-DDSFMT_MEXP=19937",
        "-I/opt/vp/cmake/include"]
PARDEF = ["-DPARALLEL", "-DPARALLEL_MATCH", "-DPARALLEL_PRED", "-DPARALLEL_UPDATE", "-fopenmp"]
ASAN = ["-fsanitize=address"]
UBSAN = ["-fsanitize=undefined", "-fno-sanitize=vla-bound,alignment", "-fno-sanitize-recover=undefined"]
LIBS = ["-ldSFMT-19937", "-lcjson", "-lm"]
VARIANTS = {
    "serial": ASAN,
    "parallel": ASAN + PARDEF,
    "ubserial": ASAN + UBSAN,
    "ubparallel": ASAN + UBSAN + PARDEF,
}
# properties checked through the Python module
PYPROPS = {"C10", "C26", "C27", "C32", "C33", "C34", "C35", "C36", "C37"}
# properties that also run the command-line program
MAINPROPS = {"C34"}
# build variants per property (default: both)
PROPVAR = {"C28": ["ubserial", "ubparallel"], "C13": ["serial"]}
# properties that compare with another build variant inside one process
PEER = {"C13": "parallel"}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = None


def repo_headers():
    global _hdr
    if _hdr is None:
        _hdr = digest(*[read(p) + p.encode() for p in sorted(glob.glob(REPO + "/xcsf/*.h"))])
    return _hdr


class BuildError(Exception):
    pass


def obj(cc, src, flags, extra=""):
    """Compile one file, or take it from the cache."""
    key = digest(cc, src, read(src), flags, extra)
    out = os.path.join(CACHE, key + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([cc] + flags + ["-w", "-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError("%s: %s" % (src, r.stdout[-3000:]))
        os.rename(tmp, out)
    return out


def lib_jobs(variant):
    flags = BASE + ["-std=gnu11", "-fexceptions"] + VARIANTS[variant]
    srcs = [s for s in sorted(glob.glob(REPO + "/xcsf/*.c")) if os.path.basename(s) != "main.c"]
    return [("gcc", s, flags, repo_headers()) for s in srcs]


def harness_jobs(variant, files):
    flags = BASE + ["-std=c++17", "-I" + REPO + "/xcsf", "-I" + H] + VARIANTS[variant]
    hh = digest(*[read(p) for p in sorted(glob.glob(H + "/*.hpp"))])
    return [("g++", os.path.join(H, f), flags, repo_headers() + hh) for f in files]


def compile_all(jobs):
    os.makedirs(CACHE, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        return list(ex.map(lambda j: obj(*j), jobs))


def build_harness(pid, variants):
    """Returns {variant: path of the executable}."""
    jobs = []
    spans = {}
    peer = PEER.get(pid)
    variants = list(variants) + ([peer] if peer else [])
    for v in variants:
        j = harness_jobs(v, [pid.lower() + ".cpp", "common.cpp", "ref.cpp", "engine.cpp"]) + lib_jobs(v)
        spans[v] = (len(jobs), len(jobs) + len(j))
        jobs += j
    objs = compile_all(jobs)
    exes = {}
    for v in variants:
        o = objs[spans[v][0]:spans[v][1]]
        exe = os.path.join(CACHE, "h_" + digest(pid, v, o))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = sh(["g++"] + VARIANTS[v] + ["-Wl,--wrap=exit"] + (["-shared", "-Wl,-Bsymbolic"] if v == peer else []) +
                   o + LIBS + ["-ldl", "-o", tmp])
            if r.returncode:
                raise BuildError(r.stdout[-3000:])
            os.rename(tmp, exe)
        if v == peer:
            os.environ["PBT_PEER"] = exe
        else:
            exes[v] = exe
    return exes


def build_module():
    """Compile the Python extension (plain optimised build). Returns its directory."""
    flags = BASE[1:] + ["-O2", "-std=gnu11"] + PARDEF
    srcs = [s for s in sorted(glob.glob(REPO + "/xcsf/*.c")) if os.path.basename(s) != "main.c"]
    jobs = [("gcc", s, flags, repo_headers()) for s in srcs]
    cfl = BASE[1:] + ["-O1", "-std=gnu++11", "-fvisibility=hidden", "-isystem", "/usr/include/python3.12", "-fopenmp"]
    jobs.append(("g++", REPO + "/xcsf/pybind_wrapper.cpp", cfl, repo_headers()))
    o = compile_all(jobs)
    pyfiles = [p for p in glob.glob(REPO + "/xcsf/**/*.py", recursive=True)]
    d = os.path.join(CACHE, "py_" + digest(o, *[read(p) for p in sorted(pyfiles)]))
    if not os.path.exists(d):
        tmp = d + ".%d.tmp" % os.getpid()
        pk = os.path.join(tmp, "xcsf")
        os.makedirs(pk)
        r = sh(["g++", "-shared", "-fopenmp"] + o + LIBS + ["-o", pk + "/xcsf.cpython-312-x86_64-linux-gnu.so"])
        if r.returncode:
            raise BuildError(r.stdout[-3000:])
        for p in pyfiles:
            q = os.path.join(pk, os.path.relpath(p, REPO + "/xcsf"))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copy(p, q)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp)
    return d


def build_main():
    """Compile the command-line program. Returns its path."""
    flags = BASE + ["-std=gnu11", "-fexceptions"] + VARIANTS["ubparallel"]
    o = compile_all(lib_jobs("ubparallel") + [("gcc", REPO + "/xcsf/main.c", flags, repo_headers())])
    exe = os.path.join(CACHE, "main_" + digest(o))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(["gcc"] + VARIANTS["ubparallel"] + o + LIBS + ["-o", tmp])
        if r.returncode:
            raise BuildError(r.stdout[-3000:])
        os.rename(tmp, exe)
    return exe


def env_for(scratch, omp=2):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=1:halt_on_error=1:detect_leaks=0:allocator_may_return_null=0:handle_abort=0:quarantine_size_mb=16:malloc_context_size=6:detect_stack_use_after_return=0:max_malloc_fill_size=1048576:malloc_fill_byte=255"
    e["UBSAN_OPTIONS"] = "abort_on_error=1:halt_on_error=1:print_stacktrace=1"
    e["OMP_NUM_THREADS"] = str(omp)
    e["OMP_WAIT_POLICY"] = "passive"
    e["GOMP_SPINCOUNT"] = "0"
    e["PBT_SCRATCH"] = scratch
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0"  # bytes in use are exact (C37)
    e["LC_ALL"] = "C.UTF-8"
    return e


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid):
                out.append(l.split(" ", 2)[2].strip())
    return out


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=BUILD)
    maxsec = float(os.environ.get("PBT_MAXSEC", 150 if tier == "quick" else 2400))
    try:
        procs = []
        if pid in PYPROPS:
            mod = build_module()
            if pid in MAINPROPS:
                os.environ["PBT_MAIN"] = build_main()
            cmd0 = [PY, "-B", os.path.join(H, pid.lower() + ".py")]
            info = json.loads(subprocess.check_output(cmd0 + ["info"], env=dict(env_for(work), PYTHONPATH=mod + ":" + H), text=True))
            cmds = [(cmd0, "python", 1) for i in range(NW)]
        else:
            variants = PROPVAR.get(pid, ["serial", "parallel"])
            exes = build_harness(pid, variants)
            info = json.loads(subprocess.check_output([exes[variants[0]], "info"], env=env_for(work), text=True))
            cmds = [([exes[variants[i % len(variants)]]], variants[i % len(variants)], 2 + i % 2) for i in range(NW)]
            mod = ""
        n = int(os.environ.get("PBT_CASES", info[tier]))
        tb = time.time()
        for i, (c, v, omp) in enumerate(cmds):
            e = env_for(work, omp)
            if mod:
                e["PYTHONPATH"] = mod + ":" + H
            procs.append(subprocess.Popen(
                c + ["run", str(seed), str(i), str(NW), str(n), str(maxsec), os.path.join(work, "w%d" % i), v],
                env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                stderr=open(os.path.join(work, "w%d.log" % i), "w")))
        # one violation is enough: stop the others soon after
        found_at = None
        while any(p.poll() is None for p in procs):
            time.sleep(0.05)
            if any(p.poll() == 1 for p in procs) and glob.glob(os.path.join(work, "w*.replay")):
                found_at = found_at or time.time()
                if time.time() - found_at > 2:
                    for p in procs:
                        if p.poll() is None:
                            p.terminate()
        st = dict(done=0, nontrivial=0, discarded=0, unreproduced=0)
        counters, samples, hashes, replays, broken = {}, [], set(), [], []
        for i, p in enumerate(procs):
            b = os.path.join(work, "w%d" % i)
            log = open(b + ".log").read().strip()
            if log:
                print("worker %d: %s" % (i, log[-400:]))
            if os.path.exists(b + ".replay"):
                dst = os.path.join(BUILD, "replays", "%s-%d-w%d.json" % (pid, seed, i))
                shutil.copy(b + ".replay", dst)
                replays.append(dst)
            if not os.path.exists(b + ".stats"):
                broken.append((i, p.returncode))
                continue
            s = json.load(open(b + ".stats"))
            for k in st:
                st[k] += s[k]
            for k, v in s["counters"].items():
                counters[k] = counters.get(k, 0) + v
            if os.path.exists(b + ".hashes"):
                d = read(b + ".hashes")
                hashes.update(d[j:j + 8] for j in range(0, len(d), 8))
            if os.path.exists(b + ".samples"):
                samples += [json.loads(l) for l in open(b + ".samples", errors="replace") if l.strip()]
        samples.sort(key=lambda s: s["case"])
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=st["done"], distinct_nontrivial=len(hashes), rule=info["rule"],
                                samples=samples[:8], discarded=st["discarded"], requested=n,
                                failed_once_but_not_reproduced=st["unreproduced"], counters=counters,
                                build_s=round(tb - t0, 1)),
                  wall_s=round(time.time() - t0, 2), violations=len(replays))
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s) %s" % (
            pid, tier, st["done"], len(hashes), time.time() - t0, tb - t0, json.dumps(counters)))
        if replays:
            replays.sort(key=os.path.getsize)
            d = json.load(open(replays[0]))
            print("  %s: %s\n  case: %s" % (d["kind"], d["message"][:700], d["case"][:800]))
            print("VIOLATION property=%s replay=%s" % (pid, replays[0]))
            return 1
        if broken:
            print("workers ended without a result: %s" % broken)
            return 2
        return 0
    except BuildError as e:
        print("build failed:\n%s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    pid, v = d["property"], d.get("variant", "serial")
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        if pid in PYPROPS:
            mod = build_module()
            if pid in MAINPROPS:
                os.environ["PBT_MAIN"] = build_main()
            cmd = [PY, "-B", os.path.join(H, pid.lower() + ".py")]
        else:
            mod = ""
            cmd = [build_harness(pid, [v])[v]]
        e = env_for(work, d.get("omp") or 2)
        if mod:
            e["PYTHONPATH"] = mod + ":" + H
        r = subprocess.run(cmd + ["replay", os.path.abspath(path)], env=e)
        if r.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    os.makedirs(BUILD, exist_ok=True)
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        pids = sorted(os.path.basename(p)[:-4].upper() for p in glob.glob(H + "/c[0-9]*.cpp"))
        for p in pids:
            build_harness(p, PROPVAR.get(p, ["serial", "parallel"]))
        if glob.glob(H + "/c[0-9]*.py"):
            build_module()
            build_main()
        return 0
    if a[:1] == ["replay"]:
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
