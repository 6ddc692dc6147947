"""The engine of engine.cpp for checks that go through the Python module:
recorded choice streams, forked workers, integrated shrinking.

A check file calls main(id, rule, run, quick, thorough, case_cpu_s)."""
import ctypes, json, math, mmap, os, pickle, shutil, signal, struct, sys, time, traceback

M64 = (1 << 64) - 1


class Fail(Exception):
    def __init__(self, kind, msg):
        super().__init__(kind, msg)
        self.kind, self.msg = kind, msg


class Discard(Exception):
    pass


def check(cond, kind, msg="", *a):
    if not cond:
        raise Fail(kind, (msg % a) if a else msg)


def splitmix(x):
    x = (x + 0x9E3779B97F4A7C15) & M64
    z = x
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return x, z ^ (z >> 31)


class Src:
    """A stream of bounded choices; missing choices of a replay are 0."""

    def __init__(self, seed=None, choices=None):
        self.replay = choices is not None
        self.ch = list(choices) if self.replay else []
        self.pos = 0
        self.s = seed or 0

    def below(self, n):
        n = max(1, int(n))
        if self.replay:
            v = self.ch[self.pos] if self.pos < len(self.ch) else 0
            self.pos += 1
            return v % n
        self.s, v = splitmix(self.s)
        v %= n
        self.ch.append(v)
        self.pos += 1
        return v

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, num, den):
        return self.below(den) >= den - num

    def flip(self):
        return self.below(2) == 1

    def unit(self):
        return self.below(1 << 53) / 9007199254740992.0

    def uniform(self, lo, hi):
        return lo + (hi - lo) * self.unit()

    def real(self, lo, hi):
        k = self.below(8)
        if k == 0:
            return lo
        if k == 1:
            return hi
        if k == 2:
            return lo + 0.5 * (hi - lo)
        if k == 3:
            return lo + (hi - lo) * self.below(11) * 0.1
        return self.uniform(lo, hi)

    def pick(self, v):
        return v[self.below(len(v))]

    def pickw(self, w):
        r = self.below(sum(w))
        for i, x in enumerate(w):
            if r < x:
                return i
            r -= x


class Case:
    def __init__(self, counting=True):
        self.nontrivial = False
        self.desc = ""
        self.counters = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n


def close(a, b, rel=1e-9, ab=1e-12):
    if a == b or (a != a and b != b):
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def scratch():
    d = os.path.join(os.environ.get("PBT_SCRATCH", "/tmp"), "py%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def _rm_scratch(pid):
    shutil.rmtree(os.path.join(os.environ.get("PBT_SCRATCH", "/tmp"), "py%d" % pid), ignore_errors=True)


def quiet():
    n = os.open("/dev/null", os.O_WRONLY)
    os.dup2(n, 1)
    os.close(n)


def _watch():
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def in_child(f, *a):
    """Run f in a forked process and return its result. Every model lives in a
    process of its own, because the generator of the library is global."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _watch()
        signal.setitimer(signal.ITIMER_PROF, CPU)
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        try:
            out = ("ok", f(*a))
        except Fail as e:
            out = ("fail", e.kind, e.msg)
        except Discard:
            out = ("discard",)
        except BaseException as e:
            out = ("fail", "exception:" + type(e).__name__, traceback.format_exc()[-1500:])
        try:
            b = pickle.dumps(out)
            o = 0
            while o < len(b):
                o += os.write(w, b[o:])
        finally:
            os._exit(0)
    os.close(w)
    parts = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        parts.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    _rm_scratch(pid)
    if st or not parts:
        if os.WIFSIGNALED(st):
            s = os.WTERMSIG(st)
            raise Fail("hang" if s == signal.SIGPROF else "crash:signal%d" % s, "the process running the model was ended by signal %d" % s)
        raise Fail("crash:exit%d" % os.WEXITSTATUS(st), "the library ended the process with exit(%d)" % os.WEXITSTATUS(st))
    out = pickle.loads(b"".join(parts))
    if out[0] == "ok":
        return out[1]
    if out[0] == "discard":
        raise Discard()
    raise Fail(out[1], out[2])


CPU = 60


def run_one(run, src):
    c = Case()
    try:
        run(src, c)
        return 0, "", "", c
    except Fail as e:
        return 1, e.kind, e.msg, c
    except Discard:
        return 2, "", "", c
    except Exception as e:
        return 1, "exception:" + type(e).__name__, traceback.format_exc()[-1500:], c


def attempt(run, ch):
    s = Src(choices=ch)
    code, kind, msg, c = run_one(run, s)
    return code, kind, msg, c.desc, s.pos


def shrink(run, best, kind, limit, last):
    t0 = time.time()
    over = lambda: time.time() - t0 > limit
    state = [list(best), last]

    def tryc(c):
        o = attempt(run, c)
        if o[0] == 1 and o[1] == kind:
            state[0] = c[:o[4]]
            state[1] = o
            return True
        return False
    progress = True
    while progress and not over():
        progress = False
        keep = len(state[0]) // 2
        while keep < len(state[0]) and not over():
            if tryc(state[0][:keep]):
                progress = True
                keep = len(state[0]) // 2
                if len(state[0]) <= 1:
                    break
            else:
                gap = len(state[0]) - keep
                if gap <= 1:
                    break
                keep = len(state[0]) - gap // 2
        for k in (64, 16, 4, 1):
            i = 0
            while i + k <= len(state[0]) and not over():
                c = state[0][:i] + state[0][i + k:]
                if tryc(c):
                    progress = True
                else:
                    i += k
        for k in (16, 4, 1):
            i = 0
            while i < len(state[0]) and not over():
                c = list(state[0])
                if any(c[i:i + k]):
                    c[i:i + k] = [0] * len(c[i:i + k])
                    if tryc(c):
                        progress = True
                i += k
        i = 0
        while i < len(state[0]) and not over():
            lo = 0
            while i < len(state[0]) and lo < state[0][i] and not over():
                c = list(state[0])
                c[i] = mid = lo + (c[i] - lo) // 2
                if tryc(c):
                    progress = True
                else:
                    lo = mid + 1
            i += 1
    return state


def case_seed(seed, i):
    return splitmix((seed * 0x9E3779B97F4A7C15 + i * 0xD1342543DE82EF95 + 12345) & M64)[1]


def main(*args):
    try:
        _main(*args)
    except Exception:
        traceback.print_exc()
        sys.exit(3)


def _main(pid, rule, run, quick_cases, thorough_cases, case_cpu_s):
    global CPU
    CPU = case_cpu_s
    a = sys.argv[1:]
    if a[0] == "info":
        print(json.dumps(dict(id=pid, rule=rule, quick=quick_cases, thorough=thorough_cases)))
        return
    os.chdir(scratch())
    if a[0] == "replay":
        d = json.load(open(a[1]))
        if not os.environ.get("PBT_VERBOSE"):
            old = os.dup(1)
            quiet()
        o = attempt(run, d["choices"])
        sys.stderr.write("code=%d kind=%s\nmsg: %s\ncase: %s\n" % o[:4])
        _rm_scratch(os.getpid())
        sys.exit(1 if o[0] == 1 else 0)
    seed, worker, nw, n, maxsec, out, variant = int(a[1]), int(a[2]), int(a[3]), int(a[4]), float(a[5]), a[6], a[7]
    quiet()
    t0 = time.time()
    st = dict(done=0, nontrivial=0, discarded=0, unreproduced=0, violated=0)
    counters = {}
    hashes = []
    samples = []
    for i in range(worker, n, nw):
        if time.time() - t0 > maxsec:
            break
        src = Src(seed=case_seed(seed, i))
        code, kind, msg, c = run_one(run, src)
        if code == 1:
            ch = src.ch
            rep, tries, o = 0, 0, None
            while tries < 3 or (tries < 30 and 0 < rep < 2 and kind != "hang"):
                x = attempt(run, ch)
                tries += 1
                if x[0] == 1:
                    rep += 1
                    o = x
            if rep >= 2:
                best = ch
                if rep == tries and kind != "hang":
                    best, o = shrink(run, ch, o[1], float(os.environ.get("PBT_SHRINK_S", 15)), o)
                json.dump(dict(property=pid, variant=variant, omp=os.environ.get("OMP_NUM_THREADS", "1"), seed=seed,
                               case_index=i, reproduced="%d/%d" % (rep, tries), kind=o[1], message=o[2], case=o[3],
                               choices=best), open(out + ".replay", "w"), indent=1)
                st["violated"] = 1
                break
            st["unreproduced"] += 1
            sys.stderr.write("case %d failed once (%s: %s) but did not reproduce\n" % (i, kind, msg[:300]))
            if st["unreproduced"] > 5:
                break
            continue
        st["done"] += 1
        for k, v in c.counters.items():
            counters[k] = counters.get(k, 0) + v
        if code == 2:
            st["discarded"] += 1
        elif c.nontrivial:
            st["nontrivial"] += 1
            h = 1469598103934665603
            for v in src.ch:
                h = ((h ^ v) * 1099511628211 + 0x9E3779B9) & M64
            hashes.append(h)
            if len(samples) < 3 and st["nontrivial"] % 7 == 1:
                samples.append(json.dumps(dict(case=i, desc=c.desc[:600])))
    st["wall"] = time.time() - t0
    st["counters"] = counters
    with open(out + ".samples", "w") as f:
        f.write("".join(s + "\n" for s in samples))
    with open(out + ".hashes", "wb") as f:
        f.write(struct.pack("<%dQ" % len(hashes), *hashes))
    with open(out + ".stats", "w") as f:
        json.dump(st, f)
    _rm_scratch(os.getpid())
    sys.exit(1 if st["violated"] else 0)
