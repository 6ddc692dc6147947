"""C34: the command-line program runs the requested experiment and reports it truthfully."""
import itertools, json, os, signal, subprocess
import numpy as np
import pbt
from pbt import check, close
from pycommon import *
import xcsf

MAIN = os.environ.get("PBT_MAIN", "")
HALF = 0.6e-5  # half a unit of the last printed digit, and some rounding


def write(path, text):
    with open(path, "w") as f:
        f.write(text)


def run_main(*args):
    """(exit code, printed lines)"""
    e = dict(os.environ)
    e.pop("PYTHONPATH", None)
    p = subprocess.run([MAIN] + list(args), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                       preexec_fn=lambda: (signal.setitimer(signal.ITIMER_PROF, pbt.CPU), signal.signal(signal.SIGPROF, signal.SIG_DFL)))
    if p.returncode < 0:
        s = -p.returncode
        err = [l for l in p.stderr.decode(errors="replace").splitlines() if "ERROR" in l or "runtime error" in l or "    #" in l][:8]
        raise pbt.Fail("hang" if s == signal.SIGPROF else "crash:signal%d" % s, "xcsf %s was ended by signal %d: %s" % (" ".join(args), s, " | ".join(err)))
    return p.returncode, p.stdout.decode(errors="replace").splitlines()


def experiment(*args):
    """(parameters, performance lines, lines before) of a run that has to succeed"""
    rc, out = run_main(*args)
    check(rc == 0, "exit", "xcsf %s ended with exit code %d: %s" % (" ".join(args), rc, out[-2:]))
    a = [i for i, l in enumerate(out) if l.startswith("{")]
    b = [i for i, l in enumerate(out) if l.startswith("}")]
    check(a and b, "parameters", "no parameters printed")
    params = json.loads("\n".join(out[a[0]:b[-1] + 1]))
    perf = []
    for l in out[b[-1] + 1:]:
        if l.strip():
            f = l.split()
            check(len(f) == 4, "line", "printed '%s'" % l)
            perf.append((int(f[0]), float(f[1]), float(f[2]), int(f[3])))
    return params, perf, out[:a[0]]


def spell(src, k):
    """The text of a configuration file, with the liberties a file may take."""
    t = json.dumps(k, indent=src.pick([2, 4, 0, 1]))
    out = []
    for l in t.split("\n"):
        if src.chance(1, 8):
            out.append(src.pick(["# a comment", "   # {\"beta\": 7}", "", "\t", "#"]))
        if src.chance(1, 8):
            l = src.pick(["\t", "  "]) + l
        if src.chance(1, 6):
            l += src.pick([" # why", "  ", "\t# x: 1,", " #"])
        out.append(l)
    eol = "\r\n" if src.chance(1, 8) else "\n"
    return eol.join(out) + ("" if src.flip() else eol)


def due(M, P):
    return [t for t in range(1, M) if t % P == 0]


def lines_due(perf, M, P):
    check([l[0] for l in perf] == due(M, P), "lines", "performance of trials %s printed, %s due" % ([l[0] for l in perf], due(M, P)))


def csv(path, rows, src=None):
    write(path, "".join(",".join(repr(float(v)) for v in r) + "\n" for r in rows))


class One:
    """One rule that matches everything (supervised)."""

    def __init__(self, k):
        self.k = k
        self.exp = 0
        if k["prediction"]["type"] == "constant":
            self.w = np.zeros(k["y_dim"])
        else:
            self.w = np.zeros((k["y_dim"], k["x_dim"] + 1))
            self.w[:, 0] = k["prediction"]["args"]["x0"]

    def copy(self):
        o = One.__new__(One)
        o.k, o.exp, o.w = self.k, self.exp, self.w
        return o

    def feat(self, x):
        return np.concatenate(([self.k["prediction"]["args"]["x0"]], x))

    def predict(self, x):
        return self.w if self.k["prediction"]["type"] == "constant" else self.w @ self.feat(x)

    def loss(self, x, y):
        return loss(self.k["loss_func"], self.predict(x), y, self.k.get("huber_delta", 1.0))

    def learn(self, x, y):
        self.exp += 1
        b = self.k["beta"]
        if self.k["prediction"]["type"] == "constant":
            self.w = (self.w * (self.exp - 1) + y) / self.exp if self.exp * b < 1 else self.w + b * (y - self.w)
        else:
            f = self.feat(x)
            n = float(f @ f)
            if n > 0:
                self.w = self.w + np.outer(self.k["prediction"]["args"]["eta"] * (y - self.predict(x)) / n, f)

    def key(self):
        return tuple(np.round(self.w.ravel(), 9))


def save_model(k, X, Y, trials, fn, copies):
    x = xcsf.XCS(**k)
    if copies:
        x.json_insert_cl(json.dumps(dict(numerosity=copies)))
    x.fit(X[:1], Y[:1], shuffle=False, verbose=False) if trials else None
    x.save(fn)
    return dict(params=json.dumps(x.internal_params()), size=x.pset_size())


def internal(k):
    return json.dumps(xcsf.XCS(**k).internal_params())


def same_params(got, want, what):
    """Printed numbers carry fifteen digits."""
    bad = [q for q in sorted(set(got) | set(want)) if q not in got or q not in want or not alike(got[q], want[q])]
    check(not bad, "parameters", "%s: %s" % (what, "; ".join("%s is %s, expected %s" % (q, json.dumps(got.get(q)), json.dumps(want.get(q))) for q in bad[:3])))


def alike(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(alike(a[q], b[q]) for q in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(p, q) for p, q in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return close(float(a), float(b), 1e-12, 1e-14)
    return type(a) == type(b) and a == b


def run_csv_exact(src, c, d):
    """Everything but the row drawn is known: the printed errors have to be those of some row."""
    xd, yd = src.range(1, 3), src.range(1, 2)
    nt, ne = src.range(1, 3), src.range(1, 3)
    P = src.range(1, 2) if max(nt, ne) > 1 else src.range(1, 12)
    M = src.range(1, 30)
    k = dict(omp_num_threads=1, x_dim=xd, y_dim=yd, n_actions=1, random_state=src.range(0, 10 ** 6), pop_size=src.range(1, 50), pop_init=bool(src.flip()),
             max_trials=M, perf_trials=P, beta=src.pick([0.1, 0.5, 1.0, 0.02]), loss_func=src.pick(["mae", "mse", "rmse", "huber"]),
             ea=dict(theta_ea=10 ** 6), set_subsumption=False, compaction=False, condition=dict(type="dummy"))
    if k["loss_func"] == "huber":
        k["huber_delta"] = src.pick([1.0, 0.25])
    k["pop_size"] = 1
    if src.flip():
        k["prediction"] = dict(type="constant")
    else:
        k["prediction"] = dict(type="nlms_linear", args=dict(x0=src.pick([1, 0.5]), eta=src.pick([0.1, 0.5]), evolve_eta=False))
    rows = lambda n, w: np.array([[src.range(-8, 16) / 16.0 + 3 * i for _ in range(w)] for i in range(n)])
    tx, ty, ex, ey = rows(nt, xd) / 8, rows(nt, yd), rows(ne, xd) / 8, rows(ne, yd)
    base = os.path.join(d, "p")
    for n, r in (("train_x", tx), ("train_y", ty), ("test_x", ex), ("test_y", ey)):
        csv(base + "_" + n + ".csv", r)
    cfg = os.path.join(d, "c.json")
    args = ["csv", base, cfg]
    hyp = [One(k)]
    file = {q: v for q, v in k.items() if q not in ("x_dim", "y_dim", "n_actions")}
    load = src.chance(1, 4)
    want = None
    if load:
        # the parameters of a loaded model take the place of those of the file
        fn = os.path.join(d, "m.bin")
        train = src.flip()
        copies = src.pick([0, 0, 2, 7])
        if copies:
            k["pop_size"], k["pop_init"] = 10, False
        info = pbt.in_child(save_model, dict(k, max_trials=1, perf_trials=1) if train else k, tx, ty, train, fn, copies)
        if train:
            hyp[0].learn(tx[0], ty[0])
            M, P = 1, 1
        file = dict(file, max_trials=src.range(1, 40), perf_trials=src.range(1, 3), beta=0.3, loss_func="mae", random_state=5)
        args.append(fn)
        want = json.loads(info["params"])
    else:
        want = json.loads(pbt.in_child(internal, k))
    write(cfg, spell(src, file))
    c.desc = "csv exact%s: %s, %d training and %d test rows" % (" after loading" if load else "", brief(k), nt, ne)
    params, perf, head = experiment(*args)
    same_params(params, want, "the parameters printed")
    lines_due(perf, M, P)
    loaded = [l for l in head if l.startswith("Loaded:")]
    for l, (n, w) in zip(loaded, ((nt, xd), (nt, yd), (ne, xd), (ne, yd))):
        check("samples=%d," % n in l and l.endswith("dim=%d" % w), "loaded", "printed '%s' for %d rows of %d values" % (l, n, w))
    start = 0
    left = True
    for t, e, te, size in perf:
        check(size == 1, "size", "%d rules reported, there is one", size)
        span = t - start + 1
        nxt = {}
        for h in hyp:
            for tr in itertools.product(range(nt), repeat=span):
                g, se, trs = h.copy(), 0.0, []
                for i in tr:
                    se += g.loss(tx[i], ty[i])
                    g.learn(tx[i], ty[i])
                    trs.append(g.copy())
                if abs(se / span - e) > HALF * (1 + abs(e)):
                    continue
                for ev in itertools.product(range(ne), repeat=span):
                    st = sum(q.loss(ex[i], ey[i]) for q, i in zip(trs, ev))
                    if abs(st / span - te) <= HALF * (1 + abs(te)):
                        nxt.setdefault(g.key(), g)
                        break
        check(nxt, "errors", "trial %d: mean errors %.5f and %.5f printed are those of no choice of rows" % (t, e, te))
        hyp = list(nxt.values())
        start = t + 1
        if len(hyp) > 40:
            break
        c.count("lines explained")
    c.nontrivial = bool(perf)


def run_sampling(src, c, d):
    """Rows are drawn from all of the data."""
    rows = [src.range(2, 4), src.range(2, 4)]
    k = dict(omp_num_threads=1, random_state=src.range(0, 10 ** 6), pop_size=1, pop_init=False, max_trials=400, perf_trials=1, beta=1e-9,
             loss_func="mae", ea=dict(theta_ea=10 ** 6), set_subsumption=False, compaction=False, condition=dict(type="dummy"),
             prediction=dict(type="nlms_linear", args=dict(x0=0, eta=0, evolve_eta=False)))
    base = os.path.join(d, "p")
    for q, n in zip(("train", "test"), rows):
        y = [[10.0 ** i] for i in range(n)]
        csv(base + "_%s_x.csv" % q, [[0.5]] * n)
        csv(base + "_%s_y.csv" % q, y)
    cfg = os.path.join(d, "c.json")
    write(cfg, spell(src, k))
    c.desc = "sampling of %d training and %d test rows" % tuple(rows)
    _, perf, _ = experiment("csv", base, cfg)
    lines_due(perf, 400, 1)
    for col, name, n in ((1, "training", rows[0]), (2, "test", rows[1])):
        seen = {}
        for l in perf[1:]:
            r = [i for i in range(n) if abs(l[col] - 10.0 ** i) < 1e-4]
            check(len(r) == 1, "sample", "%s error %.5f is of no row" % (name, l[col]))
            seen[r[0]] = seen.get(r[0], 0) + 1
        order = [[i for i in range(n) if abs(l[col] - 10.0 ** i) < 1e-4][0] for l in perf[1:]]
        # of up to 398 pairs of draws at most half are expected to agree
        for lag in (1, n, 2 * n):
            again = sum(p == q for p, q in zip(order, order[lag:]))
            check(again <= 330, "order", "%s rows come in a fixed order: %s" % (name, order[:3 * n]))
        # 398 draws; a row drawn with probability of at least 1/4 appears 30 to 330 times but for 1e-13
        for i in range(n):
            check(30 <= seen.get(i, 0) <= 330, "sample", "%s row %d of %d was drawn %d times in %d" % (name, i, n, seen.get(i, 0), len(perf) - 1))
    c.nontrivial = True
    c.count("sampling runs")


def run_mp_exact(src, c, d):
    """Two rules that match everything: hidden are the actions and rewards of exploring trials."""
    M, P = src.range(2, 14), 1
    k = dict(omp_num_threads=1, x_dim=6, y_dim=1, n_actions=2, random_state=src.range(0, 10 ** 6), pop_size=20, pop_init=False, max_trials=M, perf_trials=P,
             beta=src.pick([0.1, 0.3, 0.5]), loss_func=src.pick(["mae", "mse", "rmse", "huber"]), p_explore=src.pick([0.0, 0.5, 1.0]), gamma=0.5,
             ea=dict(theta_ea=10 ** 6), set_subsumption=False, compaction=False, condition=dict(type="dummy"), action=dict(type="integer"),
             prediction=dict(type="constant"))
    cfg = os.path.join(d, "c.json")
    write(cfg, spell(src, {q: v for q, v in k.items() if q not in ("x_dim", "y_dim", "n_actions")}))
    c.desc = "mp exact: " + brief(k)
    params, perf, _ = experiment("mp", src.pick(["6", "7", "10"]), cfg)
    same_params(params, json.loads(pbt.in_child(internal, k)), "the parameters printed")
    lines_due(perf, M, P)
    b = k["beta"]

    def upd(w, n, a, r):
        w, n = list(w), list(n)
        n[a] += 1
        w[a] = (w[a] * (n[a] - 1) + r) / n[a] if n[a] * b < 1 else w[a] + b * (r - w[a])
        return tuple(w), tuple(n)

    def best(w):
        m = max(w)
        return [a for a in (0, 1) if w[a] >= m - 1e-12]

    def trial(h):
        """(state, performance, error) after an exploring and an exploiting trial"""
        for a in ((0, 1) if k["p_explore"] > 0 else best(h[0])):
            for r in (0, 1):
                g = upd(h[0], h[1], a, r)
                for a2 in best(g[0]):
                    for r2 in (0, 1):
                        yield upd(g[0], g[1], a2, r2), r2, loss(k["loss_func"], [g[0][a2]], [r2], 1.0)

    hyp = {((0.0, 0.0), (0, 0))}
    first = True
    for t, p, e, size in perf:
        check(size == 2, "size", "%d rules reported, there are two", size)
        nxt = set()
        for h in hyp:
            if first:  # trials 0 and 1
                for h1, p1, e1 in trial(h):
                    for h2, p2, e2 in trial(h1):
                        if abs((p1 + p2) / 2 - p) < HALF and abs((e1 + e2) / 2 - e) < HALF:
                            nxt.add((tuple(round(v, 12) for v in h2[0]), h2[1]))
            else:
                for h1, p1, e1 in trial(h):
                    if abs(p1 - p) < HALF and abs(e1 - e) < HALF:
                        nxt.add((tuple(round(v, 12) for v in h1[0]), h1[1]))
        first = False
        check(nxt, "performance", "trial %d: performance %.5f and error %.5f printed are those of no history" % (t, p, e))
        hyp = nxt
        c.count("lines explained")
        if len(hyp) > 1500:
            break
    c.nontrivial = True


def maze(src):
    kind = src.pick(["open", "closed", "one step", "random"])
    w, h = src.range(3, 7), src.range(3, 7)
    if kind == "one step":
        g = [["F"] * w for _ in range(h)]
        for y in range(0, h - 1, 2):
            for x in range(0, w - 1, 2):
                g[y][x] = "*"
    else:
        g = [[src.pick("****OOQ") for _ in range(w)] for _ in range(h)]
        if kind != "closed":
            for _ in range(src.range(1, 3)):
                g[src.below(h)][src.below(w)] = src.pick("FG")
        if kind == "open":
            g = [[("*" if q in "OQ" else q) for q in r] for r in g]
        g[src.below(h)][src.below(w)] = "*"
    return kind, "\n".join("".join(r) for r in g) + "\n", "F" in sum(g, []) or "G" in sum(g, [])


def run_windows(src, c, d):
    """Any configuration: one window is the mean of its trials, a run repeats itself."""
    what = src.pick(["csv", "mp", "maze"])
    M = src.range(3, 40)
    if what == "csv":
        xd, yd = src.range(1, 3), src.range(1, 2)
        k = config(src, x_dim=xd, y_dim=yd)
        base = os.path.join(d, "p")
        n, e = src.range(1, 8), src.range(1, 8)
        for q, m, w in (("train_x", n, xd), ("train_y", n, yd), ("test_x", e, xd), ("test_y", e, yd)):
            csv(base + "_" + q + ".csv", data(src, m, w, 0))
        args = ["csv", base]
    elif what == "mp":
        size = src.pick([6, 3, 11, 20])
        k = config(src, rl=True, x_dim=dict([(6, 6), (3, 3), (11, 11), (20, 20)])[size])
        args = ["mp", str(size)]
    else:
        kind, text, goal = maze(src)
        k = config(src, rl=True, x_dim=8)
        k["teletransportation"] = src.pick([50, 5, 1, 20])
        k["pop_size"] = 200
        M = min(M, 12)
        fn = os.path.join(d, "maze.txt")
        write(fn, text)
        args = ["maze", fn]
    if what != "csv" and k["prediction"]["type"].startswith("rls"):  # cubic in the number of inputs
        k["prediction"] = dict(type="nlms_linear", args=dict(x0=1, eta=0.1, evolve_eta=False)) if k["x_dim"] > 8 else dict(k["prediction"], type="rls_linear")
    if k["condition"]["type"] == "tree_gp" or what != "csv":
        k["pop_size"] = max(k["pop_size"], 100)
    if what == "maze" and k["condition"]["type"] in ("ternary",):
        k["condition"]["args"]["bits"] = 2
    P = src.range(1, M - 1)
    file = {q: v for q, v in k.items() if q not in ("x_dim", "y_dim", "n_actions")}
    cfg = [os.path.join(d, "c%d.json" % i) for i in range(2)]
    write(cfg[0], spell(src, dict(file, max_trials=M, perf_trials=1)))
    write(cfg[1], spell(src, dict(file, max_trials=M, perf_trials=P)))
    c.desc = "%s windows of %d in %d trials: %s" % (what, P, M, brief(k)) + ("\n" + text if what == "maze" else "")
    p1, one, _ = experiment(*(args + cfg[:1]))
    pp, per, _ = experiment(*(args + cfg[1:]))
    lines_due(one, M, 1)
    lines_due(per, M, P)
    p1["perf_trials"] = pp["perf_trials"]
    same_params(p1, pp, "the parameters of the same configuration")
    for col, name in ((1, "first"), (2, "second")):
        v = [2 * one[0][col]] + [l[col] for l in one[1:]]  # trials 0 and 1, 2, 3, ...
        tot, cnt, j = 0.0, 0, 0
        for t in range(1, M):
            tot += v[t - 1]
            cnt += 2 if t == 1 else 1
            if t % P == 0:
                m = tot / cnt
                check(abs(per[j][col] - m) <= 1.2e-5 * (1 + abs(m)), "window", "%s column: %.5f printed at trial %d, the mean of its %d trials is %.5f" % (name, per[j][col], t, cnt, m))
                tot, cnt, j = 0.0, 0, j + 1
    for l in per:
        check(l[3] == one[l[0] - 1][3], "size", "%d rules at trial %d, and %d in the same run" % (l[3], l[0], one[l[0] - 1][3]))
        check(1 <= l[3] <= max(k["pop_size"], 1), "size", "%d rules of at most %d" % (l[3], k["pop_size"]))
    if what == "mp":
        for l in one[1:]:
            check(l[1] in (0, 1), "performance", "one multiplexer trial of performance %.5f" % l[1])
    if what == "maze":
        T = k["teletransportation"]
        for l in one[1:]:
            check(1 <= l[1] <= T and l[1] == int(l[1]), "steps", "a trial of %.5f steps of at most %d" % (l[1], T))
            check(goal or l[1] == T, "steps", "a trial ended after %.5f steps where there is no goal" % l[1])
            check(kind != "one step" or l[1] == 1, "steps", "a trial took %.5f steps where each step ends it" % l[1])
    c.nontrivial = True
    c.count(what)


def run_errors(src, c, d):
    """Calls that cannot be served end with a failure, not a crash."""
    cfg, base, mz = os.path.join(d, "c.json"), os.path.join(d, "p"), os.path.join(d, "m.txt")
    k = dict(omp_num_threads=1, max_trials=3, perf_trials=1, pop_size=10, random_state=1)
    write(cfg, spell(src, k))
    rows = dict(train_x=[[0.1, 0.2]] * 3, train_y=[[1.0]] * 3, test_x=[[0.1, 0.2]] * 2, test_y=[[1.0]] * 2)
    what = src.pick(["few", "many", "problem", "no csv", "ragged", "samples", "dims", "empty", "no maze", "big maze", "bad maze", "json", "unknown", "fine"])
    c.desc = "call: " + what
    args = ["csv", base, cfg]
    ok = False
    if what == "few":
        args = src.pick([[], ["csv"], ["mp"]])
    elif what == "many":
        args += ["a", "b"]
    elif what == "problem":
        args[0] = src.pick(["CSV", "mux", "", "c", "csvx"])
    elif what == "no csv":
        del rows[src.pick(list(rows))]
    elif what == "ragged":
        q = src.pick(list(rows))
        rows[q] = [r + [0.5] for r in rows[q][:1]] + rows[q][1:]
    elif what == "samples":
        q = src.pick(list(rows))
        rows[q] = rows[q] + rows[q][:1]
    elif what == "dims":
        q = src.pick(list(rows))
        rows[q] = [r + [0.5] for r in rows[q]]
    elif what == "empty":
        rows[src.pick(list(rows))] = []
    elif what == "no maze":
        args = ["maze", os.path.join(d, "none.txt"), cfg]
    elif what == "big maze":
        n = src.range(60, 300)
        write(mz, ("*" * n + "\n") if src.flip() else "*\n" * n)
        args = ["maze", mz, cfg]
    elif what == "bad maze":
        write(mz, "OO*\nxyz\nF**\n")
        args = ["maze", mz, cfg]
    elif what == "json":
        write(cfg, json.dumps(k)[:src.range(1, 20)])
    elif what == "unknown":
        write(cfg, json.dumps(dict(k, nonsense=1)))
    else:
        ok = True
    for q, r in rows.items():
        csv(base + "_" + q + ".csv", r)
    rc, out = run_main(*args)
    check(rc == (0 if ok else 1), "exit", "a call with the fault '%s' ended with exit code %d: %s" % (what, rc, out[-1:]))
    check(out, "message", "nothing was printed")
    c.count("calls that fail" if not ok else "plain calls")
    c.nontrivial = not ok


def run(src, c):
    d = pbt.scratch()
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.chdir(d)
    src.pick([run_csv_exact, run_csv_exact, run_csv_exact, run_mp_exact, run_mp_exact, run_windows, run_windows, run_windows, run_sampling, run_errors])(src, c, d)


if __name__ == "__main__":
    pbt.main("C34", "runs of the command-line program: csv data with one all-matching rule, where the printed window means have to be those of some choice of rows of an "
             "independent model (also after loading a model saved from Python); multiplexer runs with two all-matching rules explained likewise; arbitrary configurations, data, "
             "multiplexers and mazes whose windows have to be the means of single trials of the same run; row sampling; configuration files with comments; faulty calls. "
             "Non-trivial: at least one performance line was explained, or a faulty call refused.", run, 4000, 80000, 60)
