"""C27: supervised fitting runs the requested trials and reports them truthfully."""
import copy, io, os, pickle, sys
import numpy as np
import pbt
from pbt import check, close
from pycommon import *
import xcsf


class Ref:
    """A population of one rule that always matches: the exact outcome of every
    trial of the reference is known."""

    def __init__(self, k):
        self.k = k
        self.beta = k["beta"]
        self.reset()

    def reset(self):
        self.exp = 0
        self.error = self.k.get("e0", 0.01)
        self.time = 0
        yd, xd = self.k["y_dim"], self.k["x_dim"]
        if self.k["prediction"]["type"] == "constant":
            self.w = np.zeros(yd)
        else:
            a = self.k["prediction"]["args"]
            self.w = np.zeros((yd, xd + 1))
            self.w[:, 0] = a["x0"]

    def feat(self, x):
        return np.concatenate(([self.k["prediction"]["args"]["x0"]], x))

    def predict(self, x):
        return self.w.copy() if self.k["prediction"]["type"] == "constant" else self.w @ self.feat(x)

    def trial(self, x, y):
        p = self.predict(x)
        e = loss(self.k["loss_func"], p, y)
        self.exp += 1
        if self.k["prediction"]["type"] == "constant":
            if self.exp * self.beta < 1:
                self.w = (self.w * (self.exp - 1) + y) / self.exp
            else:
                self.w = self.w + self.beta * (y - self.w)
        else:
            a = self.k["prediction"]["args"]
            f = self.feat(x)
            norm = a["x0"] ** 2 + float(x @ x)
            if norm > 0:
                self.w = self.w + np.outer(a["eta"] * (y - p) / norm, f)
        self.error += self.beta * (e - self.error)
        self.time += 1
        return e

    def score(self, X, Y):
        return float(np.mean([loss(self.k["loss_func"], self.predict(x), y) for x, y in zip(X, Y)]))


class Spy(io.StringIO):
    """Stands in for stdout: looks at the model whenever fit reports."""

    def __init__(self, f):
        super().__init__()
        self.f = f
        self.text = ""

    def write(self, s):
        self.text += s
        self.f()
        return len(s)


def printed(text, f, m, len0, stop, saves, fn):
    """What fit printed is what it recorded, and nothing when it should not."""
    lines = [l for l in text.split("\n") if l.strip()]
    status = [l for l in lines if " trials=" in l and "Callback" not in l]
    check(len(status) == (0 if f["quiet"] else len(m["train"]) - len0), "status", "%d lines of status printed for %d periods, verbose=%s" % (len(status), len(m["train"]) - len0, not f["quiet"]))
    for i, l in enumerate(status):
        v = dict(w.split("=") for w in l.split() if "=" in w)
        check(("val" in v) == (f["val"] is not None), "status", "printed '%s' %s validation data" % (l, "with" if f["val"] is not None else "without"))
        for name, key, half in (("trials", "trials", 0), ("train", "train", 0.6e-5), ("val", "val", 0.6e-5), ("pset", "psize", 0.06), ("mset", "msize", 0.06), ("mfrac", "mfrac", 0.006)):
            if name in v:
                w = m[key][len0 + i]
                check(abs(float(v[name]) - w) <= half + 1e-9 * abs(w), "status", "printed '%s', %s is %s" % (l, key, w))
    es = [cb for cb in f["callbacks"] if cb["type"] == "es"]
    cp = [cb for cb in f["callbacks"] if cb["type"] == "cp"]
    told = [l for l in lines if "CheckpointCallback" in l]
    check(len(told) == (saves if cp and cp[0]["verbose"] else 0), "status", "%d saved checkpoints told, %d saved, verbose=%s" % (len(told), saves, [cb["verbose"] for cb in cp]))
    check(all(fn in l for l in told), "status", "told '%s' of file %s" % (told[:1], fn))
    told = [l for l in lines if "EarlyStoppingCallback" in l]
    check(not told or es and es[0]["verbose"], "status", "printed '%s' with verbose off" % told[:1])
    if es and es[0]["verbose"]:
        n = sum("stopping" in l for l in told)
        check(n == (stop is not None), "status", "early stopping %s but %s" % ("happened" if stop is not None else "did not happen", told))
    check(len(lines) == len(status) + sum("Callback" in l for l in lines), "status", "also printed %s" % [l for l in lines if " trials=" not in l and "Callback" not in l][:2])


def expect_stop(mon, trials, es, first):
    """Index (exclusive) at which early stopping ends, and the best entry."""
    best, bt, bi = float("inf"), 0, None
    for i in range(first, len(mon)):
        if trials[i] < es["start_from"]:
            continue
        if mon[i] < best - es["min_delta"]:
            best, bt, bi = mon[i], trials[i], i
        if trials[i] - es["patience"] > bt:
            return i, bi
    return None, bi


def play(k, fits, exact, seed):
    src = pbt.Src(seed=seed)
    yd = k["y_dim"]
    x = xcsf.XCS(**k)
    ref = Ref(k) if exact else None
    ntr = 0  # trials reported so far
    total = 0  # trials of the current population
    info = dict(periods=0, stopped=0, restored=0, saved=0, shuffled=0)
    for fi, f in enumerate(fits):
        X, Y = f["X"], f["Y"]
        n = len(X)
        if f["set"]:
            x.set_params(max_trials=f["max"], perf_trials=f["perf"])
        M, P = f["max"], f["perf"]
        cold = not f["warm"]
        if cold:
            total = 0
            if exact:
                ref.reset()
        t_before = 0 if cold else x.time()
        len0 = len(x.get_metrics()["train"])
        calls, fn = [], None
        for cb in f["callbacks"]:
            if cb["type"] == "es":
                a = {q: v for q, v in cb.items() if q != "type"}
                calls.append(xcsf.EarlyStoppingCallback(**a))
            else:
                fn = os.path.join(pbt.scratch(), "cp%d.bin" % fi)
                calls.append(xcsf.CheckpointCallback(monitor=cb["monitor"], filename=fn, save_best_only=cb["best"],
                                                     save_freq=cb["freq"], verbose=cb["verbose"]))
        snaps = {}  # number of entries -> (file after the callbacks of the previous entry)
        probe = {}
        last = [None]

        def look():
            m = x.get_metrics()
            i = len(m["train"])
            if f["quiet"] or i in snaps or i == len0:
                return
            snaps[i] = open(fn, "rb").read() if fn and os.path.exists(fn) else None
            for q in ("train", "val", "trials", "psize", "msize", "mfrac"):
                check(len(m[q]) == i, "metrics", "%d entries of %s but %d of train" % (len(m[q]), q, i))
            check(m["psize"][-1] == x.pset_size(), "metrics", "population size reported %s, is %s", m["psize"][-1], x.pset_size())
            check(m["msize"][-1] == x.mset_size(), "metrics", "match set size reported %s, is %s", m["msize"][-1], x.mset_size())
            check(m["mfrac"][-1] == x.mfrac(), "metrics", "matching fraction reported %s, is %s", m["mfrac"][-1], x.mfrac())
            check(x.time() - t_before == m["trials"][-1] - ntr, "trials", "%d trials reported but %d were run", m["trials"][-1] - ntr, x.time() - t_before)
            if f["val"] is not None and not exact:
                p = x.predict(f["val"][0])
                probe[i] = float(np.mean([loss(k["loss_func"], a, b) for a, b in zip(p, f["val"][1])]))

        if f["stray"] is not None:
            x.predict(X[:1], np.full(yd, f["stray"]))  # values for other requests
        old = sys.stdout
        spy = sys.stdout = Spy(look)
        n_saved = 0
        try:
            kw = {}
            if f["val"] is not None:
                kw["validation_data"] = f["val"]
            if calls or src.flip():
                kw["callbacks"] = calls
            r = x.fit(X, Y, shuffle=f["shuffle"], warm_start=f["warm"], verbose=not f["quiet"], **kw)
        finally:
            sys.stdout = old
        check(r is x, "result", "fit did not return the model")
        m = {q: list(v) for q, v in x.get_metrics().items()}
        # the trial numbers of the entries of this fit
        want, t = [], 0
        while t < M:
            t = min(M, t + P)
            want.append(ntr + t)
        got = m["trials"][len0:]
        mon = {q: m[q] for q in ("train", "val")}
        # which entry early stopping must stop at
        stop, bests = None, {}
        for cb in f["callbacks"]:
            if cb["type"] == "es":
                s_, b_ = expect_stop(mon[cb["monitor"]], m["trials"], cb, len0)
                bests[id(cb)] = b_
                if s_ is not None:
                    stop = s_ if stop is None else min(stop, s_)
        check(got == want[:len(got)] and len(got) > 0 or not want, "trials", "fit reported trials %s, max_trials=%d perf_trials=%d after %d", got, M, P, ntr)
        if stop is None:
            check(len(got) == len(want), "trials", "fit stopped after trials %s without reason: max_trials=%d perf_trials=%d", got, M, P)
        else:
            check(len(m["trials"]) - 1 == stop, "early stopping", "stopped at trial %s, should at %s; monitored %s, trials %s, %s" % (m["trials"][-1], m["trials"][stop], mon, m["trials"], f["callbacks"]))
            info["stopped"] += 1
        check(len(m["trials"]) == len0 + len(got), "metrics", "history was lost")
        run = got[-1] - ntr if got else 0
        check(x.time() - t_before == run, "trials", "%d trials reported, %d run", run, x.time() - t_before)
        info["periods"] += len(got)
        states = {}
        if exact:
            # presented rows: in order, or deduced from the errors
            t0 = 0
            for j, tr in enumerate(got):
                cnt = tr - ntr - t0
                if not f["shuffle"]:
                    es = [ref.trial(X[(t0 + q) % n], Y[(t0 + q) % n]) for q in range(cnt)]
                    e = float(np.mean(es))
                    check(close(m["train"][len0 + j], e, 1e-7, 1e-9), "train error", "training error of trials %d..%d reported %.12g, is %.12g" % (t0, t0 + cnt, m["train"][len0 + j], e))
                else:
                    # one trial per period: find the row that explains the error
                    check(cnt == 1, "harness", "")
                    e = m["train"][len0 + j]
                    rows = [q for q in range(n) if close(loss(k["loss_func"], ref.predict(X[q]), Y[q]), e, 1e-7, 1e-9)]
                    check(len(rows) > 0, "rows", "trial %d: no row of the data gives the reported error %.12g" % (t0, e))
                    if len(rows) > 1:  # ambiguous: the values tell no more
                        ref = None
                        break
                    f.setdefault("seen", []).append(rows[0])
                    ref.trial(X[rows[0]], Y[rows[0]])
                t0 += cnt
                v = ref.score(*f["val"]) if f["val"] is not None else 0.0
                check(close(m["val"][len0 + j], v, 1e-7, 1e-9), "validation", "validation error at trial %d reported %.12g, is %.12g" % (tr, m["val"][len0 + j], v))
                states[len0 + j] = copy.deepcopy(ref)
            if ref is None:
                exact = False
            else:
                check(close(x.error(), ref.error, 1e-7, 1e-9), "error", "moving average of the error %.12g, should be %.12g" % (x.error(), ref.error))
            if f["shuffle"] and exact:
                seen = f["seen"]
                info["shuffled"] += 1
                if len(seen) >= 40 * n:
                    check(set(seen) == set(range(n)), "rows", "rows %s were never presented in %d shuffled trials" % (sorted(set(range(n)) - set(seen)), len(seen)))
                    if n > 2:
                        check(any(b != (a + 1) % n for a, b in zip(seen, seen[1:])), "rows", "shuffled rows came in order")
        else:
            for j, tr in enumerate(got):
                if f["val"] is None:
                    check(m["val"][len0 + j] == 0, "validation", "validation error %s without validation data" % m["val"][len0 + j])
                elif len0 + j + 1 in probe:
                    check(close(m["val"][len0 + j], probe[len0 + j + 1], 1e-7, 1e-9), "validation", "validation error %.12g reported, %.12g measured" % (m["val"][len0 + j], probe[len0 + j + 1]))
        # population afterwards
        final = len(m["trials"]) - 1
        at = final
        for cb in f["callbacks"]:
            if cb["type"] == "es" and cb["restore_best"] and bests[id(cb)] is not None:
                at = bests[id(cb)]
                info["restored"] += 1
        if exact and got:
            cur = states[at]
            p = x.predict(X)
            q = np.array([cur.predict(r_) for r_ in X])
            check(np.allclose(p, q, 1e-7, 1e-9), "population" if at == final else "restore", "after the fit the model predicts %s, the one of trial %s predicts %s" % (p[0], m["trials"][at], q[0]))
            e2 = ref.error
            ref = copy.deepcopy(cur)
            ref.error = e2
        # checkpoints
        for ci, cb in enumerate(f["callbacks"]):
            if cb["type"] != "cp" or not got:
                continue
            # a population restored before this callback runs is what it saves
            if stop is not None and any(c_["type"] == "es" and c_["restore_best"] for c_ in f["callbacks"][:ci]):
                states.pop(stop, None)
            saved, prev, bestv = [], 0, float("inf")
            for i in range(len0, final + 1):
                v, tr = mon[cb["monitor"]][i], m["trials"][i]
                if tr >= prev + cb["freq"]:
                    if not cb["best"] or v < bestv:
                        prev = tr
                        saved.append(i)
                    bestv = min(bestv, v)
            finish = not cb["best"]
            end = open(fn, "rb").read() if os.path.exists(fn) else None
            for i in range(len0 + 1, final + 1):
                # file seen when entry i was reported = after entry i-1
                snap = snaps.get(i + 1)
                if i + 1 not in snaps:
                    continue
                due = [s for s in saved if s < i]
                check((snap is not None) == bool(due), "checkpoint", "after trial %s the checkpoint %s; monitored %s, trials %s, %s" % (
                    m["trials"][i - 1], "was missing" if due else "was written early", mon[cb["monitor"]][len0:], m["trials"][len0:], cb))
                if due:
                    verify(snap, due[-1], m, t_before, ntr, states, X, k, cb)
            if not finish:
                check((end is not None) == bool(saved), "checkpoint", "checkpoint %s at the end; monitored %s, trials %s, %s" % ("missing" if saved else "present", mon[cb["monitor"]][len0:], m["trials"][len0:], cb))
                if saved:
                    verify(end, saved[-1], m, t_before, ntr, states, X, k, cb)
            else:
                check(end is not None, "checkpoint", "no checkpoint at the end of the fit")
                y = xcsf.XCS(omp_num_threads=1)
                with open(fn, "wb") as h:
                    h.write(end)
                y.load(fn)
                check(y.time() == x.time(), "checkpoint", "the final checkpoint is of trial %d, the fit ended at %d", y.time(), x.time())
                es_after = any(c_["type"] == "es" and c_["restore_best"] for c_ in f["callbacks"][ci:])
                if not es_after or stop is not None:
                    check(np.allclose(y.predict(X), x.predict(X), 1e-9, 1e-12), "checkpoint", "the final checkpoint predicts differently")
            info["saved"] += len(saved) + 1
            n_saved += len(saved) + finish
            if os.path.exists(fn):
                os.unlink(fn)
        if got:
            printed(spy.text, f, m, len0, stop, n_saved, fn)
        ntr += run
        total += run
    info["exact"] = bool(exact)
    return info


def verify(blob, i, m, t_before, ntr, states, X, k, cb):
    """The checkpoint holds the model as it was at metrics entry i."""
    p = os.path.join(pbt.scratch(), "load.bin")
    with open(p, "wb") as h:
        h.write(blob)
    y = xcsf.XCS(omp_num_threads=1)
    y.load(p)
    t = t_before + m["trials"][i] - ntr
    check(y.time() == t, "checkpoint", "the checkpoint is of trial %d, should be of trial %d (%s)", y.time(), t, cb)
    if i in states:
        q = np.array([states[i].predict(r) for r in X])
        check(np.allclose(y.predict(X), q, 1e-7, 1e-9), "checkpoint", "the checkpoint does not predict as the model did at trial %d" % t)


def run(src, c):
    exact = src.chance(2, 3)
    if exact:
        k = dict(omp_num_threads=1, x_dim=src.range(1, 3), y_dim=src.range(1, 3), n_actions=1, random_state=src.range(1, 10 ** 6), pop_size=20,
                 pop_init=False, beta=src.pick([0.1, 0.5, 1.0]), loss_func=src.pick(["mae", "mse", "rmse", "huber"]),
                 condition=dict(type="dummy"), ea=dict(theta_ea=10 ** 6), set_subsumption=False)
        if src.flip():
            k["prediction"] = dict(type="constant")
        else:
            k["prediction"] = dict(type="nlms_linear", args=dict(x0=src.pick([1, 0.5]), eta=src.pick([0.1, 0.5]), evolve_eta=False))
    else:
        k = config(src)
        k["stateful"] = False
    grid = src.pick([0, 2])
    n = src.range(1, 7)
    fits = []
    nf = src.range(1, 3)
    for i in range(nf):
        sh = bool(src.flip())
        if exact and sh:
            perf = 1
            mx = src.pick([3, 10, 40 * n])
        else:
            perf = src.pick([1, 2, 3, 5, 7, 10, 50])
            mx = src.pick([perf, 2 * perf, perf + 1, 3 * perf - 1, max(1, perf - 1), 10 * perf, 6 * perf + 1]) if src.flip() else src.range(1, 60)
        f = dict(X=data(src, n, k["x_dim"], grid), Y=data(src, n, k["y_dim"], 2), shuffle=sh, warm=bool(i > 0 and src.flip()),
                 max=mx, perf=perf, set=True, val=None, callbacks=[], quiet=src.chance(1, 6), stray=src.real(2, 5) if src.chance(1, 3) else None)
        if src.flip():
            mv = src.range(1, 4)
            big = src.pick([1, 1, 1, 1, 17, 90])
            f["val"] = tuple(np.tile(data(src, mv, k[d], g), (big, 1)) for d, g in (("x_dim", grid), ("y_dim", 2)))
        mon = lambda: src.pick(["train", "val"]) if f["val"] is not None else "train"
        cbs = []
        if src.flip():
            cbs.append(dict(type="es", monitor=mon(), patience=src.pick([0, 1, 2 * perf, 5 * perf, 1000]), restore_best=bool(src.flip()),
                            min_delta=src.pick([0, 0, 0.01, 0.1]), start_from=src.pick([0, 0, perf + 1, 3 * perf, 500]), verbose=bool(src.flip())))
        if src.flip():
            cbs.insert(src.below(len(cbs) + 1), dict(type="cp", monitor=mon(), best=bool(src.flip()), freq=src.pick([0, 0, perf, 2 * perf, 2 * perf + 1, 5 * perf]), verbose=bool(src.flip())))
        f["callbacks"] = cbs
        fits.append(f)
    if src.chance(1, 150):
        # more trials than fit into six digits
        exact = False
        k = dict(omp_num_threads=1, x_dim=k["x_dim"], y_dim=k["y_dim"], n_actions=1, random_state=1, pop_size=5, pop_init=False, loss_func="mse",
                 condition=dict(type="dummy"), prediction=dict(type="constant"), ea=dict(theta_ea=10 ** 9), set_subsumption=False)
        fits = fits[:1]
        fits[0].update(max=src.pick([1000001, 1234567]), perf=1000000, callbacks=[], quiet=False)
    k["max_trials"], k["perf_trials"] = fits[0]["max"], fits[0]["perf"]
    fits[0]["set"] = False
    c.desc = "model %s\nfits %s" % (brief(k), [{q: v for q, v in f.items() if q not in ("X", "Y", "val", "set")} for f in fits]) + " rows %d val %s" % (n, [f["val"] is not None for f in fits])
    info = pbt.in_child(play, k, fits, exact, src.below(1 << 30))
    c.nontrivial = info["periods"] > 1
    for q, v in info.items():
        c.count(q, int(v))
    c.count("fits", len(fits))


if __name__ == "__main__":
    pbt.main("C27", "a random sequence of cold and warm fits with random data, trial counts, reporting periods, shuffling, validation data and callbacks; "
             "two thirds use a model with a single always-matching rule, whose every trial an independent reference computes (order of rows, "
             "training and validation errors, early stopping, restored population, checkpoints); the others use evolving populations and compare "
             "what is reported with the model observed when it is reported. Non-trivial: more than one reporting period.",
             run, 2200, 80000, 60)
