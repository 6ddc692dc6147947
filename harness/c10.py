"""C10: pickling and persistence from Python preserve the model."""
import json, os, pickle
import numpy as np
import pbt
from pbt import check
from pycommon import *
import xcsf

LOSSES = ["mae", "mse", "rmse", "huber"]


def look(x, X, Y, k):
    """Everything a user can see of a model that does not change it."""
    d = dict(params=x.internal_params(), size=x.pset_size(), num=x.pset_num(), time=x.time(), error=x.error(), msize=x.mset_size(),
             asize=x.aset_size(), mfrac=x.mfrac(), json=x.json(), csize=x.pset_mean_cond_size() if x.pset_size() else 0,
             psize=x.pset_mean_pred_size() if x.pset_size() else 0)
    g = dict(x.get_params())
    if g.get("random_state") is None:
        g["random_state"] = -1
    d["get_params"] = g
    return d


def use(x, X, Y, k, rl):
    """Behaviour: predictions, then learning on from the same seed."""
    out = [x.predict(X).tolist(), x.predict(X, cover=np.full(k["y_dim"], 0.25)).tolist()]
    if not rl:
        out.append(x.score(X, Y))
    x.set_params(random_state=4242, max_trials=30, perf_trials=10)
    if rl:
        for i in range(12):
            x.fit(X[i % len(X)], i % k["n_actions"], float(Y[i % len(Y)][0]))
        x.init_trial()
        for i in range(3):
            x.init_step()
            out.append(x.decision(X[i % len(X)], True))
            x.update(0.5, i == 2)
            out.append(x.error(0.5, i == 2, 1.0))
            x.end_step()
        x.end_trial()
    else:
        x.fit(X, Y, True, True, False)
        out.append(x.get_metrics()["train"][-3:])
    out += [x.json(), x.time(), x.predict(X).tolist(), x.error()]
    return out


def train(x, k, X, Y, plan, rl):
    for n in plan:
        if rl:
            for i in range(n):
                x.fit(X[i % len(X)], (i * 7) % k["n_actions"], float(Y[i % len(Y)][0]))
        else:
            x.set_params(max_trials=n, perf_trials=max(1, n // 2))
            x.fit(X, Y, True, True, False)


def same(a, b, what, kind):
    for q in a:
        check(a[q] == b[q] or repr(a[q]) == repr(b[q]), kind, "%s: %s is %s in the original and %s in the copy" % (what, q, repr(a[q])[:400], repr(b[q])[:400]))


def play(k, X, Y, plan, rl, how, other, stateful):
    x = xcsf.XCS(**k)
    train(x, k, X, Y, plan, rl)
    info = dict(size=x.pset_size(), how=how)
    before = os.listdir(".")
    # observing must not disturb: each observer works in a process of its own
    a = look(x, X, Y, k)
    if how == "pickle":
        with open("_tmp_pickle.bin", "wb") as f:
            f.write(b"mine")
        b = pickle.dumps(x, protocol=other["protocol"])
        y = pickle.loads(b)
        check(open("_tmp_pickle.bin", "rb").read() == b"mine", "files", "pickling overwrote a file of the user")
        os.unlink("_tmp_pickle.bin")
        check(sorted(os.listdir(".")) == sorted(before), "files", "pickling left files behind: %s" % os.listdir("."))
    elif how == "pickle twice":
        y = pickle.loads(pickle.dumps([pickle.loads(pickle.dumps(x)), x]))[0]
    elif how == "file":
        y = xcsf.XCS(**other["k"])
        if other["train"]:
            Xo = np.random.RandomState(1).rand(3, other["k"]["x_dim"])
            train(y, other["k"], Xo, np.random.RandomState(2).rand(3, other["k"]["y_dim"]), [15], other["k"]["n_actions"] > 1)
        x.save("model.bin")
        y.load("model.bin")
        os.unlink("model.bin")
    elif how == "together":
        return together(x, X, info)
    elif how == "store":
        return stored(x, k, X, Y, rl, plan, info)
    elif how == "json":
        return jsonfile(x, k, X, Y, info)
    b = look(y, X, Y, k)
    g, h = a.pop("get_params"), b.pop("get_params")
    for q in h:
        if q in g and not isinstance(h[q], dict):
            check(g[q] == h[q] or (isinstance(g[q], float) and pbt.close(g[q], h[q], 1e-14, 0)), "params", "parameter %s is %s, after loading %s" % (q, g[q], h[q]))
    same(a, b, "state", "state differs")
    ra = pbt.in_child(use, x, X, Y, k, rl)
    rb = pbt.in_child(use, y, X, Y, k, rl)
    names = ["prediction", "prediction with cover"] + ["later observation %d" % i for i in range(30)]
    for i, (p, q) in enumerate(zip(ra, rb)):
        check(p == q or repr(p) == repr(q), "behaviour differs", "%s: %s and %s" % (names[i], repr(p)[:400], repr(q)[:400]))
    # the original is undisturbed and both are independent
    train(y, k, X, Y, [7], rl)
    same(a, {q: v for q, v in look(x, X, Y, k).items() if q != "get_params"}, "original", "original changed")
    return info


def together(x, X, info):
    """Several processes pickle in one directory at the same time."""
    want = x.json()
    pids = []
    for j in range(3):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                m = x if j else xcsf.XCS(x_dim=X.shape[1], omp_num_threads=1, pop_size=5)
                w = m.json()
                for _ in range(25):
                    m = pickle.loads(pickle.dumps(m))
                    if m.json() != w:
                        break
                else:
                    code = 0
            finally:
                os._exit(code)
        pids.append(pid)
    bad = [p for p in pids if os.waitpid(p, 0)[1] != 0]
    check(not bad, "concurrent pickles", "%d of 3 processes pickling at the same time got a wrong model back" % len(bad))
    return info


def stored(x, k, X, Y, rl, plan, info):
    p = x.predict(X)
    num, size = x.pset_num(), x.pset_size()
    x.store()
    train(x, k, X, Y, [11], rl)
    if plan[0] % 2:
        x.store()  # overwrites
        p = x.predict(X)
        num, size = x.pset_num(), x.pset_size()
        train(x, k, X, Y, [9], rl)
    x.retrieve()
    q = x.predict(X)
    check(x.pset_size() == size and x.pset_num() == num, "store", "retrieved %d rules (%d), stored %d (%d)" % (x.pset_size(), x.pset_num(), size, num))
    check(np.allclose(p, q, 1e-9, 1e-12, equal_nan=True), "store", "predicted %s when stored, %s when retrieved" % (p[0], q[0]))
    return info


def norm(j):
    d = json.loads(j)
    return [] if d is None else d["classifiers"]


def jsonfile(x, k, X, Y, info):
    fn = "pop.json"
    x.json_write(fn)
    a = norm(x.json())
    check(norm(open(fn).read()) == a, "json", "the file differs from the exported population")
    if not a:
        return info
    y = xcsf.XCS(**dict(k, pop_init=False))
    y.json_read(fn)
    b = norm(y.json())
    check(len(a) == len(b), "json", "%d rules written, %d read" % (len(a), len(b)))

    def near(u, v):
        if isinstance(u, dict):
            return u.keys() == v.keys() and all(near(u[q], v[q]) for q in u)
        if isinstance(u, list):
            return len(u) == len(v) and all(near(s, t) for s, t in zip(u, v))
        if isinstance(u, float):
            return abs(u - v) <= 1e-12 * max(1, abs(u))
        return u == v
    for r, s in zip(a, b):
        for q in ("condition", "prediction", "error", "fitness", "numerosity", "experience"):
            check(near(r[q], s[q]), "json", "%s written as %s, read as %s" % (q, repr(r[q])[:300], repr(s[q])[:300]))
    p, q = x.predict(X), y.predict(X)
    check(np.allclose(p, q, 1e-7, 1e-9, equal_nan=True), "json", "predicted %s, after reading the population %s" % (p[0], q[0]))
    return info


def run(src, c):
    how = ["pickle", "file", "store", "json", "pickle twice", "together"][src.pickw([4, 5, 2, 2, 1, 1])]
    rl = src.chance(1, 4) and how != "json"
    stateful = how in ("pickle", "file", "pickle twice") and src.flip()
    k = config(src, rl, stateful=stateful)
    k["stateful"] = stateful
    if how == "json":  # importing trees and networks is not implemented
        if k["condition"]["type"] in ("tree_gp", "neural"):
            k["condition"] = dict(type="ternary", args=dict(bits=2))
        if k["prediction"]["type"] == "neural":
            k["prediction"] = dict(type="nlms_linear")
    k["loss_func"] = src.pick(LOSSES)
    if src.flip():
        k.update(alpha=src.real(0.01, 1), nu=src.range(1, 10), e0=src.pick([0.01, 0.2]), theta_sub=src.range(1, 50), delta=src.real(0, 1),
                 init_fitness=0.02, init_error=0.1, m_probation=src.range(1, 5000), compaction=bool(src.flip()), huber_delta=src.pick([1, 0.3]))
        if k["loss_func"] != "huber":
            k.pop("huber_delta")
    if src.chance(1, 15) and k["prediction"]["type"] != "neural" and k["condition"]["type"] != "neural":
        k.update(pop_size=src.range(200, 1500), pop_init=True)
    plan = [src.range(1, 60) for _ in range(src.range(1, 3))] if src.chance(9, 10) else [1]
    n = src.range(2, 6)
    X, Y = data(src, n, k["x_dim"], 2), data(src, n, k["y_dim"], 2)
    other = dict(k=config(src, src.chance(1, 4)), train=src.flip(), protocol=src.range(2, 5))
    c.desc = "%s of model %s trained %s%s" % (how, brief(k), plan, (" into " + brief(other["k"])) if how == "file" else "")
    info = pbt.in_child(work, k, X, Y, plan, rl, how, other, stateful)
    c.nontrivial = info["size"] > 1
    c.count(how)
    c.count("rl" if rl else "supervised")


def work(*a):
    os.chdir(pbt.scratch())
    return play(*a)


if __name__ == "__main__":
    pbt.main("C10", "a random model (8 condition, 6 prediction types, stateful layers, supervised or reinforcement) trained for a random history is pickled, "
             "saved and loaded into another (trained) model, stored and retrieved, or written to and read from JSON; the copy must show equal "
             "parameters, population, statistics and predictions and, trained on from the same seed, evolve identically. "
             "Non-trivial: the population has more than one rule.", run, 2200, 40000, 60)
