"""C33: from Python a model is configured by its parameters, and tells them."""
import json, os, pickle
import numpy as np
import pbt
from pbt import check, close
from pycommon import *
import xcsf


def flat(d, at=""):
    """Leaves of nested parameters."""
    out = {}
    for q, v in d.items():
        if isinstance(v, dict):
            out.update(flat(v, at + q + "."))
        else:
            out[at + q] = v
    return out


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(float(a), float(b), 1e-14, 0)
    return a == b


# leaves told only while another setting makes them matter
ONLY = ("huber_delta", "gamma", "teletransportation", "p_explore", "select_size", "eta_min", "population_file")


def maybe(q):
    return q.split(".")[-1] in ONLY or q.startswith("action") or ".layer_" in q


def matters(q, f):
    """Whether a conditional leaf must be told under the parameters f."""
    if q == "huber_delta":
        return f.get("loss_func") == "huber"
    if q in ("gamma", "teletransportation", "p_explore"):
        return f.get("n_actions", 1) > 1
    if q == "ea.select_size":
        return f.get("ea.select_type") == "tournament"
    return not maybe(q)


def differ(a, b, loose=False):
    fa, fb = flat(a), flat(b)
    if loose:
        drop = [q for q in set(fa) ^ set(fb) if maybe(q)]
        fa = {q: v for q, v in fa.items() if q not in drop}
        fb = {q: v for q, v in fb.items() if q not in drop}
    return sorted(q for q in set(fa) | set(fb) if q not in fa or q not in fb or not eq(fa[q], fb[q]))


def norm(d):
    d = dict(d)
    if d.get("random_state") is None:
        d["random_state"] = -1
    return d


def show(d, qs):
    f = flat(d)
    return {q: f.get(q, "absent") for q in qs[:6]}


def real(s, a, b):
    """Three decimals, which the exported text carries exactly."""
    return round(s.real(a, b), 3)


TOP = {
    "alpha": lambda s: real(s, 0, 1), "beta": lambda s: real(s, 0, 1), "delta": lambda s: real(s, 0, 1), "e0": lambda s: real(s, 0, 1), "nu": lambda s: s.range(0, 10),
    "huber_delta": lambda s: real(s, 0.1, 3), "init_fitness": lambda s: real(s, 0.001, 1), "init_error": lambda s: real(s, 0, 1), "theta_del": lambda s: s.range(0, 500),
    "theta_sub": lambda s: s.range(0, 500), "m_probation": lambda s: s.range(0, 10000), "gamma": lambda s: real(s, 0, 1), "p_explore": lambda s: real(s, 0, 1),
    "teletransportation": lambda s: s.range(1, 100), "pop_size": lambda s: s.range(20, 200), "max_trials": lambda s: s.range(1, 60), "perf_trials": lambda s: s.range(1, 50),
    "pop_init": lambda s: bool(s.flip()), "stateful": lambda s: bool(s.flip()), "compaction": lambda s: bool(s.flip()), "set_subsumption": lambda s: bool(s.flip()),
    "loss_func": lambda s: s.pick(["mae", "mse", "rmse", "huber", "log", "binary_log", "onehot"]), "random_state": lambda s: s.pick([None, 0, s.range(1, 10 ** 9)]),
    "omp_num_threads": lambda s: s.range(1, 4),
}
EA = {
    "theta_ea": lambda s: s.range(0, 100), "p_crossover": lambda s: real(s, 0, 1), "err_reduc": lambda s: real(s, 0, 1), "fit_reduc": lambda s: real(s, 0, 1),
    "subsumption": lambda s: bool(s.flip()), "pred_reset": lambda s: bool(s.flip()), "lambda": lambda s: 2 * s.range(1, 4),
    "select_size": lambda s: real(s, 0.05, 1), "select_type": lambda s: s.pick(["tournament", "roulette"]),
}


def some(src, table, p=3):
    return {q: f(src) for q, f in table.items() if src.chance(1, p)}


def shuffled(src, d):
    q = list(d)
    out = {}
    while q:
        i = src.below(len(q))
        out[q[i]] = d[q[i]]
        del q[i]
    return out


def first(a, b):
    a, b = repr(a), repr(b)
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return "%s instead of %s" % (b[max(0, i - 60):i + 60], a[max(0, i - 60):i + 60])


def learn(k, X, Y, rl, na):
    k = dict(k)
    if k.get("random_state") is None:
        k["random_state"] = 7
    x = xcsf.XCS(**k)
    x.set_params(max_trials=20, perf_trials=5)
    if rl:
        for i in range(15):
            x.fit(X[i % len(X)], i % na, float(Y[i % len(Y)][0]))
        return [x.json(), x.time(), x.predict(X).tolist()]
    x.fit(X, Y, True, False, False)
    return [x.json(), x.time(), x.get_metrics()["train"][-4:], x.predict(X).tolist()]


def play(k, order, changes, rl, X, Y):
    info = dict(changes=0, leaves=0)
    default = xcsf.XCS()
    base = default.internal_params()
    check(not differ(norm(default.get_params()), norm(base)), "defaults", "a new model tells %s" % show(default.get_params(), differ(norm(default.get_params()), norm(base))))
    x = xcsf.XCS(**k)
    p = x.internal_params()

    def told(given, got, what):
        f, g = flat(norm(given) if "random_state" in given else given), flat(got)
        for q, v in f.items():
            if q not in g and not matters(q, g):
                continue
            check(q in g and eq(g[q], v), "given", "%s: %s was given as %r and is %r" % (what, q, v, g.get(q, "absent")))
        info["leaves"] += len(f)

    told(k, p, "construction")
    # nothing that was not named changes
    for q, v in base.items():
        if q not in k and q not in ("condition", "action", "prediction", "ea"):
            if q not in p and maybe(q):
                continue
            check(eq(v, p[q]), "unnamed", "%s is %r by default but %r in a model created without naming it" % (q, v, p[q]))
    g = x.get_params()
    told(k, norm(g), "get_params")
    lacks = [q for q in p if q not in g and not maybe(q)]
    check(not lacks, "told", "get_params() lacks %s" % lacks)
    # the order of arguments does not matter
    y = xcsf.XCS(**{q: k[q] for q in order})
    df = differ(p, y.internal_params())
    check(not df, "order", "with the arguments in another order: %s instead of %s" % (show(y.internal_params(), df), show(p, df)))
    # a model made from the parameters told is the same
    z = xcsf.XCS(**x.get_params())
    df = differ(p, z.internal_params())
    check(not df, "clone", "a model made from get_params() has %s instead of %s" % (show(z.internal_params(), df), show(p, df)))
    info["params"] = [dict(x.get_params()), x.internal_params()]
    w = xcsf.XCS(**norm(x.internal_params()))
    df = differ(p, w.internal_params())
    check(not df, "clone", "a model made from internal_params() has %s instead of %s" % (show(w.internal_params(), df), show(p, df)))
    # changes change what they name
    for ch in changes:
        before = x.internal_params()
        r = x.set_params(**ch)
        check(r is x or r.internal_params() == x.internal_params(), "chain", "set_params() did not return the model")
        after = x.internal_params()
        told(ch, after, "set_params")
        told(ch, norm(x.get_params()), "get_params after set_params")
        named = set(flat(norm(ch) if "random_state" in ch else ch))
        for q in differ(before, after, True):
            check(q in named or any(t in ch and q.startswith(t + ".") and "type" in ch[t] for t in ("condition", "action", "prediction")), "unnamed",
                  "setting %s changed %s from %r to %r" % (sorted(named), q, flat(before).get(q), flat(after).get(q)))
        info["changes"] += 1
    q = pickle.loads(pickle.dumps(x))
    df = differ(x.internal_params(), q.internal_params())
    check(not df, "pickle", "after pickling: %s instead of %s" % (show(q.internal_params(), df), show(x.internal_params(), df)))
    g, p = q.get_params(), q.internal_params()
    p["random_state"] = None if p["random_state"] < 0 else p["random_state"]
    df = differ(g, p)
    check(not df, "told", "after pickling get_params() tells %s, the parameters are %s" % (show(g, df), show(p, df)))
    return info


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "defaults.json")) as f:
    DEFAULTS = json.load(f)


def bare(k, layer, X, Y, rl):
    """A model that names little has the default for all else, and works."""
    m = dict(k)
    if layer:
        m["prediction"] = {"type": "neural", "args": {"layer_0": {"type": "connected", "activation": "linear", "n_inputs": k["x_dim"], "n_init": 2},
                                                      "layer_1": {"type": layer, "n_init": 2}, "layer_2": {"type": "connected", "n_init": k["y_dim"]}}}
    x = xcsf.XCS(**m)
    p = x.internal_params()
    want = dict(DEFAULTS["top"])
    if k["n_actions"] > 1:
        want.update({q: DEFAULTS["rl"][q] for q in ("gamma", "teletransportation", "p_explore")})
    if k.get("loss_func") == "huber":
        want["huber_delta"] = DEFAULTS["rl"]["huber_delta"]
    if k.get("ea"):
        want["ea"] = DEFAULTS["rl"]["ea"]
    want.update({q: v for q, v in k.items() if q not in ("ea", "condition", "prediction", "action")})
    for q, d in (("condition", "hyperrectangle_csr"), ("prediction", "nlms_linear"), ("action", "integer")):
        want[q] = json.loads(json.dumps(DEFAULTS[q][k[q]["type"] if q in k else d]))
        if "layer_0" in want[q].get("args", {}):
            want[q]["args"]["layer_0"]["n_inputs"] = k["x_dim"]
    if layer:
        want["prediction"] = {"type": "neural", "args": json.loads(json.dumps(DEFAULTS["layer"][layer]))}
        want["prediction"]["args"]["layer_0"]["n_inputs"] = k["x_dim"]
        want["prediction"]["args"]["layer_2"]["n_init"] = k["y_dim"]
    elif want["prediction"]["type"] == "neural":
        want["prediction"]["args"]["layer_1"]["n_init"] = k["y_dim"]
    if want["action"]["type"] == "neural":
        want["action"]["args"]["layer_1"]["n_init"] = want["action"]["args"]["layer_2"]["n_inputs"] = k["n_actions"]
    got = {q: v for q, v in p.items() if q not in ("version", "random_state")}
    if k["n_actions"] == 1 or want["condition"]["type"] == "rule_dgp":
        want.pop("action")
        got.pop("action", None)
    df = differ(want, got)
    check(not df, "default", "not named: %s, where the default is %s" % (show(got, df), show(want, df)))
    x.set_params(max_trials=10, perf_trials=10, pop_size=100, omp_num_threads=1)
    if rl:
        for i in range(6):
            x.fit(X[i % len(X)], i % k["n_actions"], float(Y[i % len(Y)][0]))
    else:
        x.fit(X, Y, True, False, False)
    r = x.predict(X)
    check(r.shape == (len(X), k["n_actions"] if rl else k["y_dim"]) and np.isfinite(r).all(), "works", "predictions %r" % (r.tolist(),))
    return True


def run_bare(src, c):
    rl = src.flip()
    k = {"x_dim": src.range(1, 5), "y_dim": 1 if rl else src.range(1, 5), "n_actions": src.range(2, 4) if rl else 1}
    layer = None
    if src.flip():
        k["condition"] = {"type": src.pick(sorted(q for q in DEFAULTS["condition"] if rl or q != "rule_dgp"))}
    if src.flip():
        k["prediction"] = {"type": src.pick(sorted(DEFAULTS["prediction"]))}
        if k["prediction"]["type"] == "neural" and src.flip():
            layer = src.pick(sorted(DEFAULTS["layer"]))
    if rl and src.flip() and k.get("condition", {}).get("type") != "rule_dgp":
        k["action"] = {"type": src.pick(["integer", "neural"])}
    if src.chance(1, 4):
        k["loss_func"] = "huber"
    if src.chance(1, 4):
        k["ea"] = {"select_type": "tournament"}
    k = {q: k[q] for q in shuffled(src, k)}
    X = data(src, 4, k["x_dim"], 0)
    Y = data(src, 4, k["y_dim"], 1)
    c.desc = "model %s, inner layer %s\nx %s\ny %s" % (k, layer, X.tolist(), Y.tolist())
    pbt.in_child(bare, k, layer, X, Y, rl)
    c.nontrivial = True
    c.count("models naming only types and dimensions")


def tune(k, steps, X, Y):
    """Autoencoders that are extended and turned into classifiers tell so."""
    x = xcsf.XCS(**k)
    x.fit(X, X, True, False, False)
    n = len(k["prediction"]["args"])
    y_dim = k["y_dim"]

    def consistent(what):
        g, p = x.get_params(), x.internal_params()
        p["random_state"] = None if p["random_state"] < 0 else p["random_state"]
        fg, fp = flat(g), flat(p)
        df = [q for q in fg if q in fp and not eq(fg[q], fp[q])]
        if "ae_to" in what:
            df += [q for q in set(fg) ^ set(fp) if q.split(".")[0] in ("y_dim", "loss_func", "prediction")]
        check(not df, "told", "after %s get_params() tells %s, the parameters are %s" % (what, show(g, df), show(p, df)))
        check(len(p["prediction"]["args"]) == n, "layers", "after %s the parameters tell %d layers, expected %d" % (what, len(p["prediction"]["args"]), n))
        check(p["y_dim"] == y_dim, "dimension", "after %s y_dim is %r, expected %d" % (what, p["y_dim"], y_dim))
        q = x.predict(X)
        check(q.shape == (len(X), y_dim) and np.isfinite(q).all(), "works", "after %s predictions are %r" % (what, q.tolist()))
        s = xcsf.XCS(**norm(p))
        df = differ(x.internal_params(), s.internal_params())
        check(not df, "clone", "after %s a model of the same parameters has %s instead of %s" % (what, show(s.internal_params(), df), show(x.internal_params(), df)))
        return q
    consistent("learning")
    for _ in range(steps[0]):
        x.pred_expand()
        consistent("pred_expand()")
        x.fit(X, X, True, False, False)
    n_del = steps[1]
    before = x.internal_params()
    x.ae_to_classifier(steps[2], n_del)
    y_dim = steps[2]
    n += 2 - n_del
    q = consistent("ae_to_classifier(%d, %d)" % (y_dim, n_del))
    check(all(abs(r.sum() - 1) < 1e-9 or not r.any() for r in q) and (q >= 0).all(), "classifier", "predictions of a classifier are %r" % (q.tolist(),))
    p = x.internal_params()
    check(p["loss_func"] == "onehot", "classifier", "the loss is %r" % p["loss_func"])
    for t in set(before) | set(p):
        if t not in ("y_dim", "loss_func", "prediction", "huber_delta"):
            check(eq(before.get(t), p.get(t)), "unnamed", "ae_to_classifier() changed %s from %r to %r" % (t, before.get(t), p.get(t)))
    x.fit(X, Y, True, False, False)
    consistent("learning to classify")
    return True


def run_tune(src, c):
    n_in = src.range(2, 5)
    k = config(src, False, n_in, n_in)
    k["pop_size"] = src.range(2, 20)
    k["max_trials"] = src.range(1, 15)
    k["perf_trials"] = 5
    k["loss_func"] = src.pick(["mse", "mae", "huber", "rmse"])
    args = {}
    n = src.range(2, 5)
    for i in range(n):
        l = {"type": "connected", "activation": src.pick(["relu", "logistic", "tanh", "linear", "selu"]), "n_init": src.range(1, 4), "evolve_weights": src.flip()}
        if src.flip():
            l.update({"sgd_weights": True, "eta": src.pick([0.01, 0.1]), "momentum": 0.5, "evolve_eta": False})
        if i == 0:
            l["n_inputs"] = n_in
        args["layer_%d" % i] = l
    args["layer_%d" % (n - 1)]["n_init"] = n_in
    k["prediction"] = {"type": "neural", "args": args}
    steps = [src.pick([0, 0, 1, 2]), src.range(1, n - 1), src.range(2, 4)]
    X = data(src, 4, n_in, 0)
    Y = np.eye(steps[2])[[src.below(steps[2]) for _ in range(4)]]
    c.desc = "model %s\n%d layers added, then a classifier of %d classes without %d layers\nx %s" % (brief(k), steps[0], steps[2], steps[1], X.tolist())
    pbt.in_child(tune, k, steps, X, Y)
    c.nontrivial = True
    c.count("autoencoders made classifiers")


def run(src, c):
    if src.chance(1, 5):
        return run_bare(src, c)
    if src.chance(1, 12):
        return run_tune(src, c)
    rl = src.chance(1, 3)
    k = config(src, rl, stateful=True)
    # what has no effect is not told
    for q in k["prediction"].get("args", {}), k["condition"].get("args", {}):
        for l in q.values():
            if isinstance(l, dict) and not l.get("sgd_weights"):
                for z in ("eta", "momentum", "evolve_eta", "eta_min"):
                    l.pop(z, None)
    k.update(some(src, TOP))
    k["pop_size"] = max(k["pop_size"], 30)
    k["ea"].update(some(src, EA))
    if src.flip():
        for q in [q for q in k if q not in ("x_dim", "y_dim", "n_actions", "condition", "prediction", "omp_num_threads")]:
            if src.chance(1, 3):
                del k[q]
    k["omp_num_threads"] = k.get("omp_num_threads", 1) if False else 1
    X = data(src, 4, k["x_dim"], 0)
    Y = data(src, 4, k["y_dim"], 1)
    if k.get("loss_func") in ("log", "onehot"):
        Y = np.eye(k["y_dim"])[[src.below(k["y_dim"]) for _ in range(4)]].reshape(4, k["y_dim"])
    if rl and k.get("loss_func") in ("log", "binary_log", "onehot"):
        k["loss_func"] = "mse"
    changes = []
    if src.flip():
        for _ in range(src.range(1, 4)):
            ch = some(src, TOP, 6)
            if src.chance(1, 3):
                ch["ea"] = some(src, EA)
            # the representation is only changed while there are no rules
            empty = not k.get("pop_init", True)
            if empty and src.chance(1, 3):
                o = config(src, rl, k["x_dim"], k["y_dim"], True)
                ch["condition"] = o["condition"]
            if empty and src.chance(1, 3):
                ch["prediction"] = config(src, rl, k["x_dim"], k["y_dim"], True)["prediction"]
            if ch:
                changes.append(shuffled(src, ch))
    order = list(shuffled(src, k))
    c.desc = "model %s\norder %s\nchanges %s" % (brief(k), order, brief(changes))
    info = pbt.in_child(play, k, order, changes, rl, X, Y)
    params = info.pop("params")
    # all these models learn the same, each in a process of its own
    if src.chance(1, 2):
        a = pbt.in_child(learn, k, X, Y, rl, k["n_actions"])
        i = k.get("random_state")
        for m, what in (({q: k[q] for q in order}, "arguments in another order"), (params[0], "the parameters of get_params()"), (norm(params[1]), "the parameters of internal_params()")):
            m = dict(m, random_state=i)
            b = pbt.in_child(learn, m, X, Y, rl, k["n_actions"])
            check(repr(a) == repr(b), "learning", "a model with %s learns something else: %s" % (what, first(a, b)))
        c.count("learned")
    c.nontrivial = True
    for q, v in info.items():
        c.count(q, int(v))


if __name__ == "__main__":
    pbt.main("C33", "random parameters given in random order, models made from the parameters another one tells, and random later changes; every leaf given is compared with what "
             "the model tells, everything not named with what it was (or, naming only types and dimensions, with the table of defaults), autoencoders turned into classifiers tell their new parameters, and models with equal parameters must learn identically. Every case is non-trivial.", run, 1500, 60000, 60)
