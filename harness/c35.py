"""C35: the exported description of a model explains its predictions."""
import json, math
import numpy as np
import pbt
from pbt import check, close
from pycommon import *
import xcsf


class Near(Exception):
    """Too close to a decision boundary to tell after printing."""


EPS = 1e-9


def over(v, bound):
    if abs(v - bound) < EPS * (1 + abs(v)):
        raise Near()
    return v > bound


def lim(v, lo, hi):
    return lo if v < lo else hi if v > hi else v


def tree_value(t, x):
    pos = [0]

    def rec():
        s = t[pos[0]]
        pos[0] += 1
        if s == "(":
            a = rec()
            op = t[pos[0]]
            pos[0] += 1
            b = rec()
            check(t[pos[0]] == ")", "export", "unbalanced expression")
            pos[0] += 1
            a, b = lim(a, -1000, 1000), lim(b, -1000, 1000)
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            check(op == "/", "export", "function %r" % op)
            if b != 0 and abs(b) < 1e-12:
                raise Near()
            return a / b if b != 0 else a
        if isinstance(s, str):
            return float(x[int(s.split("_")[1])])
        return float(s)
    v = rec()
    check(pos[0] == len(t), "export", "expression continues after its end")
    return v


def graph_state(g, x, reset):
    n, m = g["n"], g["n_inputs"]
    k = len(g["connectivity"]) // n
    st = list(g["initial_state"] if reset else g["current_state"])
    for _ in range(g["t"]):
        nx = []
        for i in range(n):
            src = g["connectivity"][i * k:(i + 1) * k]
            v = [float(x[s]) if s < m else st[s - m] for s in src]
            f = g["functions"][i]
            if f == "Fuzzy NOT":
                r = 1 - v[0]
            elif f == "Fuzzy AND":
                r = math.prod(v)
            else:
                check(f == "Fuzzy OR", "export", "function %r" % f)
                r = sum(v)
            nx.append(lim(r, 0.0, 1.0))
        st = nx
    return st


def matches(c, x, k):
    """Whether a rule accepts x, from its description; updates the state of graphs."""
    t = c["type"]
    if t == "dummy":
        return True
    if t == "hyperrectangle_csr":
        return not any([over(abs(v - m), s) for v, m, s in zip(x, c["center"], c["spread"])])
    if t == "hyperrectangle_ubr":
        return not any([over(min(a, b), v) or over(v, max(a, b)) for v, a, b in zip(x, c["bound1"], c["bound2"])])
    if t == "hyperellipsoid":
        return not over(sum(((v - m) / s) ** 2 for v, m, s in zip(x, c["center"], c["spread"])), 1)
    if t == "ternary":
        bits = k["condition"]["args"]["bits"]
        s = c["string"]
        check(len(s) == bits * len(x), "export", "a string of %d symbols for %d variables of %d bits" % (len(s), len(x), bits))
        for i, v in enumerate(x):
            q = (1 << bits) - 1 if v >= 1 else 0 if v <= 0 else int(v * (1 << bits))
            b = format(q, "0%db" % bits)
            for a, w in zip(s[i * bits:(i + 1) * bits], b):
                check(a in "01#", "export", "symbol %r" % a)
                if a != "#" and a != w:
                    return False
        return True
    if t == "tree_gp":
        return over(tree_value(c["tree"]["array"], x), 0.5)
    if t in ("dgp", "rule_dgp"):
        g = c["graph"]
        g["current_state"] = graph_state(g, x, not k["stateful"])
        return over(g["current_state"][0], 0.5)
    check(False, "export", "condition type %r" % t)


def action(r, k):
    if r["condition"]["type"] == "rule_dgp":
        st = r["condition"]["graph"]["current_state"]
        bits = max(1, math.ceil(math.log2(k["n_actions"])))
        return min(sum((1 << i) for i in range(bits) if over(st[1 + i], 0.5)), k["n_actions"] - 1)
    return r["action"]["action"] if k["n_actions"] > 1 else 0


def value(p, x, k):
    if p["type"] == "constant":
        return np.array(p["prediction"], dtype=float)
    x0 = k["prediction"]["args"]["x0"]
    f = [x0] + list(x)
    if p["type"].endswith("quadratic"):
        f += [x[i] * x[j] for i in range(len(x)) for j in range(i, len(x))]
    w = np.array(p["weights"], dtype=float)
    check(len(w) == len(f) * k["y_dim"], "export", "%d weights for %d terms" % (len(w), len(f)))
    return w.reshape(k["y_dim"], len(f)) @ np.array(f)


def play(k, learn, X, cover, other, seed):
    src = pbt.Src(seed=seed)
    x = xcsf.XCS(**k)
    na = k["n_actions"]
    if learn["how"] == "fit":
        x.fit(learn["X"], learn["Y"], shuffle=learn["shuffle"], verbose=False)
    elif learn["how"] == "rl":
        for s, a, r in learn["steps"]:
            x.fit(s, a, r)
    else:
        for ep in learn["episodes"]:
            x.init_trial()
            for i, (s, r) in enumerate(ep):
                x.init_step()
                x.decision(s, True)
                x.update(r, i == len(ep) - 1)
                x.end_step()
            x.end_trial()
    info = dict(rules=x.pset_size(), rows=0, matched=0, unmatched=0, near=0, scored=0)
    def export(*a):
        return (json.loads(x.json(*a)) or dict(classifiers=[]))["classifiers"]  # an empty population is null

    if other is not None:  # an earlier request with other values for inputs nobody accepts
        x.predict(X if len(X) else np.full((1, k["x_dim"]), 0.5), np.array(other))
    R = export()
    check(len(R) == x.pset_size(), "export", "%d rules exported of %d" % (len(R), x.pset_size()))
    check(sum(r["numerosity"] for r in R) == x.pset_num(), "export", "numerosities add up to %d, not %d" % (sum(r["numerosity"] for r in R), x.pset_num()))
    for r in R:
        check(r["condition"]["type"] == k["condition"]["type"] and r["prediction"]["type"] == k["prediction"]["type"], "export", "types %s and %s" % (r["condition"]["type"], r["prediction"]["type"]))
    # leaving parts out leaves the rest as it is
    for a, b, c in ((False, True, True), (True, False, True), (True, True, False), (False, False, False)):
        S = export(a, b, c)
        for r, s in zip(R, S):
            want = {q: v for q, v in r.items() if (q != "condition" or a) and (q != "action" or b) and (q != "prediction" or c)}
            check(s == want, "partial", "exported without %s: %s" % ([n for n, f in (("condition", a), ("action", b), ("prediction", c)) if not f], sorted(set(s) ^ set(want)) or "other values"))
        check(len(R) == len(S), "partial", "%d rules in a partial export of %d" % (len(S), len(R)))
    got = x.predict(X, None if cover is None else np.array(cover))
    last = None
    alive = True
    for row, v in zip(got, X):
        try:
            num, den = np.zeros((na, k["y_dim"])), np.zeros(na)
            mset = []
            bad = False
            for i, r in enumerate(R):
                try:
                    if matches(r["condition"], v, k):
                        a = action(r, k)
                        p = value(r["prediction"], v, k)
                        mset.append((i, a, p))
                        num[a] += r["fitness"] * p
                        den[a] += r["fitness"]
                except Near:
                    bad = True
                    if r["condition"]["type"] in ("dgp", "rule_dgp") and not math.isfinite(r["condition"]["graph"]["current_state"][0]):
                        raise
            if bad:
                raise Near()
        except Near:
            info["near"] += 1
            last = None
            continue
        info["rows"] += 1
        last = mset
        if not mset:
            want = np.zeros(na * k["y_dim"]) if cover is None else np.array(cover * na if len(cover) == 1 and na > 1 else cover, dtype=float)
            info["unmatched"] += 1
        else:
            want = np.array([num[a] / den[a] if den[a] != 0 else np.zeros(k["y_dim"]) for a in range(na)]).ravel()
            info["matched"] += 1
        scale = 1 + max([float(np.max(np.abs(p))) for _, _, p in mset] + [0])
        for i, (g, w) in enumerate(zip(np.asarray(row).ravel(), want)):
            check(close(float(g), float(w), 1e-7, 1e-8 * scale), "explained", "output %d for %s is %.12g, the %d exported rules (%d of them accept it) say %.12g" % (i, list(map(float, v)), g, len(R), len(mset), w))
        check(np.asarray(row).size == want.size, "shape", "%d outputs for %d" % (np.asarray(row).size, want.size))
    # scores are those of the same predictions
    if len(X) and na == 1 and not (k["stateful"] and "dgp" in k["condition"]["type"]):
        Y = np.random.RandomState(seed % 1000).rand(len(X), k["y_dim"])
        c = None if cover is None else np.array(cover)
        if other is not None:
            x.predict(X, np.array(other))
        e = x.score(X, Y, cover=c)
        w = float(np.mean([loss(k["loss_func"], list(p), list(y), k.get("huber_delta", 1.0)) for p, y in zip(got, Y)]))
        check(close(e, w, 1e-7, 1e-9), "score", "score of %d rows is %.12g, of the predictions %.12g" % (len(X), e, w))
        info["scored"] += 1
    # what is exported of the last step
    if last is not None and len(X):
        S = export()
        m = {i: (a, p) for i, a, p in last}
        for i, s in enumerate(S):
            check(s["current_match"] == (i in m), "state", "rule %d is exported as %smatching the last input" % (i, "" if s["current_match"] else "not "))
            if i in m:
                check(s["current_action"] == m[i][0], "state", "rule %d is exported with action %s, its action was %d" % (i, s["current_action"], m[i][0]))
                for a, b in zip(s["current_prediction"], m[i][1]):
                    check(close(float(a), float(b), 1e-7, 1e-8), "state", "rule %d is exported with prediction %.12g for the last input, it is %.12g" % (i, a, b))
            for q in ("error", "fitness", "accuracy", "set_size", "numerosity", "experience", "time"):
                check(s[q] == R[i][q], "state", "%s of rule %d changed from %r to %r by predicting" % (q, i, R[i][q], s[q]))
    return info


def run(src, c):
    rl = src.chance(1, 3)
    k = config(src, rl=rl)
    d = k["x_dim"]
    k["condition"] = src.pick([
        dict(type="hyperrectangle_csr", args=dict(min=0, max=1, spread_min=0.2, eta=src.pick([0, 0.1]))),
        dict(type="hyperrectangle_ubr", args=dict(min=0, max=1, spread_min=0.2, eta=0)),
        dict(type="hyperellipsoid", args=dict(min=0, max=1, spread_min=0.3, eta=src.pick([0, 0.1]))),
        dict(type="dummy"),
        dict(type="ternary", args=dict(bits=src.range(1, 3), p_dontcare=src.pick([0.5, 0.8]))),
        dict(type="tree_gp", args=dict(min_constant=-1, max_constant=1, n_constants=src.range(1, 10), init_depth=src.range(1, 4), max_len=60)),
        dict(type="dgp", args=dict(max_k=src.range(1, 3), max_t=4, n=src.range(2, 6), evolve_cycles=True)),
        dict(type="rule_dgp", args=dict(max_k=2, max_t=4, n=src.range(4, 7), evolve_cycles=True))])
    p = src.pick(["constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic"])
    k["prediction"] = dict(type=p)
    if p.startswith("nlms"):
        k["prediction"]["args"] = dict(x0=src.pick([1, 0.5, 2]), eta=src.pick([0.1, 0.5]), evolve_eta=bool(src.flip()))
        if src.chance(1, 3):
            k["prediction"]["args"]["eta_min"] = 0.001
    elif p.startswith("rls"):
        k["prediction"]["args"] = dict(x0=src.pick([1, 0.5]), scale_factor=src.pick([100, 1000]), **{"lambda": src.pick([1, 0.99])})
    k["stateful"] = bool(src.flip())
    if k["condition"]["type"] == "rule_dgp":
        k["n_actions"] = src.range(2, 4) if rl else 1
    if not rl:
        k.pop("action", None)
    grid = src.below(3)
    n = src.range(0, 8)
    X = data(src, n, d, grid)
    if n and src.chance(1, 3):
        X = X * 1.5 - 0.25
    cover = None if src.flip() else [src.real(-2, 2) for _ in range(k["y_dim"])]
    if rl:
        if src.flip():
            learn = dict(how="rl", steps=[(np.array(data(src, 1, d, grid)[0]), src.below(k["n_actions"]), src.real(-1, 1)) for _ in range(src.range(0, 40))])
        else:
            learn = dict(how="episodes", episodes=[[(np.array(data(src, 1, d, grid)[0]), src.real(-1, 1)) for _ in range(src.range(1, 6))] for _ in range(src.range(0, 8))])
    else:
        k["max_trials"] = src.range(1, 150)
        k["perf_trials"] = src.range(1, 50)
        m = src.range(1, 20)
        learn = dict(how="fit", X=data(src, m, d, grid), Y=data(src, m, k["y_dim"], 2), shuffle=bool(src.flip()))
    c.desc = "model %s\nlearning by %s, %d rows, cover %s" % (brief(k), learn["how"], n, cover)
    other = [src.real(2, 4) for _ in range(k["y_dim"])] if src.flip() else None
    info = pbt.in_child(play, k, learn, X, cover, other, src.below(1 << 30))
    c.nontrivial = info["matched"] > 0
    c.count(k["condition"]["type"])
    for q, v in info.items():
        c.count(q, int(v))


if __name__ == "__main__":
    pbt.main("C35", "models with every condition and predictor that is exported in full (not networks) are trained by random histories, exported as JSON, and the rules so exported are "
             "evaluated by an independent interpreter that has to arrive at the model's prediction for random rows; also partial exports and the exported state after a prediction. "
             "Non-trivial: some row was accepted by some rule.", run, 4000, 100000, 60)
