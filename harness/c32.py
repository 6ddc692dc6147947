"""C32: reinforcement learning from Python is exact where it can be computed."""
import pickle
import numpy as np
import pbt
from pbt import check, close
from pycommon import *
import xcsf


class Table:
    """Rules that match exactly one state (or every state), one per action:
    what each of them predicts is known after any history."""

    def __init__(self, k, general):
        self.k, self.general = k, general
        self.rules = {}
        self.error = k["e0"]
        self.time = 0
        self.prev = None

    def key(self, x, a):
        return (None if self.general else tuple(x), a)

    def cover(self, x):
        for a in range(self.k["n_actions"]):
            q = self.key(x, a)
            if q not in self.rules:
                if self.k["prediction"]["type"] == "constant":
                    w = np.zeros(1)
                else:
                    w = np.zeros(len(x) + 1)
                    w[0] = self.k["prediction"]["args"]["x0"]
                self.rules[q] = dict(w=w, exp=0)

    def feat(self, x):
        return np.concatenate(([self.k["prediction"]["args"]["x0"]], x))

    def value(self, x, a):
        r = self.rules[self.key(x, a)]
        return float(r["w"][0]) if self.k["prediction"]["type"] == "constant" else float(r["w"] @ self.feat(x))

    def known(self, x):
        return self.key(x, 0) in self.rules

    def array(self, x):
        return [self.value(x, a) for a in range(self.k["n_actions"])]

    def learn(self, x, a, target):
        r = self.rules[self.key(x, a)]
        p = self.value(x, a)
        r["exp"] += 1
        b = self.k["beta"]
        if self.k["prediction"]["type"] == "constant":
            if r["exp"] * b < 1:
                r["w"] = (r["w"] * (r["exp"] - 1) + target) / r["exp"]
            else:
                r["w"] = r["w"] + b * (target - r["w"])
        else:
            f = self.feat(x)
            n = float(f @ f)
            if n > 0:
                r["w"] = r["w"] + self.k["prediction"]["args"]["eta"] * (target - p) / n * f

    def run_error(self, e):
        self.error += self.k["beta"] * (e - self.error)

    def loss(self, p, y):
        return loss(self.k["loss_func"], [p], [y], self.k.get("huber_delta", 1.0))


def play(k, general, ops, seed):
    src = pbt.Src(seed=seed)
    x = xcsf.XCS(**k)
    t = Table(k, general)
    na = k["n_actions"]
    info = dict(steps=0, watched=0, credited=0, fits=0, states=0, exploring=0)

    def same(got, want, kind, what):
        check(close(float(got), float(want), 1e-8, 1e-9), kind, "%s is %.12g, expected %.12g" % (what, got, want))

    def state_ok():
        same(x.error(), t.error, "running error", "the running error")
        check(x.time() == t.time, "time", "the clock shows %d, expected %d" % (x.time(), t.time))
        check(x.pset_size() == len(t.rules) and x.pset_num() == len(t.rules), "rules", "%d rules of %d expected" % (x.pset_size(), len(t.rules)))

    for op in ops:
        if op[0] == "fit":
            _, s, a, r = op
            t.cover(s)
            p = t.value(s, a)
            got = x.fit(s, a, r)
            same(got, t.loss(p, r), "fit error", "the error fit() returned")
            t.learn(s, a, r)
            t.run_error(t.loss(p, r))
            t.time += 1
            info["fits"] += 1
            info["credited"] += 1
        elif op[0] == "predict":
            X = op[1]
            got = x.predict(X, op[2])
            check(got.shape == (len(X), na), "shape", "predict() returned shape %s for %d states and %d actions" % (got.shape, len(X), na))
            for row, s in zip(got, X):
                want = t.array(s) if t.known(s) else [0.0 if op[2] is None else op[2][0]] * na
                for a in range(na):
                    same(row[a], want[a], "prediction", "the prediction for action %d in state %s" % (a, list(s)))
        elif op[0] == "pickle":
            x = pickle.loads(pickle.dumps(x))
        else:
            x.init_trial()
            prev = None
            for (s, explore, act_as, r, done, max_p, ask) in op[1]:
                x.init_step()
                t.cover(s)
                pa = t.array(s)
                a = x.decision(s, explore)
                check(0 <= a < na, "action", "decided for action %s of %d" % (a, na))
                if not explore or k["p_explore"] == 0:
                    check(pa[a] >= max(pa) - 1e-8 * (1 + abs(max(pa))), "greedy", "decided for action %d of values %s" % (a, pa))
                target = None
                if act_as:  # a step that is only watched: nobody is credited
                    if ask:
                        e = 0.0
                        if prev is not None:
                            e += t.loss(prev[3], prev[2] + k["gamma"] * pa[a]) / max_p
                        if done:
                            e += t.loss(pa[a], r) / max_p
                        same(x.error(r, done, max_p), e, "step error", "the error of a step that was only watched")
                        t.run_error(e)
                    x.end_step()
                    prev = None
                    info["watched"] += 1
                    if done:
                        break
                    continue
                x.update(r, done)
                if prev is not None:
                    target = prev[2] + k["gamma"] * max(pa)
                    t.learn(prev[0], prev[1], target)
                    t.time += explore
                    info["credited"] += 1
                if done:
                    t.learn(s, a, r)
                    t.time += explore
                    info["credited"] += 1
                if ask:
                    e = 0.0
                    if prev is not None:
                        e += t.loss(prev[3], prev[2] + k["gamma"] * pa[a]) / max_p
                    if done:
                        e += t.loss(pa[a], r) / max_p
                    same(x.error(r, done, max_p), e, "step error", "the error of a step")
                    t.run_error(e)
                x.end_step()
                prev = (s, a, r, pa[a])
                info["steps"] += 1
                info["exploring"] += explore
                if done:
                    break
            x.end_trial()
        state_ok()
    info["states"] = len(t.rules) // na
    return info


def run(src, c):
    general = src.chance(1, 3)
    d = src.range(1, 4)
    k = dict(omp_num_threads=1, x_dim=d, y_dim=1, n_actions=src.range(2, 4), random_state=src.range(1, 10 ** 6), pop_size=1000, pop_init=False,
             beta=src.pick([0.1, 0.5, 1.0, 0.02]), gamma=src.pick([0.0, 0.5, 0.71, 1.0]), p_explore=src.pick([0.0, 0.5, 1.0]), e0=src.pick([0.01, 0.5]),
             loss_func=src.pick(["mae", "mse", "rmse", "huber"]), ea=dict(theta_ea=10 ** 6), set_subsumption=False, compaction=False)
    k["condition"] = dict(type="dummy") if general else dict(type="ternary", args=dict(bits=1, p_dontcare=0.0))
    k["action"] = dict(type="integer")
    if src.flip():
        k["prediction"] = dict(type="constant")
    else:
        k["prediction"] = dict(type="nlms_linear", args=dict(x0=src.pick([1, 0.5]), eta=src.pick([0.1, 0.5]), evolve_eta=False))

    def state():
        if general and src.flip():
            return np.array([src.uniform(0, 1) for _ in range(d)])
        return np.array([float(src.range(0, 1)) for _ in range(d)])

    ops = []
    for _ in range(src.range(1, 8)):
        w = src.pickw([3, 6, 2, 1])
        if w == 0:
            for _ in range(src.range(1, 4)):
                ops.append(("fit", state(), src.below(k["n_actions"]), src.real(-1, 2)))
        elif w == 1:
            n = src.range(1, 8)
            ask = src.chance(3, 4)
            watch = src.chance(1, 6)
            mode = src.pick([True, False, None])
            steps = [(state(), bool(src.flip()) if mode is None else mode, watch and src.chance(1, 3), src.pick([0.0, 1.0]) if src.flip() else src.real(-1, 2), False, src.pick([1.0, 2.0, 1000.0]), ask) for _ in range(n)]
            if src.chance(3, 4):
                steps[-1] = steps[-1][:4] + (True,) + steps[-1][5:]
            ops.append(("trial", steps))
        elif w == 2:
            ops.append(("predict", np.array([state() for _ in range(src.range(1, 4))]), None if src.flip() else np.array([src.real(-1, 1)])))
        else:
            ops.append(("pickle",))
    c.desc = "model %s\nops %s" % (brief(k), [o[0] if o[0] != "trial" else "trial of %d" % len(o[1]) for o in ops])
    info = pbt.in_child(play, k, general, ops, src.below(1 << 30))
    c.nontrivial = info["credited"] > 0
    for q, v in info.items():
        c.count(q, int(v))


if __name__ == "__main__":
    pbt.main("C32", "random episodes, single-step updates, predictions and pickling on a model without evolution whose rules each match one state (or all), so that "
             "a table of values computed independently tells every decision's legality, every prediction, step error, running error, clock and number of rules. "
             "Non-trivial: some rule was credited.", run, 6000, 150000, 60)
