"""Generators shared by the checks of the Python module."""
import json
import numpy as np

SUP_CONDS = ["hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "dummy", "ternary", "tree_gp", "dgp", "neural"]
PREDS = ["nlms_linear", "constant", "nlms_quadratic", "rls_linear", "rls_quadratic", "neural"]


def net(src, out=None, stateful=False):
    """Layers of a small network."""
    n = src.range(0, 2)
    layers = {}
    acts = ["relu", "logistic", "tanh", "linear", "leaky", "sin", "selu", "softplus"]
    for i in range(n):
        layers["layer_%d" % i] = {
            "type": src.pick(["connected", "recurrent", "lstm"]) if stateful and src.chance(1, 3) else "connected",
            "activation": src.pick(acts), "n_init": src.range(1, 4), "evolve_weights": True,
            "sgd_weights": src.flip(), "eta": 0.05, "momentum": src.pick([0, 0.9])}
        if src.flip():
            layers["layer_%d" % i].update(evolve_functions=True, evolve_connect=True, evolve_neurons=True, n_max=6, max_neuron_grow=2,
                                          evolve_eta=True, eta_min=0.001)
    layers["layer_%d" % n] = {"type": "connected", "activation": out or src.pick(["linear", "logistic", "tanh"]),
                             "n_init": 1, "evolve_weights": True, "sgd_weights": True, "eta": 0.05}
    for l in layers.values():
        if l["type"] == "lstm":
            l["recurrent_activation"] = "logistic"
    return layers


def config(src, rl=False, x_dim=None, y_dim=None, stateful=False):
    """Keyword arguments of a model."""
    wide = src.chance(1, 10)  # now and then many variables, outputs or actions
    x_dim = x_dim or (src.range(5, 14) if wide and src.flip() else src.range(1, 4))
    y_dim = 1 if rl else (y_dim or (src.range(4, 12) if wide and src.flip() else src.range(1, 3)))
    k = dict(omp_num_threads=1, x_dim=x_dim, y_dim=y_dim, n_actions=(src.range(4, 12) if wide and src.flip() else src.range(2, 3)) if rl else 1,
             random_state=src.range(1, 1000000), pop_size=src.pick([30, 10, 100]),
             pop_init=bool(src.flip()), beta=src.pick([0.1, 0.5, 0.2]), theta_del=src.pick([5, 20]),
             loss_func=src.pick(["mae", "mse", "rmse", "huber"]), set_subsumption=bool(src.flip()),
             ea=dict(select_type=src.pick(["roulette", "tournament"]), theta_ea=src.pick([5, 25]), lambda_=2,
                     p_crossover=0.8, subsumption=bool(src.flip())))
    k["ea"]["lambda"] = k["ea"].pop("lambda_")
    cond = src.pick(SUP_CONDS)
    c = dict(type=cond)
    if cond.startswith("hyper"):
        c["args"] = dict(min=0, max=1, spread_min=0.3, eta=src.pick([0, 0.1]))
    elif cond == "ternary":
        c["args"] = dict(bits=src.range(1, 2), p_dontcare=0.6)
    elif cond == "neural":
        c["args"] = net(src, "linear", stateful)
    elif cond in ("tree_gp",):
        c["args"] = dict(min_constant=0, max_constant=1, n_constants=10, init_depth=2, max_len=50)
    elif cond == "dgp":
        c["args"] = dict(max_k=2, max_t=3, n=6, evolve_cycles=True)
    k["condition"] = c
    pred = src.pick(PREDS)
    p = dict(type=pred)
    if pred.startswith("nlms"):
        p["args"] = dict(x0=1, eta=src.pick([0.1, 0.5]), evolve_eta=bool(src.flip()))
    elif pred.startswith("rls"):
        p["args"] = dict(x0=1, scale_factor=100, **{"lambda": 1})
    elif pred == "neural":
        p["args"] = net(src, None, stateful)
    k["prediction"] = p
    if rl:
        k["action"] = dict(type="integer")
        k["gamma"] = 0.7
        k["p_explore"] = 0.5
        k["pop_size"] = src.pick([100, 50])
    # every network needs an output of the right width
    if pred == "neural":
        last = sorted(p["args"])[-1]
        p["args"][last]["n_init"] = y_dim
    return k


def data(src, n, d, grid):
    """n rows of d values. grid 0: multiples of 1/16, 1: zeros and ones, 2: any."""
    if grid == 0:
        f = lambda: src.range(0, 16) / 16.0
    elif grid == 1:
        f = lambda: float(src.range(0, 1))
    else:
        f = lambda: src.uniform(0, 1)
    if n and src.chance(1, 12):  # equal rows
        r = [f() for _ in range(d)]
        return np.array([r] * n, dtype=float)
    return np.array([[f() for _ in range(d)] for _ in range(n)], dtype=float).reshape(n, d)


def loss(name, p, y, delta=1.0):
    d = np.abs(np.asarray(p) - np.asarray(y))
    if name == "mae":
        return float(np.mean(d))
    if name == "mse":
        return float(np.mean(d * d))
    if name == "rmse":
        return float(np.sqrt(np.mean(d * d)))
    if name == "huber":
        return float(np.mean(np.where(d > delta, 0.5 * delta * delta + delta * (d - delta), 0.5 * d * d)))
    raise KeyError(name)


def brief(k):
    return json.dumps(k)
