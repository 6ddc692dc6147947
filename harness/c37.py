"""C37: using models from Python accumulates no memory."""
import ctypes, gc, json, os, pickle
import numpy as np
import pbt
from pbt import check
from pycommon import *
import xcsf

_libc = ctypes.CDLL(None)


class _Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


_libc.mallinfo2.restype = _Info


def used():
    """Bytes the process holds from malloc, in all arenas."""
    gc.collect()
    m = _libc.mallinfo2()
    return m.uordblks + m.hblkhd


def act(x, op, k, rl):
    """One operation; everything it returns is dropped."""
    t, a = op[0], op[1:]
    if t == "fit":
        X, Y, val, warm, cbs = a
        calls = []
        for c in cbs:
            calls.append(xcsf.EarlyStoppingCallback(**c[1]) if c[0] == "stop" else xcsf.CheckpointCallback(**c[1]))
        kw = {"validation_data": val} if val is not None else {}
        x.fit(X, Y, True, warm, False, callbacks=calls or None, **kw)
    elif t == "predict":
        x.predict(a[0], cover=a[1])
    elif t == "score":
        x.score(a[0], a[1], N=a[2], cover=a[3])
    elif t == "step":
        for s, m, r in a[0]:
            x.fit(s, m, r)
    elif t == "trial":
        x.init_trial()
        for i, (s, e, r) in enumerate(a[0]):
            x.init_step()
            x.decision(s, e)
            x.update(r, i + 1 == len(a[0]))
            x.error(r, i + 1 == len(a[0]), 1.0)
            x.end_step()
        x.end_trial()
    elif t == "store":
        x.store()
    elif t == "retrieve":
        x.retrieve()
    elif t == "file":
        x.save("m.bin")
        (xcsf.XCS(**a[0]) if a[0] else x).load("m.bin")
        os.unlink("m.bin")
    elif t == "pickle":
        y = pickle.loads(pickle.dumps(x))
        if a[0]:
            return y
    elif t == "json":
        x.json(*a[0])
    elif t == "insert":
        s = json.loads(x.json())
        if s and s.get("classifiers"):
            if a[0]:
                x.json_insert(json.dumps(s))
            else:
                x.json_insert_cl(json.dumps(s["classifiers"][0]))
    elif t == "jsonfile":
        if x.pset_size():
            x.json_write("m.json")
            x.json_read("m.json")
            os.unlink("m.json")
    elif t == "params":
        x.get_params()
        x.internal_params()
        xcsf.XCS(**x.get_params())
    elif t == "set":
        x.set_params(**a[0])
    elif t == "expand":
        x.pred_expand()
    elif t == "observe":
        x.get_metrics()
        if x.pset_size():
            x.pset_mean_cond_size(), x.pset_mean_pred_size()
        x.time(), x.error(), x.mset_size(), x.aset_size(), x.mfrac(), x.pset_num()
    elif t == "refused":
        for f in (lambda: x.predict(np.zeros((2, k["x_dim"] + 1))), lambda: x.fit(np.zeros((2, k["x_dim"])), np.zeros((3, k["y_dim"])), True, True, False),
                  lambda: x.predict(np.zeros((2, k["x_dim"])), cover=np.zeros(k["y_dim"] + 2)), lambda: xcsf.EarlyStoppingCallback(monitor="nothing")):
            try:
                f()
                check(False, "accepted", "a misshapen call was accepted")
            except ValueError:
                pass
    return x


def life(k, ops, rl):
    x = xcsf.XCS(**k)
    for o in ops:
        x = act(x, o, k, rl)


BLOCK, WARM, TRIES = 4, 3, 10


def play(k, ops, rl):
    for _ in range(WARM):
        life(k, ops, rl)
    grown = []
    for _ in range(TRIES):
        before = used()
        for _ in range(BLOCK):
            life(k, ops, rl)
        g = used() - before
        grown.append(g)
        if g < 12 * BLOCK:
            return grown
    check(False, "grows", "making, using and discarding the same model %d times each leaves %s more bytes in use every time" % (BLOCK, grown))


def run(src, c):
    rl = src.chance(1, 3)
    k = config(src, rl)
    k["random_state"] = src.range(1, 1000)
    k["max_trials"] = src.range(1, 25)
    k["perf_trials"] = src.range(1, 20)
    k["pop_size"] = min(k["pop_size"], 40) if not rl else k["pop_size"]
    xd, yd, na = k["x_dim"], k["y_dim"], k["n_actions"]
    ctype, ptype = k["condition"]["type"], k["prediction"]["type"]
    inserts = not (ctype in ("tree_gp", "neural", "rule_neural", "rule_dgp") or ptype == "neural" or k.get("action", {}).get("type") == "neural")
    X, Y = (data(src, 5, d, 0) for d in (xd, yd))
    ops, names = [], []
    for _ in range(src.range(1, 7)):
        t = src.pickw([6 if not rl else 0, 2, 2 if not rl else 0, 3 if rl else 0, 3 if rl else 0, 2, 2, 2, 2, 1, 2 if inserts else 0, 1 if inserts else 0, 1, 1,
                       1 if ptype == "neural" else 0, 1, 1 if not rl else 0])
        cover = data(src, 1, yd, 0)[0] if src.flip() else None
        if t == 0:
            val = (data(src, 3, xd, 0), data(src, 3, yd, 0)) if src.flip() else None
            cbs = []
            if src.chance(1, 3):
                cbs.append(("stop", dict(monitor="train", patience=src.range(0, 5), restore_best=bool(src.flip()), verbose=False)))
            if src.chance(1, 4):
                cbs.append(("save", dict(monitor="train", filename="c.bin", save_best_only=bool(src.flip()), save_freq=src.range(0, 3), verbose=False)))
            o = ("fit", X, Y, val, bool(src.flip()), cbs)
        elif t == 1: o = ("predict", X, cover)
        elif t == 2: o = ("score", X, Y, src.pick([0, 2, 50]), cover)
        elif t == 3: o = ("step", [(X[src.below(5)], src.below(na), src.real(0, 1)) for _ in range(src.range(1, 6))])
        elif t == 4: o = ("trial", [(X[src.below(5)], bool(src.flip()), src.real(0, 1)) for _ in range(src.range(1, 5))])
        elif t == 5: o = ("store",)
        elif t == 6: o = ("retrieve",)
        elif t == 7: o = ("file", config(src, False) if src.flip() else None)
        elif t == 8: o = ("pickle", bool(src.flip()))
        elif t == 9: o = ("json", (bool(src.flip()), bool(src.flip()), bool(src.flip())))
        elif t == 10: o = ("insert", bool(src.flip()))
        elif t == 11: o = ("jsonfile",)
        elif t == 12: o = ("params",)
        elif t == 13: o = ("set", {"beta": 0.1, "e0": 0.02, "ea": dict(k["ea"])} if src.flip() else {q: k[q] for q in ("condition", "prediction")})
        elif t == 14: o = ("expand",)
        elif t == 15: o = ("observe",)
        else: o = ("refused",)
        ops.append(o)
        names.append(o[0])
    c.desc = "model %s\nops %s" % (brief(k), names)
    g = pbt.in_child(play, k, ops, rl)
    c.nontrivial = len(ops) > 1 and any(n in ("fit", "step", "trial") for n in names)
    c.count("rl" if rl else "supervised")
    for n in names:
        c.count(n)
    c.count("lives", WARM + BLOCK * len(g))
    c.count("measured again", len(g) - 1)


if __name__ == "__main__":
    pbt.main("C37", "a random model lives through a random sequence of fits (cold, warm, with validation and callbacks), predictions, scores, reinforcement "
             "learning, stores, retrieves, saves, loads, pickles, exports, insertions, parameter reads and changes, network expansions and refused calls, and is "
             "discarded; the same life is repeated and the bytes the process holds from malloc must stop growing. Non-trivial: more than one operation, "
             "at least one of them learning.", run, 6000, 60000, 60)
