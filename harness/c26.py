"""C26: arrays given to the Python module are interpreted by value."""
import gc
import numpy as np
import pbt
from pbt import check
from pycommon import *
import xcsf

DT = {0: ["<f8", ">f8", "<f4", ">f4", "<f2", "g"], 1: ["<f8", "?", "<i4", "<i8", "u1", ">i2", "<f4", "<u8", "i1"], 2: ["<f8", ">f8", "g"]}


def vary(src, a, grid):
    """The same values in another array: (object to pass, backing array, name)."""
    a = np.array(a, dtype=np.dtype(src.pick(DT[grid])))
    how = src.below(11)
    name = "%s/%s" % (a.dtype.str, ["plain", "fortran", "strided", "reversed", "window", "readonly", "list", "unaligned",
                                    "broadcast", "flat", "strided2"][how])
    base = a
    if how == 1:
        base = np.asfortranarray(a)
        r = base
    elif how in (2, 10):
        st = src.range(2, 3)
        shape = list(a.shape)
        ax = src.below(a.ndim) if how == 2 else a.ndim - 1
        shape[ax] *= st
        base = np.ones(shape, a.dtype)
        ix = [slice(None)] * a.ndim
        ix[ax] = slice(src.below(st), None, st)
        base[tuple(ix)] = a
        r = base[tuple(ix)]
    elif how == 3:
        ax = src.below(a.ndim)
        base = np.flip(a, ax).copy()
        r = np.flip(base, ax)
    elif how == 4:
        base = np.ones([s + 2 for s in a.shape], a.dtype)
        ix = tuple(slice(1, 1 + s) for s in a.shape)
        base[ix] = a
        r = base[ix]
    elif how == 5:
        r = a.copy()
        r.flags.writeable = False
        base = r
    elif how == 6:
        return a.tolist(), None, name
    elif how == 7:
        buf = bytearray(a.nbytes + 1)
        base = np.frombuffer(buf, np.uint8)
        r = np.frombuffer(buf, a.dtype, offset=1).reshape(a.shape) if a.size else a
        r[...] = a
    elif how == 8 and a.ndim == 2 and len(a) > 1 and (a == a[0]).all():
        base = a[:1].copy()
        r = np.broadcast_to(base, a.shape)
    elif how == 9 and a.ndim == 2 and a.shape[1] == 1:
        base = a.copy()
        r = base[:, 0]
    else:
        r = base = a.copy()
    return r, base, name


class Arrays:
    """How one twin passes its arrays."""

    def __init__(self, src, varied):
        self.src, self.varied, self.keep, self.names = src, varied, [], set()

    def __call__(self, a, grid):
        if not self.varied:
            r = np.array(a, dtype=np.float64, order="C")
            self.keep.append((r, r.copy(), None))
            return r
        r, base, n = vary(self.src, a, grid)
        self.names.add(n)
        self.keep.append((r, None if base is None else base.copy(), base))
        return r

    def after(self):
        """The arrays of the last call are unchanged; they now disappear."""
        if not self.varied:
            return
        for r, snap, base in self.keep:
            if base is not None:
                check(base.tobytes() == snap.tobytes(), "array modified", "an array passed in was modified by the call")
                if r.flags.writeable:
                    r[...] = 1 if r.dtype.kind in "b" else 77
                elif base is not r and base.flags.writeable:
                    base[...] = 0
        self.keep.clear()
        gc.collect(0)

    def end(self):
        if not self.varied:
            for r, snap, _ in self.keep:
                check(r.tobytes() == snap.tobytes(), "array modified", "an array passed in was modified later")


def refused(f, what):
    try:
        f()
    except Exception:
        return
    raise pbt.Fail("bad shape accepted", what)


def bad_call(src, x, k):
    """A call whose arrays do not fit the model has to raise."""
    xd, yd, na = k["x_dim"], k["y_dim"], k["n_actions"]
    n = src.range(2, 5)
    Z = np.zeros
    good_x, good_y = Z((n, xd)), Z((n, yd))
    bx = [("X with another number of columns", Z((n, xd + 1))), ("X with three dimensions", Z((n, xd, 1))),
          ("X with three dimensions and a column too many", Z((n, 1, xd + 1))), ("0-d X", np.array(0.5))]
    by = [("y with another number of columns", Z((n, yd + 1))), ("y with three dimensions", Z((n, yd, 1))),
          ("y with fewer rows", Z((n - 1, yd))), ("y with more rows", Z((n + 1, yd))), ("0-d y", np.array(0.5))]
    if xd > 1:
        bx += [("one-dimensional X", Z(n)), ("X with too few columns", Z((n, xd - 1))), ("one-dimensional X of x_dim values", Z(xd))]
    if yd > 1:
        by += [("one-dimensional y", Z(n)), ("y with too few columns", Z((n, yd - 1)))]
    what = src.below(7)
    name, a = src.pick(bx)
    nameb, b = src.pick(by)
    if what == 0:
        refused(lambda: x.predict(a), "predict: " + name)
    elif what == 1:
        if src.flip():
            refused(lambda: x.score(a, Z((a.shape[0] if a.ndim else 1, yd))), "score: " + name)
        else:
            refused(lambda: x.score(good_x, b), "score: " + nameb)
    elif what == 2:
        c = src.pick([Z(yd + 1), Z((1, yd)), Z(yd + 3), np.array(0.5)] + ([Z(yd - 1)] if yd > 1 else []))
        if src.flip():
            refused(lambda: x.predict(good_x, cover=c), "predict: cover of shape %s" % (c.shape,))
        else:
            refused(lambda: x.score(good_x, good_y, cover=c), "score: cover of shape %s" % (c.shape,))
    elif what == 3 and na == 1:
        if src.flip():
            refused(lambda: x.fit(a, Z((a.shape[0] if a.ndim else 1, yd)), warm_start=True, verbose=False), "fit: " + name)
        else:
            refused(lambda: x.fit(good_x, b, warm_start=True, verbose=False), "fit: " + nameb)
    elif what == 4 and na == 1:
        v = src.pick([(a, Z((a.shape[0] if a.ndim else 1, yd))), (good_x, b), (good_x,), (good_x, good_y, good_y), (Z((0, xd)), Z((0, yd)))])
        refused(lambda: x.fit(good_x, good_y, warm_start=True, verbose=False, validation_data=v),
                "fit: validation data of shapes %s" % ([z.shape for z in v],))
    elif what == 5 and na == 1:
        if src.flip():
            refused(lambda: x.fit(Z((0, xd)), Z((0, yd)), warm_start=True, verbose=False), "fit: no rows")
        else:
            refused(lambda: x.score(Z((0, xd)), Z((0, yd))), "score: no rows")
    elif what == 6 and na > 1:
        s = src.pick([Z(xd + 1), Z((xd, 1, 1)), Z((1, xd)) if xd > 1 else Z((1, 2)), np.array(0.5), Z((xd, 2))])
        if src.flip():
            refused(lambda: x.decision(s, True), "decision: state of shape %s" % (s.shape,))
        else:
            refused(lambda: x.fit(s, 0, 1.0), "fit: state of shape %s" % (s.shape,))
        refused(lambda: x.fit(Z(xd), src.pick([-1, na, na + 5]), 1.0), "fit: action outside the range")
    else:
        return 0
    return 1


def play(k, ops, seed, varied):
    """Perform the operations; returns everything observed."""
    src = pbt.Src(seed=seed)
    A = Arrays(src, varied)
    x = xcsf.XCS(**k)
    yd, pa = k["y_dim"], k["y_dim"] * k["n_actions"]
    log, held, nbad = [], [], 0

    def note(name, v):
        if isinstance(v, np.ndarray):
            held.append((v, v.copy()))
            log.append((name, v.shape, str(v.dtype), v.tolist()))
        else:
            log.append((name, v))

    for op in ops:
        if varied and src.chance(1, 3):
            nbad += bad_call(src, x, k)
        t = op[0]
        if t == "fit":
            _, X, Y, val, warm, shuffle, grid = op
            kw = {}
            if val is not None:
                kw["validation_data"] = (A(val[0], grid), A(val[1], grid))
            x.fit(A(X, grid), A(Y, grid), shuffle, warm, False, **kw)
            note("metrics", x.get_metrics()["train"][-1])
            note("val", x.get_metrics()["val"][-1])
            note("error", x.error())
        elif t == "predict":
            _, X, cover, grid = op
            empty = x.pset_size() == 0
            r = x.predict(A(X, grid), None if cover is None else A(cover, grid))
            check(r.shape == (len(X), pa) and r.dtype == np.float64, "result shape", "predict returned shape %s for %d rows, y_dim %d, %d actions" %
                  (r.shape, len(X), yd, k["n_actions"]))
            if empty:
                want = np.tile(np.zeros(yd) if cover is None else cover, k["n_actions"])
                check(all((row == want).all() for row in r), "cover values", "an empty population predicts %s with cover %s" % (r[0].tolist(), None if cover is None else list(cover)))
            note("predict", r)
        elif t == "score":
            _, X, Y, N, cover, grid = op
            note("score", x.score(A(X, grid), A(Y, grid), N, None if cover is None else A(cover, grid)))
        elif t == "rlfit":
            _, s, act, rew, grid = op
            note("rlfit", x.fit(A(s, grid), act, rew))
        elif t == "trial":
            x.init_trial()
            for (s, explore, rew, done, grid) in op[1]:
                x.init_step()
                note("decision", x.decision(A(s, grid), explore))
                A.after()
                x.update(rew, done)
                note("rlerror", x.error(rew, done, 1.0))
                x.end_step()
            x.end_trial()
        A.after()
    note("json", x.json())
    note("time", x.time())
    for v, c in held:
        check(v.tobytes() == c.tobytes(), "result changed", "an array returned earlier was changed by later calls")
    A.end()
    return log, sorted(A.names), nbad


def run(src, c):
    rl = src.chance(1, 3)
    k = config(src, rl)
    grid = src.pick([0, 2, 1])
    k["max_trials"] = src.range(5, 40)
    k["perf_trials"] = src.range(4, 30)
    xd, yd, na = k["x_dim"], k["y_dim"], k["n_actions"]
    n = src.range(2, 8)
    big = src.pick([1, 1, 1, 40, 150])  # repeated rows: arrays beyond allocator caches
    X, Y = (np.tile(data(src, n, d, grid), (big, 1)) for d in (xd, yd))
    ops = []
    for i in range(src.range(2, 6)):
        t = src.pickw([3, 3, 2] if not rl else [0, 2, 0, 3, 4])
        cover = data(src, 1, yd, grid)[0] if src.flip() else None
        Xt = X if src.flip() else data(src, src.range(1, 6), xd, grid)
        Yt = Y if Xt is X else data(src, len(Xt), yd, grid)
        if t == 0:
            m = src.range(2, 5)
            val = tuple(np.tile(data(src, m, d, grid), (big, 1)) for d in (xd, yd)) if src.flip() else None
            ops.append(("fit", X, Y, val, bool(src.flip()), bool(src.flip()), grid))
        elif t == 1:
            ops.append(("predict", Xt, cover, grid))
        elif t == 2:
            ops.append(("score", Xt, Yt, src.pick([0, 1, 2, 100]), cover, grid))
        elif t == 3:
            for _ in range(src.range(1, 8)):
                ops.append(("rlfit", data(src, 1, xd, grid)[0], src.below(na), src.real(0, 1), grid))
        else:
            steps = [(data(src, 1, xd, grid)[0], bool(src.flip()), src.real(0, 1), False, grid) for _ in range(src.range(1, 5))]
            if src.flip():
                steps[-1] = steps[-1][:3] + (True, grid)
            ops.append(("trial", steps))
    c.desc = "model %s\nops %s" % (brief(k), [(o[0],) + tuple(v.shape for v in o[1:] if isinstance(v, np.ndarray)) for o in ops])
    vseed = src.below(1 << 30)
    la, _, _ = pbt.in_child(play, k, ops, vseed, False)
    lb, names, nbad = pbt.in_child(play, k, ops, vseed, True)
    c.desc += "\nlayouts %s" % names
    check(len(la) == len(lb), "sequence", "different number of observations")
    for i, (p, q) in enumerate(zip(la, lb)):
        check(p == q or repr(p) == repr(q), "depends on layout", "observation %d: %s with plain arrays, %s with the same values laid out as %s" % (i, repr(p)[:300], repr(q)[:300], names))
    c.nontrivial = any(not s.endswith("plain") for s in names)
    c.count("rl" if rl else "supervised")
    c.count("operations", len(ops))
    c.count("refused calls", nbad)
    for s in names:
        c.count(s.split("/")[1])


if __name__ == "__main__":
    pbt.main("C26", "a random model (8 condition, 6 prediction types; supervised or reinforcement) receives a random sequence of fit, predict, score, "
             "decision/update calls twice: with fresh C-ordered float64 arrays, and with the same values in random layouts, types and lifetimes "
             "(Fortran, strided, reversed, windowed, read-only, lists, unaligned, broadcast, 1-D; destroyed right after the call); everything observed "
             "must be equal. Misshapen calls in between must raise and change nothing. Non-trivial: at least one array had another layout.",
             run, 4500, 60000, 60)
