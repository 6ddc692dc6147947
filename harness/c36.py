"""C36: drawings show exactly the rule they were made from."""
import json, sys, types
import numpy as np
import pbt
from pbt import check
from pycommon import *
import xcsf


class Canvas:
    """Stands in for graphviz: records what is drawn."""
    made = []

    def __init__(self, *a, **kw):
        self.directed = False
        self.filename = kw.get("filename", a[1] if len(a) > 1 else None)
        self.nodes, self.links, self.caption, self.shown = {}, [], {}, 0
        Canvas.made.append(self)

    def node(self, name, label=None, _attributes=None, **kw):
        at = dict(_attributes or {}, **kw)
        at["label"] = name if label is None else label
        self.nodes.setdefault(str(name), {}).update(at)

    def edge(self, tail, head, label=None, _attributes=None, **kw):
        self.links.append((str(tail), str(head)))

    def edges(self, pairs):
        for t, h in pairs:
            self.edge(t, h)

    def attr(self, kw=None, _attributes=None, **at):
        self.caption.update(_attributes or {}, **at)

    def view(self, *a, **kw):
        self.shown += 1

    def render(self, *a, **kw):
        self.shown += 1


class DiCanvas(Canvas):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.directed = True


stub = types.ModuleType("graphviz")
stub.Graph, stub.Digraph = Canvas, DiCanvas
sys.modules["graphviz"] = stub
from xcsf.utils import viz


def parse(t):
    """Nested tuples of a token list."""
    pos = [0]

    def rec():
        s = t[pos[0]]
        pos[0] += 1
        if s != "(":
            return s
        a = rec()
        op = t[pos[0]]
        pos[0] += 1
        b = rec()
        assert t[pos[0]] == ")"
        pos[0] += 1
        return (op, a, b)
    e = rec()
    assert pos[0] == len(t)
    return e


def label(s, names):
    if isinstance(s, float):
        return "%.5f" % s
    if names is not None and isinstance(s, str) and s.startswith("feature_") and int(s[8:]) < len(names):
        return names[int(s[8:])]
    return str(s)


def check_tree(tokens, note, names, c):
    del Canvas.made[:]
    before = list(tokens)
    viz.TreeViz(tokens, "out", note=note, feature_names=names)
    check(tokens == before, "input", "drawing changed the tree given")
    check(len(Canvas.made) == 1 and Canvas.made[0].shown >= 1, "drawn", "nothing was drawn")
    g = Canvas.made[0]
    check(str(g.filename).startswith("out"), "file", "saved to %s" % g.filename)
    want = parse(tokens)
    kids = {}
    for t, h in g.links:
        kids.setdefault(t, []).append(h)
    heads = [h for _, h in g.links]
    check(len(set(heads)) == len(heads), "tree", "a node has two parents")
    check(all(n in g.nodes for e in g.links for n in e), "tree", "an edge leads to a node that was not drawn")
    roots = [n for n in g.nodes if n not in heads]
    check(len(roots) == 1, "tree", "%d roots" % len(roots))
    size = [0]

    def rebuild(n, e):
        size[0] += 1
        k = kids.get(n, [])
        if isinstance(e, tuple):
            check(g.nodes[n]["label"] == e[0] and len(k) == 2, "node", "'%s' with %d branches drawn for the function %s" % (g.nodes[n]["label"], len(k), e[0]))
            rebuild(k[0], e[1])
            rebuild(k[1], e[2])
        else:
            check(not k and g.nodes[n]["label"] == label(e, names), "node", "'%s' with %d branches drawn for %r" % (g.nodes[n]["label"], len(k), e))
    rebuild(roots[0], want)
    check(size[0] == len(g.nodes), "tree", "%d nodes drawn for an expression of %d" % (len(g.nodes), size[0]))
    if note is None:
        check(not g.caption.get("label"), "note", "caption '%s' without a note" % g.caption.get("label"))
    else:
        check(g.caption.get("label") == note, "note", "caption %r for the note %r" % (g.caption.get("label"), note))
    c.count("tree nodes", size[0])


def check_graph(d, note, names, c):
    del Canvas.made[:]
    before = json.dumps(d)
    viz.DGPViz(d, "out", note=note, feature_names=names)
    check(json.dumps(d) == before, "input", "drawing changed the graph given")
    check(len(Canvas.made) == 1 and Canvas.made[0].shown >= 1, "drawn", "nothing was drawn")
    g = Canvas.made[0]
    check(g.directed, "directed", "a graph drawn without directions")
    check(str(g.filename).startswith("out"), "file", "saved to %s" % g.filename)
    n, m = d["n"], d["n_inputs"]
    k = len(d["connectivity"]) // n
    want, used = [], set()
    for i in range(n):
        for s in d["connectivity"][i * k:i * k + (1 if d["functions"][i] == "Fuzzy NOT" else k)]:
            if s < m:
                used.add(s)
            want.append(("f%d" % s if s < m else "n%d" % (s - m), "n%d" % i))
    # nodes are known by what they show
    ident = {}
    for q, at in g.nodes.items():
        if q.isdigit():
            i = int(q)
            check(i < n, "node", "node %d of %d" % (i, n))
            ident[q] = "n%d" % i
            check(at["label"] == d["functions"][i], "node", "node %d is drawn as %s, it is %s" % (i, at["label"], d["functions"][i]))
            check(("filled" in (at.get("style") or "")) == (i == 0), "match node", "node %d has style %r" % (i, at.get("style")))
        else:
            check(q.startswith("feature_"), "node", "node %s" % q)
            i = int(q[8:])
            ident[q] = "f%d" % i
            check(at["label"] == label(q, names), "node", "feature %d is drawn as %s" % (i, at["label"]))
    check(sorted(ident.values()) == sorted(["n%d" % i for i in range(n)] + ["f%d" % s for s in used]), "nodes", "drawn are %s" % sorted(ident.values()))
    got = sorted((ident.get(t), ident.get(h)) for t, h in g.links)
    check(got == sorted(want), "edges", "edges %s drawn, the graph has %s" % (got, sorted(want)))
    cap = g.caption.get("label", "")
    check("N = %d\n" % n in cap and "T = %d\n" % d["t"] in cap and (note is None or cap.startswith(note)), "note", "caption %r for %d nodes, %d cycles and the note %r" % (cap, n, d["t"], note))
    c.count("graph nodes", n)


def evolved(k, n, seed):
    src = pbt.Src(seed=seed)
    x = xcsf.XCS(**k)
    X, Y = data(src, 10, k["x_dim"], 2), data(src, 10, 1, 2)
    for _ in range(n):
        x.fit(X, Y, verbose=False)
    return [r["condition"] for r in json.loads(x.json())["classifiers"]]


def tokens(src, d, depth):
    if depth == 0 or src.chance(1, 4):
        w = src.below(4)
        return [["feature_%d" % src.below(d), src.real(-2, 2), src.range(-1, 3), 1e-7][w]]
    return ["("] + tokens(src, d, depth - 1) + [src.pick("+-*/")] + tokens(src, d, depth - 1) + [")"]


def run(src, c):
    d = src.range(1, 12)
    names = None if src.flip() else ["name %d" % i if src.flip() else src.pick(["a_b", "feature_0", "x", "feature_9"]) + str(i) for i in range(src.pick([d, d, 1, max(1, d - 1)]))]
    note = None if src.flip() else src.pick(["a note", "", "two\nlines", "100 %d"])
    kind = src.pick(["tree", "tree", "graph", "graph", "evolved tree", "evolved graph"])
    c.desc = kind
    if kind == "tree":
        t = tokens(src, d, src.range(0, 5))
        c.desc = "tree %s names %s" % (" ".join(map(str, t)), names)
        check_tree(t, note, names, c)
    elif kind == "graph":
        n, k = src.range(1, 8), src.range(1, 4)
        g = dict(n=n, t=src.range(1, 9), n_inputs=d, functions=[src.pick(["Fuzzy NOT", "Fuzzy AND", "Fuzzy OR"]) for _ in range(n)],
                 connectivity=[src.below(n + d) for _ in range(n * k)])
        c.desc = "graph %s names %s" % (json.dumps(g), names)
        check_graph(g, note, names, c)
    else:
        cond = dict(type="tree_gp", args=dict(min_constant=-1, max_constant=1, n_constants=5, init_depth=src.range(1, 4), max_len=100)) if kind == "evolved tree" else \
            dict(type="dgp", args=dict(max_k=src.range(1, 3), max_t=5, n=src.range(2, 8), evolve_cycles=True))
        k = dict(omp_num_threads=1, x_dim=d, y_dim=1, n_actions=1, pop_size=10, max_trials=50, perf_trials=10, pop_init=True, random_state=src.range(0, 10 ** 6),
                 ea=dict(theta_ea=1), condition=cond, prediction=dict(type="constant"))
        rules = pbt.in_child(evolved, k, src.range(0, 2), src.below(1 << 30))
        c.desc = "%s, %d rules" % (kind, len(rules))
        for r in rules:
            if kind == "evolved tree":
                check_tree(r["tree"]["array"], note, names, c)
            else:
                check_graph(r["graph"], note, names, c)
    c.nontrivial = True


if __name__ == "__main__":
    pbt.main("C36", "expression trees and graphs, generated or taken from evolved models, are drawn on a recording stand-in for graphviz, with and without notes and (partial) "
             "feature names; what was drawn is rebuilt into an expression or connection list and compared with the rule. Non-trivial: every case.", run, 20000, 400000, 60)
