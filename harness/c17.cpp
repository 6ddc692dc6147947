// C17: trees and graphs stay well formed and compute what they encode.
#include "ref.hpp"
using namespace pbt;

// ---- trees
static int arity(int t) { return t < 4 ? 2 : 0; }
static int subtree_end(const std::vector<int> &t, int p)
{
    int need = 1;
    while (need > 0) {
        if (p >= (int) t.size()) return -1;
        need += arity(t[(size_t) p]) - 1;
        ++p;
    }
    return p;
}
static int depth_of(const std::vector<int> &t, int &p)
{
    const int a = arity(t[(size_t) p++]);
    int d = 0;
    for (int i = 0; i < a; ++i) d = std::max(d, 1 + depth_of(t, p));
    return d;
}
static std::vector<int> code(const GPTree &t) { return std::vector<int>(t.tree, t.tree + t.len); }
static void tree_ok(const GPTree &t, const ArgsGPTree &a)
{
    CHECK(t.len >= 1, "tree-length", "tree of length %d", t.len);
    const std::vector<int> v = code(t);
    for (int e : v)
        CHECK(e >= 0 && e < 4 + a.n_constants + a.n_inputs, "tree-symbol", "symbol %d of %d", e, 4 + a.n_constants + a.n_inputs);
    CHECK(subtree_end(v, 0) == t.len, "tree-shape", "the program ends at %d but the length is %d", subtree_end(v, 0), t.len);
}
static void tree_value(GPTree &t, const ArgsGPTree &a, const double *x, double *out)
{
    double want;
    CHECK(ref_tree(t.tree, t.len, &a, x, &want), "tree-shape", "incomplete program");
    t.pos = 0;
    const double got = tree_eval(&t, &a, x);
    CHECK(same(got, want), "tree-value", "tree evaluates to %.17g, its expression is %.17g", got, want);
    CHECK(t.pos == t.len, "tree-pos", "evaluation stopped at %d of %d", t.pos, t.len);
    *out = got;
}
// the exported infix expression, read back against the tree
static int infix(const cJSON *&p, const GPTree &t, int pos, const ArgsGPTree &a)
{
    CHECK(p != nullptr, "tree-export", "exported expression ends early");
    const cJSON *e = p;
    const int node = t.tree[pos];
    p = p->next;
    if (node >= 4 + a.n_constants) {
        int f = -1;
        CHECK(cJSON_IsString(e) && sscanf(e->valuestring, "feature_%d", &f) == 1 && f == node - 4 - a.n_constants, "tree-export",
              "token %s exported for feature %d", e->valuestring, node - 4 - a.n_constants);
        return pos + 1;
    }
    if (node >= 4) {
        CHECK(cJSON_IsNumber(e) && close(e->valuedouble, a.constants[node - 4], 1e-12), "tree-export", "constant %g exported as %g", a.constants[node - 4], e->valuedouble);
        return pos + 1;
    }
    CHECK(cJSON_IsString(e) && strcmp(e->valuestring, "(") == 0, "tree-export", "opening bracket expected");
    const int next = infix(p, t, pos + 1, a);
    CHECK(p && cJSON_IsString(p) && strlen(p->valuestring) == 1 && p->valuestring[0] == "+-*/"[node], "tree-export", "operator %d exported as %s", node, p && p->valuestring ? p->valuestring : "?");
    p = p->next;
    const int end = infix(p, t, next, a);
    CHECK(p && cJSON_IsString(p) && strcmp(p->valuestring, ")") == 0, "tree-export", "closing bracket expected");
    p = p->next;
    return end;
}
static void trees(Src &s, Case &c)
{
    const int nx = s.range(1, 5);
    ArgsGPTree a;
    tree_args_init(&a);
    tree_param_set_n_inputs(&a, nx);
    tree_param_set_n_constants(&a, s.small(1, 20));
    const double lo = s.real(-1, 1), w = s.real(0, 2);
    tree_param_set_min(&a, lo);
    tree_param_set_max(&a, lo + w);
    tree_param_set_init_depth(&a, s.range(1, 6));
    tree_param_set_max_len(&a, s.flip() ? 200 : s.range(1, 40));
    seed_rng((uint32_t) s.below(1u << 31));
    tree_args_init_constants(&a);
    for (int i = 0; i < a.n_constants; ++i)
        CHECK(a.constants[i] >= lo && a.constants[i] <= lo + w, "constant", "constant %g outside [%g,%g]", a.constants[i], lo, lo + w);
    // special constants: zero for protected division, large for clamping
    for (int i = 0; i < a.n_constants; ++i)
        if (s.chance(1, 6)) a.constants[i] = std::vector<double>{0, 1e6, -1e6, -0.0}[s.below(4)];
    c.desc << "trees x" << nx << " constants " << a.n_constants << " depth " << a.init_depth << " max_len " << a.max_len;
    std::vector<GPTree> t(3);
    for (GPTree &e : t) {
        tree_rand(&e, &a);
        tree_ok(e, a);
        CHECK(e.len <= a.max_len, "tree-length", "new tree of length %d, limit %d", e.len, a.max_len);
        int p = 0;
        CHECK(depth_of(code(e), p) <= a.init_depth, "tree-depth", "new tree deeper than %d", a.init_depth);
    }
    bool changed = false, crossed = false;
    for (int k = s.range(2, 14); k > 0; --k) {
        const int i = s.range(0, 2), j = (i + 1 + s.range(0, 1)) % 3;
        GPTree &p = t[(size_t) i], &q = t[(size_t) j], &o = t[(size_t) (3 - i - j)];
        const std::vector<int> cp = code(p), cq = code(q), co = code(o);
        switch (s.pickw({4, 4, 1, 1})) {
            case 0: {
                const bool rep = tree_mutate(&p, &a);
                const std::vector<int> n = code(p);
                CHECK(n.size() == cp.size(), "mutate-length", "mutation changed the length");
                for (size_t e = 0; e < n.size(); ++e)
                    CHECK(arity(n[e]) == arity(cp[e]), "mutate-arity", "mutation turned symbol %d into %d", cp[e], n[e]);
                CHECK(rep == (n != cp), rep ? "false-change" : "silent", "mutation reports %d, tree %s", rep, n != cp ? "changed" : "unchanged");
                changed = changed || n != cp;
                break;
            }
            case 1: {
                if (cp.size() + cq.size() > 3000) break;
                tree_crossover(&p, &q);
                const std::vector<int> np = code(p), nq = code(q);
                CHECK(np.size() + nq.size() == cp.size() + cq.size(), "cross-length", "crossover changed the total length");
                bool found = false;
                for (size_t x1 = 0; x1 < cp.size() && !found; ++x1)
                    for (size_t x2 = 0; x2 < cq.size() && !found; ++x2) {
                        const int e1 = subtree_end(cp, (int) x1), e2 = subtree_end(cq, (int) x2);
                        if (cp.size() - (size_t) (e1 - (int) x1) + (size_t) (e2 - (int) x2) != np.size()) continue;
                        std::vector<int> r(cp.begin(), cp.begin() + (long) x1);
                        r.insert(r.end(), cq.begin() + (long) x2, cq.begin() + e2);
                        r.insert(r.end(), cp.begin() + e1, cp.end());
                        if (r != np) continue;
                        std::vector<int> r2(cq.begin(), cq.begin() + (long) x2);
                        r2.insert(r2.end(), cp.begin() + (long) x1, cp.begin() + e1);
                        r2.insert(r2.end(), cq.begin() + e2, cq.end());
                        found = r2 == nq;
                    }
                CHECK(found, "cross-subtree", "crossover did not exchange one subtree of each parent");
                crossed = crossed || np != cp;
                break;
            }
            case 2: {
                GPTree n;
                tree_copy(&n, &p);
                CHECK(code(n) == cp && n.tree != p.tree && n.mu != p.mu && n.mu[0] == p.mu[0], "copy", "copy differs or shares memory");
                for (int e = 0; e < 5; ++e) tree_mutate(&n, &a);
                CHECK(code(p) == cp, "copy-shared", "changing a copy changed the original");
                tree_free(&p);
                p = n;
                break;
            }
            default: {
                p.pos = 0;
                const std::string f = scratch() + "/tree";
                FILE *fp = fopen(f.c_str(), "wb");
                const size_t wr = tree_save(&p, fp);
                fclose(fp);
                fp = fopen(f.c_str(), "rb");
                GPTree n;
                const size_t rd = tree_load(&n, fp);
                const bool all = fgetc(fp) == EOF;
                fclose(fp);
                CHECK(wr == rd && all, "save", "%zu elements written, %zu read", wr, rd);
                CHECK(code(n) == cp && n.mu[0] == p.mu[0], "save", "loaded tree differs");
                tree_free(&p);
                p = n;
            }
        }
        CHECK(code(o) == co, "bystander", "an operator changed an unrelated tree");
        for (GPTree &e : t) tree_ok(e, a);
        std::vector<double> x((size_t) nx);
        for (double &e : x) e = s.chance(1, 8) ? s.uniform(-2000, 2000) : s.real(-1, 1);
        double v;
        tree_value(p, a, x.data(), &v);
        tree_value(q, a, x.data(), &v);
        if (q.len < 500) {
            char *js = tree_json_export(&q, &a);
            cJSON *json = cJSON_Parse(js);
            free(js);
            const cJSON *e = cJSON_GetObjectItem(json, "array")->child;
            const int used = infix(e, q, 0, a);
            const bool end = e == nullptr && used == q.len;
            cJSON_Delete(json);
            CHECK(end, "tree-export", "exported expression goes on after its end");
        }
    }
    for (GPTree &e : t) tree_free(&e);
    tree_args_free(&a);
    c.count("trees");
    c.nontrivial = changed && crossed;
}
// ---- graphs
static void graph_ok(const Graph &g, const ArgsDGP &a)
{
    CHECK(g.n == a.n && g.n_inputs == a.n_inputs && g.max_k == a.max_k && g.max_t == a.max_t && g.klen == a.n * a.max_k && g.evolve_cycles == a.evolve_cycles,
          "graph-shape", "graph of %d nodes, %d inputs, %d connections, declared %d, %d, %d", g.n, g.n_inputs, g.klen, a.n, a.n_inputs, a.n * a.max_k);
    CHECK(g.t >= 1 && g.t <= a.max_t, "graph-cycles", "%d update cycles, at most %d", g.t, a.max_t);
    if (!a.evolve_cycles) CHECK(g.t == a.max_t, "graph-cycles", "%d update cycles, fixed at %d", g.t, a.max_t);
    for (int i = 0; i < g.n; ++i) {
        CHECK(g.function[i] >= 0 && g.function[i] < 3, "graph-function", "node function %d", g.function[i]);
        CHECK(g.initial_state[i] >= 0 && g.initial_state[i] <= 1 && g.state[i] >= 0 && g.state[i] <= 1, "graph-state", "state %g initial %g", g.state[i], g.initial_state[i]);
    }
    for (int i = 0; i < g.klen; ++i)
        CHECK(g.connectivity[i] >= 0 && g.connectivity[i] < g.n + g.n_inputs, "graph-connection", "connection to %d of %d", g.connectivity[i], g.n + g.n_inputs);
}
static std::vector<double> gcode(const Graph &g, bool state)
{
    std::vector<double> v = {(double) g.n, (double) g.n_inputs, (double) g.t, (double) g.max_t, (double) g.max_k, (double) g.klen, (double) g.evolve_cycles};
    v.insert(v.end(), g.function, g.function + g.n);
    v.insert(v.end(), g.connectivity, g.connectivity + g.klen);
    v.insert(v.end(), g.initial_state, g.initial_state + g.n);
    if (state) v.insert(v.end(), g.state, g.state + g.n), v.insert(v.end(), g.mu, g.mu + 3);
    return v;
}
static void graphs(Src &s, Case &c)
{
    ArgsDGP a;
    graph_args_init(&a);
    const bool big = s.chance(1, 15);
    graph_param_set_n(&a, big ? s.range(9, 60) : s.range(1, 8));
    graph_param_set_n_inputs(&a, big ? s.range(1, 40) : s.range(1, 5));
    graph_param_set_max_k(&a, big ? s.range(1, 12) : s.range(1, 4));
    graph_param_set_max_t(&a, big ? s.range(1, 60) : s.range(1, 8));
    graph_param_set_evolve_cycles(&a, s.flip());
    seed_rng((uint32_t) s.below(1u << 31));
    c.desc << "graphs n" << a.n << " x" << a.n_inputs << " k" << a.max_k << " t" << a.max_t << (a.evolve_cycles ? " evolve" : "");
    std::vector<Graph> g(2);
    for (Graph &e : g) {
        graph_init(&e, &a);
        graph_rand(&e);
        graph_ok(e, a);
    }
    bool changed = false, moved = false;
    for (int k = s.range(2, 14); k > 0; --k) {
        const int i = s.range(0, 1);
        Graph &p = g[(size_t) i];
        const std::vector<double> before = gcode(p, false), other = gcode(g[(size_t) (1 - i)], true);
        switch (s.pickw({4, 6, 1, 1, 1})) {
            case 0: {
                const int t0 = p.t;
                const bool rep = graph_mutate(&p);
                const bool ch = gcode(p, false) != before;
                CHECK(rep == ch, rep ? "false-change" : "silent", "mutation reports %d, graph %s", rep, ch ? "changed" : "unchanged");
                CHECK(std::vector<double>(p.initial_state, p.initial_state + p.n) == std::vector<double>(before.end() - p.n, before.end()), "mutate-state", "mutation changed initial states");
                if (p.t != t0) c.count("cycles mutated");
                changed = changed || ch;
                break;
            }
            case 1: {
                const bool reset = s.flip();
                std::vector<double> x((size_t) a.n_inputs);
                for (double &e : x) e = s.chance(1, 8) ? s.uniform(-3, 3) : s.real(0, 1);
                const std::vector<double> want = ref_graph(&p, x.data(), reset), x0 = x;
                graph_update(&p, x.data(), reset);
                for (int e = 0; e < p.n; ++e) {
                    CHECK(close(p.state[e], want[(size_t) e], 1e-12), "graph-value", "node %d has state %.17g, expected %.17g", e, p.state[e], want[(size_t) e]);
                    CHECK(graph_output(&p, e) == p.state[e], "graph-output", "output %d is %g, state %g", e, graph_output(&p, e), p.state[e]);
                    if (p.state[e] != p.initial_state[e]) moved = true;
                }
                CHECK(gcode(p, false) == before && x == x0, "update-structure", "an update changed the graph's structure or its input");
                break;
            }
            case 2: {
                Graph n;
                graph_init(&n, &a);
                graph_copy(&n, &p);
                CHECK(gcode(n, true) == gcode(p, true), "copy", "copy differs");
                const std::vector<double> all = gcode(p, true);
                std::vector<double> x((size_t) a.n_inputs, 0.5);
                for (int e = 0; e < 5; ++e) graph_mutate(&n);
                graph_update(&n, x.data(), false);
                CHECK(gcode(p, true) == all, "copy-shared", "changing a copy changed the original");
                graph_free(&p);
                p = n;
                break;
            }
            case 3: {
                const std::string f = scratch() + "/graph";
                FILE *fp = fopen(f.c_str(), "wb");
                const size_t wr = graph_save(&p, fp);
                fclose(fp);
                fp = fopen(f.c_str(), "rb");
                Graph n;
                const size_t rd = graph_load(&n, fp);
                const bool all = fgetc(fp) == EOF;
                fclose(fp);
                CHECK(wr == rd && all, "save", "%zu elements written, %zu read", wr, rd);
                CHECK(gcode(n, true) == gcode(p, true), "save", "loaded graph differs");
                graph_free(&p);
                p = n;
                break;
            }
            default: {
                char *js = graph_json_export(&p);
                cJSON *json = cJSON_Parse(js);
                free(js);
                Graph n;
                graph_json_import(&n, &a, json);
                cJSON_Delete(json);
                const std::vector<double> u = gcode(n, true), v = gcode(p, true);
                CHECK(u.size() == v.size(), "json", "imported graph has another shape");
                for (size_t e = 0; e < u.size(); ++e) CHECK(close(u[e], v[e], 1e-12), "json", "imported graph differs at %zu: %g instead of %g", e, u[e], v[e]);
                graph_free(&p);
                p = n;
            }
        }
        CHECK(gcode(g[(size_t) (1 - i)], true) == other, "bystander", "an operator changed an unrelated graph");
        for (Graph &e : g) graph_ok(e, a);
    }
    for (Graph &e : g) graph_free(&e);
    c.count("graphs");
    c.nontrivial = changed && moved;
}
static void run(Src &s, Case &c)
{
    if (s.flip()) trees(s, c);
    else graphs(s, c);
}
const Property pbt::property = {
    "C17",
    "a case is three expression trees or two dynamical graphs under random settings and up to fourteen operations (creation, mutation, crossover, copy, save and load, export, evaluation) checked one by one; non-trivial: trees that were both mutated and crossed, or a graph that was mutated and whose state left the initial one",
    run, 100000, 4000000, 20};
