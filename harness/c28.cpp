// C28: every legal use is memory safe and releases what it allocates
// (AddressSanitizer and UndefinedBehaviorSanitizer watch; memory is counted).
#include "common.hpp"
#include <unistd.h>
using namespace pbt;

static std::string take(char *p)
{
    std::string r = p ? p : "";
    free(p);
    return r;
}
static bool importable(const Cfg &g)
{
    const bool c = g.cond == COND_TYPE_DUMMY || g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERRECTANGLE_UBR || g.cond == COND_TYPE_HYPERELLIPSOID ||
        g.cond == COND_TYPE_DGP || g.cond == COND_TYPE_TERNARY || g.cond == RULE_TYPE_DGP;
    return c && g.pred != PRED_TYPE_NEURAL && (g.n_actions == 1 || g.act == ACT_TYPE_INTEGER || g.rule_type());
}
static bool finite_rules(const XCSF *x)
{
    for (const Cl *c : rules(x->pset))
        for (const Field &f : snap_cl(x, c, S_RULE | S_PREDVAL))
            if (!std::isfinite(f.v)) return false;
    return true;
}
struct One {
    Cfg g;
    std::unique_ptr<Sys> x;
    std::unique_ptr<Data> d;
};
static One make(Src &s, const CfgOpt &o)
{
    One r;
    r.g = gen_cfg(s, o);
    r.g.stateful = r.g.stateful && s.flip();
    r.x.reset(new Sys(r.g));
    r.d = gen_data(s, r.g, s.range(1, 6));
    return r;
}
// the memory the harness itself holds
static size_t own(const Src &s) { return s.ch.capacity() * sizeof(uint64_t); }

static int64_t held_now(const Src &s) { return (int64_t) live_bytes() - (int64_t) own(s); }
#ifdef PARALLEL
static const int64_t SLACK = 65536; // thread teams
#else
static const int64_t SLACK = 0;
#endif

static void settle()
{
    static bool done = false;
    if (done) return;
    done = true;
    printf(" ");
    fflush(stdout);
    const std::string f = scratch() + "/warm";
    FILE *fp = fopen(f.c_str(), "w");
    fputs("x", fp);
    fclose(fp);
    unlink(f.c_str());
}
static void component(Src &s, std::string &log)
{
    const int what = s.range(0, 2);
    seed_rng((uint32_t) s.below(1u << 31));
    if (what == 0) { // a network through its whole interface
        NetOpt no;
        no.level = s.range(0, 2);
        no.images = no.level == 2;
        const int ni = s.range(1, 5), nout = s.range(1, 4);
        const auto v = gen_net(s, ni, nout, no);
        log += " net(" + net_str(v) + ")";
        NetBox b(v);
        Net copy;
        bool has = false;
        const int in = b.n.n_inputs;
        std::vector<double> x((size_t) in), y((size_t) 64 + in * 64);
        for (int k = s.range(3, 25); k > 0; --k) {
            for (double &e : x) e = s.uniform(-2, 2);
            for (double &e : y) e = s.uniform(-2, 2);
            switch (s.range(0, 8)) {
                case 0: neural_propagate(&b.n, x.data(), s.flip()); break;
                case 1:
                    neural_propagate(&b.n, x.data(), true);
                    neural_learn(&b.n, y.data(), x.data());
                    break;
                case 2: neural_mutate(&b.n); break;
                case 3:
                    if (has) neural_free(&copy);
                    neural_copy(&copy, &b.n);
                    has = true;
                    break;
                case 4: neural_rand(&b.n); break;
                case 5: {
                    FILE *fp = fopen((scratch() + "/net").c_str(), "w+b");
                    neural_save(&b.n, fp);
                    rewind(fp);
                    Net n2;
                    neural_load(&n2, fp);
                    fclose(fp);
                    neural_propagate(&n2, x.data(), false);
                    neural_free(&n2);
                    break;
                }
                case 6: neural_print(&b.n, s.flip()); break;
                case 7: {
                    const double sz = neural_size(&b.n);
                    CHECK(std::isfinite(sz), "size", "network of size %g", sz);
                    for (int i = 0; i < b.n.n_outputs; ++i) neural_output(&b.n, i);
                    break;
                }
                default: take(neural_json_export(&b.n, s.flip()));
            }
        }
        if (has) neural_free(&copy);
    } else if (what == 1) { // trees
        ArgsGPTree a;
        memset(&a, 0, sizeof a);
        tree_args_init(&a);
        a.n_inputs = s.range(1, 4);
        a.n_constants = s.range(1, 5);
        a.init_depth = s.range(1, 5);
        a.max_len = s.pick(std::vector<int>{1, 2, 3, 10, 50, 500});
        a.min = -1;
        a.max = 1;
        tree_args_init_constants(&a);
        log += fmt(" trees(len %d depth %d)", a.max_len, a.init_depth);
        GPTree t[2];
        for (GPTree &e : t) tree_rand(&e, &a);
        std::vector<double> x((size_t) a.n_inputs);
        for (int k = s.range(3, 30); k > 0; --k) {
            for (double &e : x) e = s.uniform(-3, 3);
            GPTree &u = t[s.below(2)];
            switch (s.range(0, 5)) {
                case 0:
                    u.pos = 0;
                    tree_eval(&u, &a, x.data());
                    break;
                case 1: tree_crossover(&t[0], &t[1]); break;
                case 2: tree_mutate(&u, &a); break;
                case 3: tree_print(&u, &a); break;
                case 4: {
                    GPTree c;
                    tree_copy(&c, &u);
                    tree_free(&c);
                    break;
                }
                default: {
                    FILE *fp = fopen((scratch() + "/tree").c_str(), "w+b");
                    tree_save(&u, fp);
                    rewind(fp);
                    GPTree c;
                    tree_load(&c, fp);
                    fclose(fp);
                    tree_free(&c);
                }
            }
        }
        for (GPTree &e : t) tree_free(&e);
        tree_args_free(&a);
    } else { // graphs
        ArgsDGP a;
        graph_args_init(&a);
        a.n = s.range(1, 8);
        a.n_inputs = s.range(1, 4);
        a.max_k = s.range(1, 4);
        a.max_t = s.range(1, 6);
        a.evolve_cycles = a.max_t > 1 && s.flip();
        log += fmt(" graphs(n %d k %d t %d)", a.n, a.max_k, a.max_t);
        Graph u[2];
        for (Graph &e : u) graph_init(&e, &a), graph_rand(&e);
        std::vector<double> x((size_t) a.n_inputs);
        for (int k = s.range(3, 30); k > 0; --k) {
            for (double &e : x) e = s.unit();
            Graph &e = u[s.below(2)];
            switch (s.range(0, 5)) {
                case 0: graph_update(&e, x.data(), s.flip()); break;
                case 1: graph_mutate(&e); break;
                case 2: graph_copy(&u[0], &u[1]); break;
                case 3: graph_print(&e); break;
                case 4: {
                    cJSON *j = cJSON_Parse(take(graph_json_export(&e)).c_str());
                    Graph n;
                    graph_json_import(&n, &a, j);
                    cJSON_Delete(j);
                    graph_update(&n, x.data(), true);
                    graph_free(&n);
                    break;
                }
                default: {
                    FILE *fp = fopen((scratch() + "/graph").c_str(), "w+b");
                    graph_save(&e, fp);
                    rewind(fp);
                    Graph n;
                    graph_load(&n, fp);
                    fclose(fp);
                    graph_update(&n, x.data(), s.flip());
                    graph_free(&n);
                }
            }
        }
        for (Graph &e : u) graph_free(&e);
    }
}
// the largest number of bytes the system should hold given what it contains
static void bounded(One &a, Src &s, int64_t held)
{
    // a copy of the model made through a file holds about as much
    const std::string f = scratch() + "/size.bin";
    xcsf_save(*a.x, f.c_str());
    const int64_t b0 = held_now(s);
    int64_t b1;
    {
        Sys b(a.x->x.x_dim, a.x->x.y_dim, a.x->x.n_actions);
        xcsf_load(b, f.c_str());
        b1 = held_now(s) - b0;
    }
    unlink(f.c_str());
    CHECK(held <= b1 + b1 / 4 + 4096 + SLACK, "growth", "the system holds %lld bytes, a saved and loaded copy %lld", (long long) held, (long long) b1);
}
// More rules in one match set than an array on the stack could hold.
static void crowd(Src &s, std::string &log)
{
    Cfg g;
    g.cond = COND_TYPE_DUMMY;
    g.pred = PRED_TYPE_CONSTANT;
    g.pop_size = s.range(1100000, 1500000);
    g.pop_init = true;
    g.theta_ea = 0;
    g.set_sub = s.flip();
    g.ea_sub = s.flip();
    g.seed = 1;
    log += "crowd " + g.str();
    Sys x(g);
    double in = 0.5, y = 1, out = 0, cover = 0;
    Input d;
    d.x = &in, d.y = &y;
    d.x_dim = d.y_dim = d.n_samples = 1;
    xcs_supervised_fit(x, &d, nullptr, false, 0, 1);
    xcs_supervised_predict(x, &in, &out, 1, &cover);
}
static void run(Src &s, Case &c)
{
    settle();
    CfgOpt o;
    o.softmax_pred = true;
    o.net_level = s.chance(1, 3) ? 2 : 1;
    o.max_pop = 30;
    const std::string file = scratch() + "/m.bin", file2 = scratch() + "/p.json";
    std::string log;
    log.reserve(1 << 16);
    enum { LOADED, INSERTED, EXPANDED, COMPARED, N_COUNTS };
    static const char *count_names[] = {"loaded into another system", "rules inserted", "networks expanded", "memory compared with a fresh copy"};
    int64_t counts[N_COUNTS] = {0};
    int64_t desc_mem = 0, n_ops = 0, n_rules = 0;
    const int64_t before = held_now(s);
    int64_t after;
    if (s.chance(1, 1500)) {
        crowd(s, log);
        after = held_now(s);
        c.nontrivial = true;
        c.count("crowds");
        c.desc << log;
    } else if (s.chance(1, 4)) {
        component(s, log);
        after = held_now(s);
        c.nontrivial = true;
        c.desc << log;
    } else {
        {
            const int64_t m0 = held_now(s);
            One a = make(s, o);
            const int64_t dsize = (int64_t) (a.d->x.capacity() + a.d->y.capacity()) * sizeof(double) + sizeof(Data);
            log += a.g.str();
            const int64_t t0 = held_now(s);
            c.desc << log << " ops";
            desc_mem += held_now(s) - t0;
            bool saved = false, foreign = false;
            const int ops = s.range(2, 16);
            for (int k = 0; k < ops; ++k) {
                XCSF *x = *a.x;
                const int op = s.range(0, 17);
                const int64_t t1 = held_now(s);
                c.desc << " " << op;
                desc_mem += held_now(s) - t1;
                ++n_ops;
                switch (op) {
                    case 0:
                    case 1:
                    case 2:
                    case 3: train(x, *a.d, s, s.range(1, 25)); break;
                    case 4: {
                        const int n = a.d->in.n_samples;
                        if (x->n_actions == 1) {
                            std::vector<double> out((size_t) n * (size_t) x->pa_size), cov((size_t) x->pa_size, 0.5);
                            xcs_supervised_predict(x, a.d->x.data(), out.data(), n, s.flip() ? cov.data() : nullptr);
                            xcs_supervised_score(x, &a.d->in, s.flip() ? cov.data() : nullptr);
                            xcs_supervised_score_n(x, &a.d->in, s.range(1, n + 2), s.flip() ? cov.data() : nullptr);
                        } else {
                            xcs_rl_init_trial(x);
                            xcs_rl_init_step(x);
                            xcs_rl_decision(x, a.d->xrow(0));
                            xcs_rl_end_step(x, a.d->xrow(0), 0, 0);
                            xcs_rl_end_trial(x);
                        }
                        break;
                    }
                    case 5:
                        xcsf_save(x, file.c_str());
                        saved = true;
                        break;
                    case 6:
                        if (saved) xcsf_load(x, file.c_str());
                        break;
                    case 7: { // through another system
                        CfgOpt o2 = o;
                        One b = make(s, o2);
                        if (s.flip()) train(*b.x, *b.d, s, s.range(1, 8));
                        if (s.flip()) xcsf_store_pset(*b.x);
                        xcsf_save(x, file2.c_str());
                        xcsf_load(*b.x, file2.c_str());
                        unlink(file2.c_str());
                        train(*b.x, *a.d, s, s.range(1, 8));
                        if (s.flip()) {
                            xcsf_retrieve_pset(*b.x);
                            train(*b.x, *a.d, s, s.range(1, 4));
                        }
                        ++counts[LOADED];
                        break;
                    }
                    case 8:
                        xcsf_store_pset(x);
                        if (s.flip()) train(x, *a.d, s, s.range(1, 8));
                        break;
                    case 9:
                        xcsf_retrieve_pset(x);
                        break;
                    case 10: xcsf_print_pset(x, s.flip(), s.flip(), s.flip()); break;
                    case 11: {
                        const std::string t = take(param_json_export(x));
                        if (s.flip()) {
                            param_print(x);
                            Sys b(1, 1, 1);
                            xcsf_free(b);
                            param_json_import(b, t.c_str());
                            xcsf_init(b);
                        }
                        break;
                    }
                    case 12:
                        if (importable(a.g) && finite_rules(x)) {
                            const std::string t = take(clset_json_export(x, &x->pset, true, true, true));
                            clset_json_insert(x, t.c_str());
                            ++counts[INSERTED];
                        } else take(clset_json_export(x, &x->pset, true, true, true));
                        break;
                    case 13:
                        xcsf_free(x);
                        xcsf_init(x);
                        break;
                    case 14: // settings changed on the way
                        param_set_pop_size(x, std::max(x->n_actions * 6, s.range(1, 40)));
                        param_set_beta(x, s.unit());
                        param_set_set_subsumption(x, s.flip());
                        param_set_compaction(x, s.flip());
                        ea_param_set_pred_reset(x, s.flip());
                        ea_param_set_lambda(x, 2 * s.range(1, 3));
                        ea_param_set_select_type(x, s.flip() ? EA_SELECT_TOURNAMENT : EA_SELECT_ROULETTE);
                        break;
                    case 15:
                        if (x->pset.size == 0) break;
                        clset_mean_cond_size(x, &x->pset);
                        clset_mean_pred_size(x, &x->pset);
                        clset_mfrac(x);
                        clset_mean_time(&x->pset);
                        break;
                    case 16:
                        if (a.g.pred == PRED_TYPE_NEURAL && o.net_level < 2 && x->pset.size > 0 && a.g.pnet.back().type == CONNECTED) {
                            xcsf_pred_expand(x);
                            foreign = true;
                            ++counts[EXPANDED];
                        }
                        break;
                    default: {
                        FILE *fp = fopen(file2.c_str(), "w+b");
                        clset_pset_save(x, fp);
                        fclose(fp);
                        unlink(file2.c_str());
                    }
                }
                n_rules += a.x->x.pset.size;
                const int64_t held = held_now(s) - m0;
                if (!foreign && s.chance(1, 6) && a.x->x.prev_pset.size == 0) {
                    int64_t extra = dsize + 4096;
                    for (auto *v : {&a.g.cnet, &a.g.pnet, &a.g.anet}) extra += (int64_t) (v->capacity() * sizeof(ArgsLayer));
                    bounded(a, s, held - extra);
                    ++counts[COMPARED];
                }
            }
        }
        after = held_now(s) - desc_mem;
        c.nontrivial = n_ops >= 3 && n_rules > 0;
    }
    unlink(file.c_str());
    for (int i = 0; i < N_COUNTS; ++i)
        if (counts[i]) c.count(count_names[i], counts[i]);
    c.count("operations", n_ops);
    CHECK(after <= before + SLACK, "leak", "%lld bytes are still allocated after freeing everything", (long long) (after - before));
}
const pbt::Property pbt::property = {
    "C28", "at least three operations on a system that held rules, or a component (network, tree, graph) driven through its interface", run, 12000, 300000, 30};
