// C29: self-adaptive mutation rates stay legal, are inherited, adapt, and
// govern how much is mutated.
#include "common.hpp"
using namespace pbt;

static const double LO = 0.0005;
static const double LIST[10] = {0.0005, 0.001, 0.002, 0.003, 0.005, 0.01, 0.015, 0.02, 0.05, 0.1};

struct Mu {
    std::string name;
    double *p;
    int kind;
};
static void graph_mu(std::vector<Mu> &v, Graph &g)
{
    v.push_back({"graph function rate", &g.mu[0], SAM_LOG_NORMAL});
    v.push_back({"graph connectivity rate", &g.mu[1], SAM_LOG_NORMAL});
    v.push_back({"graph cycles rate", &g.mu[2], SAM_UNIFORM});
}
static void net_mu(std::vector<Mu> &v, const Net *n, const char *of)
{
    if (!n) return;
    int k = 0;
    for (const Layer *l : net_layers(n)) {
        if (l->type == CONNECTED || l->type == CONVOLUTIONAL || l->type == RECURRENT || l->type == LSTM)
            for (int i = 0; i < 6; ++i) v.push_back({fmt("%s layer %d rate %d", of, k, i), &l->mu[i], SAM_RATE_SELECT});
        ++k;
    }
}
static std::vector<Mu> mus(const XCSF *x, const Cl *c)
{
    std::vector<Mu> v;
    switch (x->cond->type) {
        case COND_TYPE_HYPERRECTANGLE_CSR:
        case COND_TYPE_HYPERRECTANGLE_UBR: v.push_back({"interval rate", ((CondRectangle *) c->cond)->mu, SAM_LOG_NORMAL}); break;
        case COND_TYPE_HYPERELLIPSOID: v.push_back({"ellipsoid rate", ((CondEllipsoid *) c->cond)->mu, SAM_LOG_NORMAL}); break;
        case COND_TYPE_TERNARY: v.push_back({"ternary rate", ((CondTernary *) c->cond)->mu, SAM_LOG_NORMAL}); break;
        case COND_TYPE_GP: v.push_back({"tree rate", ((CondGP *) c->cond)->gp.mu, SAM_RATE_SELECT}); break;
        case COND_TYPE_DGP: graph_mu(v, ((CondDGP *) c->cond)->dgp); break;
        case RULE_TYPE_DGP: graph_mu(v, ((RuleDGP *) c->cond)->dgp); break;
        default: net_mu(v, cond_net(x, c), "condition");
    }
    if (x->n_actions > 1 && x->cond->type != RULE_TYPE_DGP && x->cond->type != RULE_TYPE_NEURAL) {
        if (x->act->type == ACT_TYPE_INTEGER) v.push_back({"action rate", ((ActInteger *) c->act)->mu, SAM_LOG_NORMAL});
        else net_mu(v, act_net(x, c), "action");
    }
    if ((x->pred->type == PRED_TYPE_NLMS_LINEAR || x->pred->type == PRED_TYPE_NLMS_QUADRATIC) && x->pred->evolve_eta)
        v.push_back({"NLMS rate", ((PredNLMS *) c->pred)->mu, SAM_LOG_NORMAL});
    net_mu(v, pred_net(x, c), "prediction");
    return v;
}
static std::vector<double> values(const std::vector<Mu> &v)
{
    std::vector<double> r;
    for (auto &m : v) r.push_back(*m.p);
    return r;
}
static void legal(double v, int kind, const std::string &name)
{
    if (kind == SAM_RATE_SELECT) {
        for (double l : LIST)
            if (v == l) return;
        CHECK(false, "list", "%s is %.17g, which is not a selectable rate", name.c_str(), v);
    }
    CHECK(v >= LO && v <= 1, "bounds", "%s is %.17g", name.c_str(), v);
}
// observed count against n Bernoulli trials of summed probability / variance
static void count_ok(const char *what, double got, double mean, double var)
{
    CHECK(fabs(got - mean) <= 6.5 * sqrt(var) + 4, "rate", "%s: %g of the expected %g (standard deviation %g)", what, got, mean, sqrt(var));
}
// sum of n squared standard normals
static void spread_ok(const char *what, double sum2, double n)
{
    // 6.5 sigma of a chi-squared variable plus a term for its skew
    const double sd = sqrt(2 * n);
    CHECK(fabs(sum2 - n) <= 6.5 * sd + 30, "rate", "%s: steps have %.3f times the variance their rates ask for (%g steps)", what, sum2 / n, n);
}
static int kind_of(Src &s) { return s.pick(std::vector<int>{SAM_LOG_NORMAL, SAM_RATE_SELECT, SAM_UNIFORM}); }

// vectors of rates of their own
static void vectors(Src &s, Case &c)
{
    const bool lengthy = s.chance(1, 25); // tells finer differences
    const int n = s.range(1, 8), steps = lengthy ? 12000 : s.range(50, 600);
    std::vector<int> kind;
    for (int i = 0; i < n; ++i) kind.push_back(kind_of(s));
    c.desc << "vector of";
    for (int k : kind) c.desc << (k == SAM_LOG_NORMAL ? " log-normal" : k == SAM_UNIFORM ? " uniform" : " selected");
    c.desc << ", " << steps << " steps";
    seed_rng((uint32_t) s.below(1u << 31));
    std::vector<double> mu((size_t) n + 2, -7.0);
    double up = 0, big = 0, ln = 0, redraw = 0, redraws = 0, high = 0, highs = 0, init_high = 0, inits = 0;
    double sel = 0, sels = 0, sel_high = 0, sel_n = 0;
    for (int t = 0; t < steps; ++t) {
        if (t % 5 == 0) {
            sam_init(mu.data() + 1, n, kind.data());
            for (int i = 0; i < n; ++i) {
                legal(mu[i + 1], kind[i], fmt("initial rate %d", i));
                if (kind[i] != SAM_RATE_SELECT) init_high += mu[i + 1] > 0.50025, ++inits;
                else sel_high += mu[i + 1] >= 0.01, ++sel_n;
            }
        }
        if (t % 5 == 1)
            for (int i = 0; i < n; ++i) // from an extreme
                mu[i + 1] = kind[i] == SAM_RATE_SELECT ? LIST[s.below(10)] : s.pick(std::vector<double>{LO, 1, 0.02, s.uniform(LO, 1)});
        if (t % 5 == 2)
            for (int i = 0; i < n; ++i)
                if (kind[i] == SAM_LOG_NORMAL) mu[i + 1] = 0.02;
        const std::vector<double> old = mu;
        sam_adapt(mu.data() + 1, n, kind.data());
        CHECK(mu[0] == -7 && mu[n + 1] == -7, "outside", "adapting %d rates wrote around them", n);
        double prev = 0;
        for (int i = 0; i < n; ++i) {
            const double a = old[i + 1], b = mu[i + 1];
            legal(b, kind[i], fmt("rate %d after adapting", i));
            if (kind[i] == SAM_LOG_NORMAL && t % 5 == 2) {
                const double f = log(b / a);
                up += f > 0;
                big += fabs(f) > 1;
                ++ln;
                CHECK(f != prev, "independent", "two log-normal rates moved by the same factor %g", exp(f));
                prev = f;
            } else if (kind[i] == SAM_UNIFORM) {
                redraw += a != b;
                ++redraws;
                if (a != b) high += b > 0.50025, ++highs;
            } else if (kind[i] == SAM_RATE_SELECT) {
                sel += a != b;
                ++sels;
            }
        }
    }
    count_ok("log-normal rates that grew", up, 0.5 * ln, 0.25 * ln);
    count_ok("log-normal rates that moved by more than a factor e", big, 0.31731 * ln, 0.2166 * ln);
    count_ok("uniform rates redrawn", redraw, 0.1 * redraws, 0.09 * redraws);
    count_ok("uniform rates redrawn from the upper half", high, 0.5 * highs, 0.25 * highs);
    count_ok("initial rates in the upper half", init_high, 0.5 * inits, 0.25 * inits);
    count_ok("selected rates changed", sel, 0.09 * sels, 0.0819 * sels);
    count_ok("selected rates in the upper half of the list", sel_high, 0.5 * sel_n, 0.25 * sel_n);
    // every legal value can be drawn
    std::vector<double> from(10, 0), tenth(10, 0);
    const int draws = 2000, other = s.flip() ? SAM_UNIFORM : SAM_LOG_NORMAL;
    for (int t = 0; t < draws; ++t) {
        const int two[2] = {SAM_RATE_SELECT, other};
        double m[2];
        sam_init(m, 2, two);
        legal(m[0], two[0], "initial rate");
        legal(m[1], two[1], "initial rate");
        from[(size_t) (std::find(LIST, LIST + 10, m[0]) - LIST)] += 1;
        tenth[(size_t) std::min(9.0, (m[1] - LO) / (1 - LO) * 10)] += 1;
    }
    for (int i = 0; i < 10; ++i) {
        count_ok(fmt("initial rates of %g", LIST[i]).c_str(), from[(size_t) i], 0.1 * draws, 0.09 * draws);
        count_ok(fmt("initial rates in tenth %d of the range", i).c_str(), tenth[(size_t) i], 0.1 * draws, 0.09 * draws);
    }
    std::fill(from.begin(), from.end(), 0);
    std::fill(tenth.begin(), tenth.end(), 0);
    const int redrawn = 20000;
    for (int t = 0; t < redrawn; ++t) {
        const int two[2] = {SAM_RATE_SELECT, SAM_UNIFORM};
        const double was[2] = {LIST[t % 10], 0.25};
        double m[2] = {was[0], was[1]};
        sam_adapt(m, 2, two);
        legal(m[0], two[0], "adapted rate");
        legal(m[1], two[1], "adapted rate");
        if (m[0] != was[0]) from[(size_t) (std::find(LIST, LIST + 10, m[0]) - LIST)] += 1;
        if (m[1] != was[1]) tenth[(size_t) std::min(9.0, (m[1] - LO) / (1 - LO) * 10)] += 1;
    }
    for (int i = 0; i < 10; ++i) {
        count_ok(fmt("rates changed to %g", LIST[i]).c_str(), from[(size_t) i], 0.009 * redrawn, 0.009 * redrawn);
        count_ok(fmt("rates redrawn in tenth %d of the range", i).c_str(), tenth[(size_t) i], 0.01 * redrawn, 0.01 * redrawn);
    }
    c.count("adaptations", steps * n);
    c.nontrivial = true;
}
// any learning history
static void history(Src &s, Case &c)
{
    CfgOpt o;
    o.net_level = s.chance(1, 4) ? 2 : 1;
    const Cfg g = gen_cfg(s, o);
    c.desc << "history: " << g.str();
    Sys x(g);
    auto d = gen_data(s, g, s.range(2, 6));
    int64_t seen = 0;
    std::set<double> distinct;
    auto all = [&] {
        for (const Cl *k : rules(x->pset))
            for (auto &m : mus(x, k)) {
                legal(*m.p, m.kind, m.name);
                distinct.insert(*m.p);
                ++seen;
            }
    };
    all();
    train(x, *d, s, s.range(1, 40), [&](const char *) { all(); });
    c.count("rates checked in histories", seen);
    c.nontrivial = seen > 0 && distinct.size() > 1;
}
// one rule: copying, crossing over, mutating many times
static void rule(Src &s, Case &c)
{
    CfgOpt o;
    o.net_level = s.chance(1, 4) ? 2 : 1;
    Cfg g = gen_cfg(s, o);
    g.p_cross = 1;
    c.desc << "rule: " << g.str();
    Sys x(g);
    add_rules(x, g, s, 2);
    if (x->pset.size < 2) throw Discard();
    Cl *a = const_cast<Cl *>(rules(x->pset)[0]), *b = const_cast<Cl *>(rules(x->pset)[1]);
    auto ma = mus(x, a);
    for (auto &m : ma) *m.p = m.kind == SAM_RATE_SELECT ? LIST[s.below(10)] : s.uniform(0.01, 0.05);
    const auto va = values(ma), vb = values(mus(x, b));
    Cl *k = (Cl *) malloc(sizeof(Cl));
    cl_init(x, k, 1, 1);
    cl_copy(x, k, a);
    {
        const auto mk = mus(x, k);
        const auto vk = values(mk);
        CHECK(vk.size() == va.size(), "inherit", "a copy has %zu rates, the original %zu", vk.size(), va.size());
        for (size_t i = 0; i < va.size(); ++i)
            if (!(g.pred_reset && (mk[i].name.find("prediction") == 0 || mk[i].name == "NLMS rate")))
                CHECK(vk[i] == va[i], "inherit", "offspring starts with %s %.17g, its parent has %.17g", mk[i].name.c_str(), vk[i], va[i]);
    }
    CHECK(values(mus(x, a)) == va, "inherit", "copying changed the parent's rates");
    cl_crossover(x, k, b);
    CHECK(values(mus(x, a)) == va, "inherit", "crossing over a copy changed the parent's rates");
    CHECK(values(mus(x, b)) == vb, "inherit", "crossing over changed a rule's rates");
    cl_free(x, k);
    // the same rates adapt in many offspring
    const int N = 150;
    std::vector<int> moved(va.size(), 0);
    for (int t = 0; t < N; ++t) {
        k = (Cl *) malloc(sizeof(Cl));
        cl_init_copy(x, k, a);
        auto mk = mus(x, k);
        const auto v0 = values(mk);
        std::vector<double> frozen;
        if ((x->pred->type == PRED_TYPE_NLMS_LINEAR || x->pred->type == PRED_TYPE_NLMS_QUADRATIC) && !x->pred->evolve_eta)
            frozen = {((PredNLMS *) k->pred)->mu[0], ((PredNLMS *) k->pred)->eta};
        cl_mutate(x, k);
        if (!frozen.empty())
            CHECK(((PredNLMS *) k->pred)->mu[0] == frozen[0] && ((PredNLMS *) k->pred)->eta == frozen[1], "frozen", "a learning rate that does not evolve was mutated");
        mk = mus(x, k);
        CHECK(mk.size() == v0.size(), "inherit", "mutation changed the number of rates");
        for (size_t i = 0; i < mk.size(); ++i) {
            legal(*mk[i].p, mk[i].kind, mk[i].name + " after mutation");
            moved[i] += *mk[i].p != v0[i];
        }
        cl_free(x, k);
    }
    CHECK(values(mus(x, a)) == va, "inherit", "mutating offspring changed the parent's rates");
    for (size_t i = 0; i < moved.size(); ++i) {
        const double p = ma[i].kind == SAM_LOG_NORMAL ? 1 : ma[i].kind == SAM_UNIFORM ? 0.1 : 0.09;
        const double sd = sqrt(N * p * (1 - p));
        CHECK(fabs(moved[i] - N * p) <= 6.5 * sd + 3, "adapt", "%s moved in %d of %d offspring, expected about %g", ma[i].name.c_str(), moved[i], N, N * p);
        if (p < 1) CHECK(moved[i] > 0, "adapt", "%s never moved in %d offspring", ma[i].name.c_str(), N);
    }
    c.count("offspring mutated", N);
    c.nontrivial = !va.empty();
}
// the rates set how much is mutated
static void governed(Src &s, Case &c)
{
    CfgOpt o;
    o.conds = {COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_HYPERELLIPSOID, COND_TYPE_TERNARY, COND_TYPE_GP, COND_TYPE_DGP, RULE_TYPE_DGP};
    o.preds = {PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR};
    o.act_neural = false;
    Cfg g = gen_cfg(s, o);
    g.c_min = -1e7;
    g.c_max = 1e7;
    g.p_evolve_eta = true;
    g.p_eta = 1;
    g.p_eta_min = 0;
    c.desc << "governed: " << g.str();
    Sys x(g);
    add_rules(x, g, s, 1);
    Cl *k = const_cast<Cl *>(rules(x->pset)[0]);
    const int N = 150;
    double steps = 0, sum2 = 0, hits = 0, mean = 0, var = 0, chits = 0, cmean = 0, cvar = 0, ahits = 0, amean = 0, avar = 0, esteps = 0, esum2 = 0;
    auto bern = [](double &m, double &v, double p, double n) { m += p * n, v += p * (1 - p) * n; };
    for (int t = 0; t < N; ++t) {
        for (auto &m : mus(x, k)) *m.p = m.kind == SAM_RATE_SELECT ? LIST[s.below(10)] : s.uniform(0.01, 0.3);
        double *v1 = nullptr, *v2 = nullptr, *rate = nullptr;
        if (g.cond == COND_TYPE_HYPERELLIPSOID) {
            auto *e = (CondEllipsoid *) k->cond;
            v1 = e->center, v2 = e->spread, rate = e->mu;
        } else if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERRECTANGLE_UBR) {
            auto *e = (CondRectangle *) k->cond;
            v1 = e->b1, v2 = e->b2, rate = e->mu;
        }
        std::string str;
        std::vector<int> nodes, fn, con;
        Graph *gr = g.cond == COND_TYPE_DGP ? &((CondDGP *) k->cond)->dgp : g.cond == RULE_TYPE_DGP ? &((RuleDGP *) k->cond)->dgp : nullptr;
        if (v1)
            for (int i = 0; i < g.x_dim; ++i) v1[i] = s.uniform(-10, 10), v2[i] = s.uniform(100, 200);
        if (g.cond == COND_TYPE_TERNARY) str.assign(((CondTernary *) k->cond)->string, (size_t) ((CondTernary *) k->cond)->length);
        if (g.cond == COND_TYPE_GP) nodes.assign(((CondGP *) k->cond)->gp.tree, ((CondGP *) k->cond)->gp.tree + ((CondGP *) k->cond)->gp.len);
        if (gr) {
            fn.assign(gr->function, gr->function + gr->n);
            con.assign(gr->connectivity, gr->connectivity + gr->klen);
        }
        std::vector<double> w1, w2;
        if (v1) w1.assign(v1, v1 + g.x_dim), w2.assign(v2, v2 + g.x_dim);
        const bool acts = g.n_actions > 1 && !g.rule_type();
        const int act = acts ? ((ActInteger *) k->act)->action : 0;
        PredNLMS *nl = g.pred == PRED_TYPE_NLMS_LINEAR ? (PredNLMS *) k->pred : nullptr;
        if (nl) nl->eta = 0.5, nl->mu[0] = 0.002;
        cl_mutate(x, k);
        if (v1)
            for (int i = 0; i < g.x_dim; ++i) {
                steps += 2;
                sum2 += pow((v1[i] - w1[i]) / *rate, 2) + pow((v2[i] - w2[i]) / *rate, 2);
            }
        if (nl && nl->mu[0] < 0.07) { // seven deviations from the limits
            ++esteps;
            esum2 += pow((nl->eta - 0.5) / nl->mu[0], 2);
        }
        if (g.cond == COND_TYPE_TERNARY) {
            const auto *e = (CondTernary *) k->cond;
            for (int i = 0; i < e->length; ++i) hits += e->string[i] != str[i];
            bern(mean, var, e->mu[0], e->length);
        }
        if (g.cond == COND_TYPE_GP) {
            const GPTree &e = ((CondGP *) k->cond)->gp;
            CHECK(e.len == (int) nodes.size(), "length", "mutation changed the length of a tree");
            const int nterm = x->cond->targs->n_constants + x->cond->targs->n_inputs;
            for (int i = 0; i < e.len; ++i) {
                hits += e.tree[i] != nodes[i];
                const double q = nodes[i] < 4 ? 0.75 : 1 - 1.0 / nterm;
                bern(mean, var, e.mu[0] * q, 1);
            }
        }
        if (gr) {
            for (int i = 0; i < gr->n; ++i) hits += gr->function[i] != fn[i];
            bern(mean, var, gr->mu[0] * 2 / 3, gr->n);
            for (int i = 0; i < gr->klen; ++i) chits += gr->connectivity[i] != con[i];
            // a new connection is an input or a node; it is not the old one with at least this probability
            const double q = 1 - 1.0 / std::max(1, std::min(gr->n_inputs, gr->n));
            cmean += gr->mu[1] * q * gr->klen;
            cvar += gr->mu[1] * gr->klen;
        }
        if (acts) {
            ahits += ((ActInteger *) k->act)->action != act;
            bern(amean, avar, ((ActInteger *) k->act)->mu[0] * (1 - 1.0 / g.n_actions), 1);
        }
    }
    if (steps > 0) spread_ok("condition", sum2, steps);
    if (esteps > 0) spread_ok("learning rate", esum2, esteps);
    count_ok("mutated parts of the condition", hits, mean, var);
    count_ok("mutated actions", ahits, amean, avar);
    if (cmean > 0) CHECK(chits >= cmean - 6.5 * sqrt(cvar) - 4, "rate", "connections: only %g mutated, at least %g expected", chits, cmean);
    if (cvar > 0) CHECK(chits <= cvar + 6.5 * sqrt(cvar) + 4, "rate", "connections: %g mutated, at most %g expected", chits, cvar);
    c.count("rules mutated many times");
    c.nontrivial = true;
}
// layers: one kind of evolution at a time
static void layers(Src &s, Case &c)
{
    const int type = s.pick(std::vector<int>{CONNECTED, RECURRENT, LSTM, CONVOLUTIONAL});
    const int what = s.range(0, 3);
    ArgsLayer a;
    layer_args_init(&a);
    a.type = type;
    a.function = LINEAR;
    a.recurrent_function = LOGISTIC;
    const int n_in = s.range(2, 5);
    a.n_inputs = n_in;
    a.n_init = s.range(2, 5);
    a.n_max = a.n_init;
    a.max_neuron_grow = 1;
    if (type == CONVOLUTIONAL) {
        a.height = a.width = s.range(2, 4);
        a.channels = s.range(1, 2);
        a.n_inputs = a.height * a.width * a.channels;
        a.size = 2;
        a.stride = 1;
        a.pad = 0;
    }
    a.eta = 0.5;
    a.eta_min = 0;
    a.evolve_weights = what == 0;
    a.evolve_functions = what == 1;
    a.evolve_connect = what == 2;
    a.evolve_eta = what == 3;
    a.sgd_weights = true;
    a.decay = 0;
    static const char *names[] = {"weights", "functions", "connections", "eta"};
    c.desc << "layer type " << type << " inputs " << a.n_inputs << " neurons " << a.n_init << ": " << names[what];
    seed_rng((uint32_t) s.below(1u << 31));
    NetBox box({a});
    Layer *l = box.n.head->layer;
    const int N = 120;
    double sum2 = 0, n2 = 0, hits = 0, mean = 0, var = 0, off = 0, offm = 0, offv = 0;
    for (int t = 0; t < N; ++t) {
        for (int i = 0; i < 6; ++i) l->mu[i] = LIST[s.below(10)];
        auto parts = dense_parts(l);
        if (what == 3 && (type == CONNECTED || type == CONVOLUTIONAL)) l->eta_min = -1e6, l->eta_max = 1e6;
        std::vector<double> w;
        std::vector<bool> on;
        for (auto &p : parts) {
            for (int i = 0; i < p.second->n_weights; ++i) {
                if (what == 2) {
                    // half the connections are off
                    p.second->weight_active[i] = s.flip();
                    p.second->weights[i] = p.second->weight_active[i] ? 0.3 : 0;
                }
                w.push_back(p.second->weights[i]), on.push_back(p.second->weight_active[i]);
            }
            if (what == 2) {
                p.second->n_active = 0;
                for (int i = 0; i < p.second->n_weights; ++i) p.second->n_active += p.second->weight_active[i];
            }
            for (int i = 0; i < p.second->n_biases; ++i) w.push_back(p.second->biases[i]), on.push_back(true);
        }
        const int f = l->function, rf = l->recurrent_function;
        const double eta = l->eta;
        neural_mutate(&box.n);
        size_t k = 0;
        for (auto &p : parts) {
            for (int i = 0; i < p.second->n_weights + p.second->n_biases; ++i, ++k) {
                const bool bias = i >= p.second->n_weights;
                const double v = bias ? p.second->biases[i - p.second->n_weights] : p.second->weights[i];
                if (what == 0) {
                    if (on[k]) sum2 += pow((v - w[k]) / l->mu[4], 2), ++n2;
                } else if (what == 2 && !bias && p.second->n_inputs > 1 && p.second->n_outputs > 1) {
                    const bool now = p.second->weight_active[i];
                    if (on[k]) off += !now, offm += l->mu[3], offv += l->mu[3] * (1 - l->mu[3]);
                    else hits += now, mean += l->mu[2], var += l->mu[2] * (1 - l->mu[2]);
                } else if (what != 2)
                    CHECK(v == w[k], "stray", "a weight changed from %g to %g though weights do not evolve", w[k], v);
            }
        }
        if (what == 1) {
            hits += l->function != f;
            const double q = l->mu[5] * (1 - 1.0 / NUM_ACTIVATIONS);
            mean += q, var += q * (1 - q);
            if (type == LSTM) hits += l->recurrent_function != rf, mean += q, var += q * (1 - q);
        } else CHECK(l->function == f && l->recurrent_function == rf, "stray", "the activation function changed though it does not evolve");
        if (what == 3) {
            if (type == CONNECTED || type == CONVOLUTIONAL) sum2 += pow((l->eta - eta) / l->mu[0], 2), ++n2;
        } else CHECK(l->eta == eta, "stray", "the learning rate changed though it does not evolve");
    }
    if (n2 > 0) spread_ok(names[what], sum2, n2);
    if (what == 1) count_ok("activation functions changed", hits, mean, var);
    // connections switched on again to keep every input represented are extra
    if (what == 2 && type != CONNECTED) {
        count_ok("connections switched on", hits, mean, var);
        count_ok("connections switched off", off, offm, offv);
    } else if (what == 2) {
        CHECK(hits >= mean - 6.5 * sqrt(var) - 4, "rate", "connections switched on: only %g of %g", hits, mean);
        CHECK(off <= offm + 6.5 * sqrt(offv) + 4, "rate", "connections switched off: %g, expected %g", off, offm);
    }
    c.count("layers mutated many times");
    c.nontrivial = true;
}
static void run(Src &s, Case &c)
{
    switch (s.pickw({3, 3, 3, 3, 2})) {
        case 0: return vectors(s, c);
        case 1: return history(s, c);
        case 2: return rule(s, c);
        case 3: return governed(s, c);
        default: return layers(s, c);
    }
}
const pbt::Property pbt::property = {
    "C29",
    "a vector of rates was adapted at least 50 times; or rates of at least two different values were checked through a history; or a rule with rates was copied, "
    "crossed over and mutated 150 times; or the amount of mutation was compared with the rates over more than 100 mutations",
    run, 8000, 300000, 20};
